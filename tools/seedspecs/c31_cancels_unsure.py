ID='C31-cancels-when-unsure'; PROP='C31'
NEEDS='a database commit that succeeds while its reply is lost, in a command with transactional events'
BREAKS='when the commit of the database reports an error the announced events are cancelled, although the writes may have been committed, so they are never handled'
EDITS=[('engine.go', '\t\t\tresult.Error = err\n\t\t\te.logger.Error(err, "commit failed", "err", err)\n\t\t} else {', '\t\t\tresult.Error = err\n\t\t\te.logger.Error(err, "commit failed", "err", err)\n\t\t\tif txEventBus, ok := e.eventBus.(ITransactionEventBus); ok && e.eventCtx != nil {\n\t\t\t\t_ = txEventBus.Rollback(e.eventCtx)\n\t\t\t}\n\t\t} else {')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type unsure struct{ *store }

func (s unsure) Commit(ctx context.Context) error {
	_ = s.store.Commit(ctx)
	return errors.New("connection lost")
}

func TestZZ(t *testing.T) {
	s := unsure{newStore(row{"node", "n1", "", "a"})}
	b := &txBus{}
	eng := ddd.NewEngine(&lock{}, s, ddd.WithEventBus(b))
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		n := &node{BaseEntity: ddd.NewBase("n1")}
		if err := repo.Get(ctx, n); err != nil {
			return err
		}
		n.AddEvent(&ev{1}, ddd.WithSendType(ddd.SendTypeTransaction))
		return nil
	})
	if res.Error == nil || fmt.Sprint(b.log) != "[begin]" {
		t.Fatal(res.Error, b.log)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
