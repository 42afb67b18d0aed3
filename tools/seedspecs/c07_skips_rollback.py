ID='C07-skips-rollback'; PROP='C07'
NEEDS='a save that fails at its second batch, with nothing saved before'
BREAKS='a transaction without recorded actions is not rolled back, but a save that failed part-way has executed batches it did not record'
EDITS=[('engine.go','''		if result.Error != nil || result.Break {
			if err := e.executor.RollBack(ctx); err != nil {
				e.logger.Error(err, "rollback failed", "err", err)
			}
''','''		if result.Error != nil || result.Break {
			if len(e.result.Actions) > 0 || result.Break {
				if err := e.executor.RollBack(ctx); err != nil {
					e.logger.Error(err, "rollback failed", "err", err)
				}
			}
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore()
	s.fail = func(a *ddd.Action) error {
		if _, ok := a.Models[0].(*leafRow); ok {
			return errors.New("no")
		}
		return nil
	}
	eng := ddd.NewEngine(&lock{}, s)
	res := eng.Create(context.Background(), &node{Name: "x", Subs: []*leaf{{Name: "y"}}})
	if res.Error == nil || s.dump() != "" || s.inTx {
		t.Fatal(res.Error, s.dump(), s.log)
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
