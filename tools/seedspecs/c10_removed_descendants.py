ID='C10-removed-descendants'; PROP='C10'
NEEDS='an event raised by an entity below a removed one'
BREAKS='collectEvents only looks at the removed entities themselves, so events raised by entities beneath them are never dispatched'
EDITS=[('engine.go','''	for _, del := range e.meta.GetDeleted() {
		_ = walk(del, nil, func(entity, parent IEntity, children map[string][]IEntity) (err error) {
			for _, evt := range entity.GetEvents() {
				eventMap[evt.ID] = evt
			}
			return
		})
	}''','''	for _, del := range e.meta.GetDeleted() {
		for _, evt := range del.GetEvents() {
			eventMap[evt.ID] = evt
		}
	}''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"}, row{"leaf", "l1", "n1", "b"})
	b := &bus{}
	eng := ddd.NewEngine(&lock{}, s, ddd.WithEventBus(b))
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		n := &node{BaseEntity: ddd.NewBase("n1")}
		if err := repo.Get(ctx, n, &n.Subs); err != nil {
			return err
		}
		n.Subs[0].AddEvent(&ev{7})
		repo.Remove(n)
		return nil
	})
	if res.Error != nil || len(b.got) != 1 {
		t.Fatal(res.Error, b.got)
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
