ID='C06-after-update-if-marked'; PROP='C06'
NEEDS='an entity that is updated because it moved, without being marked as changed, and has an after-update hook'
BREAKS='the after-update hook only runs for entities marked as changed, not for those updated because they moved'
EDITS=[('engine.go', '\t} else if ct == dirtyChildren && !isBefore {\n\t\tif saver, ok := entity.(IAfterUpdate); ok {', '\t} else if ct == dirtyChildren && !isBefore {\n\t\tif saver, ok := entity.(IAfterUpdate); ok && entity.IsDirty() {')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type hooked struct {
	ddd.BaseEntity
	calls []string
}

func (h *hooked) BeforeUpdate(context.Context) error { h.calls = append(h.calls, "before"); return nil }
func (h *hooked) AfterUpdate(context.Context) error  { h.calls = append(h.calls, "after"); return nil }

type holder struct {
	ddd.BaseEntity
	Subs []*hooked
}

type hstore struct{ *store }

func (s hstore) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	switch e.(type) {
	case *hooked:
		return &leafRow{row{"leaf", e.GetID(), parent.GetID(), ""}}, nil
	case *holder:
		return &row{"node", e.GetID(), "", ""}, nil
	}
	return nil, ddd.ErrEntityNotRegister
}

func (s hstore) Model2Entity(m ddd.IModel, e ddd.IEntity) error { return nil }

func TestZZ(t *testing.T) {
	s := hstore{newStore(row{"node", "n1", "", ""}, row{"node", "n2", "", ""})}
	eng := ddd.NewEngine(&lock{}, s)
	h := &hooked{BaseEntity: ddd.NewBase("h1")}
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		a, b := &holder{BaseEntity: ddd.NewBase("n1")}, &holder{BaseEntity: ddd.NewBase("n2")}
		if err := repo.Get(ctx, a); err != nil {
			return err
		}
		if err := repo.Get(ctx, b); err != nil {
			return err
		}
		a.Subs = []*hooked{h}
		if err := repo.Save(ctx); err != nil {
			return err
		}
		a.Subs, b.Subs = nil, a.Subs
		return nil
	})
	if res.Error != nil || fmt.Sprint(h.calls) != "[before after]" {
		t.Fatal(res.Error, h.calls)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
