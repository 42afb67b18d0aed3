ID='C12-stores-events'; PROP='C12'
NEEDS='a dry run with event storage configured that raises events'
BREAKS='the records of the events are stored although the run is dry'
EDITS=[('engine.go', '\t\tif err := e.exec(ctx, []*Action{action}); err != nil {\n\t\t\treturn ResultError(err)\n\t\t}', '\t\tif err := e.executor.Exec(ctx, action); err != nil {\n\t\t\treturn ResultError(err)\n\t\t}\n\t\te.result.Actions = append(e.result.Actions, action)')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"})
	eng := ddd.NewEngine(&lock{}, s, ddd.WithEventBus(&bus{}), ddd.WithDryRun, ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) {
		return &evRow{row{"ev", e.ID, "", ""}}, nil
	}))
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		n := &node{BaseEntity: ddd.NewBase("n1")}
		if err := repo.Get(ctx, n); err != nil {
			return err
		}
		n.AddEvent(&ev{1})
		return nil
	})
	if res.Error != nil || s.dump() != "node:n1<=a" {
		t.Fatal(res.Error, s.dump())
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
