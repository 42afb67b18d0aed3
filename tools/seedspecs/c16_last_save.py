ID='C16-actions-of-last-save'; PROP='C16'
NEEDS='a command that saves part-way and again at the end'
BREAKS='the result lists the batches of the last save only'
EDITS=[('engine.go', '\tfor _, a := range actions {\n\t\tif err := e.executor.Exec(ctx, a); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n\te.result.Actions = append(e.result.Actions, actions...)\n\treturn nil', '\tdone := make([]*Action, 0, len(actions))\n\tfor _, a := range actions {\n\t\tif err := e.executor.Exec(ctx, a); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tdone = append(done, a)\n\t}\n\tif len(done) > 0 {\n\t\te.result.Actions = done\n\t}\n\treturn nil')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore()
	eng := ddd.NewEngine(&lock{}, s)
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		repo.Add(&node{Name: "a"})
		if err := repo.Save(ctx); err != nil {
			return err
		}
		repo.Add(&node{Name: "b"})
		return nil
	})
	if res.Error != nil || len(res.Actions) != 2 {
		t.Fatal(res.Error, len(res.Actions))
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
