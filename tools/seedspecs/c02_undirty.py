ID='C02-undirties-roots-only'; PROP='C02'
NEEDS='a part-way save of a changed child, followed by another change of the same command'
BREAKS='a part-way save takes the mark off the roots only, so changes of their children are written a second time at the end'
EDITS=[('engine.go', '\t_ = walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {\n\t\tentity.UnDirty()\n\t\treturn nil\n\t})', '\tfor _, root := range e.meta.roots {\n\t\troot.UnDirty()\n\t}')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"}, row{"leaf", "l1", "n1", "b"})
	eng := ddd.NewEngine(&lock{}, s)
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		n := &node{BaseEntity: ddd.NewBase("n1")}
		if err := repo.Get(ctx, n, &n.Subs); err != nil {
			return err
		}
		n.Subs[0].Name = "c"
		n.Subs[0].Dirty()
		return repo.Save(ctx)
	})
	k := 0
	for _, l := range s.log {
		if l == "update l1" {
			k++
		}
	}
	if res.Error != nil || k != 1 {
		t.Fatal(res.Error, s.log)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
