ID='C03-skips-below-moved'; PROP='C03'
NEEDS='an entity moved to another parent with a new, changed or removed child of its own'
BREAKS='the sub-tree of a moved entity is not looked at, so insertions, edits and deletions below it are lost'
EDITS=[('snapshot.go', '\t\t\tfor _, item := range created {\n\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t}\n\t\t}\n', '\t\t\tfor _, item := range created {\n\t\t\t\tif pool[item] == nil {\n\t\t\t\t\tres = append(res, entityDiff(item, pool)...)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"}, row{"node", "n2", "", "a"}, row{"leaf", "l1", "n1", "b"})
	eng := ddd.NewEngine(&lock{}, s)
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		a, b := &node{BaseEntity: ddd.NewBase("n1")}, &node{BaseEntity: ddd.NewBase("n2")}
		if err := repo.Get(ctx, a, &a.Subs); err != nil {
			return err
		}
		if err := repo.Get(ctx, b); err != nil {
			return err
		}
		l := a.Subs[0]
		a.Subs, b.Subs = nil, []*leaf{l}
		l.Subs = []*twig{{BaseEntity: ddd.NewBase("t1"), Name: "new"}}
		return nil
	})
	if res.Error != nil || s.dump() != "leaf:l1<n2=b node:n1<=a node:n2<=a twig:t1<l1=new" {
		t.Fatal(res.Error, s.dump())
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
