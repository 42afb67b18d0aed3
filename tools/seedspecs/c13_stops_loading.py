ID='C13-stops-at-missing-child'; PROP='C13'
NEEDS='a load that asks for a single child which is missing, followed by other places'
BREAKS='when a single child is missing, the places asked for after it are not filled'
EDITS=[('engine.go', '\t\t\t\tif errors.Is(err, ErrEntityNotFound) {\n\t\t\t\t\titemVal.Elem().SetZero()\n\t\t\t\t} else {\n\t\t\t\t\treturn err\n\t\t\t\t}', '\t\t\t\tif errors.Is(err, ErrEntityNotFound) {\n\t\t\t\t\titemVal.Elem().SetZero()\n\t\t\t\t\terr = nil\n\t\t\t\t}\n\t\t\t\treturn err')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"}, row{"leaf", "l1", "n1", "b"}, row{"twig", "t1", "n1", "b"})
	eng := ddd.NewEngine(&lock{}, s)
	n := &node{BaseEntity: ddd.NewBase("n2")}
	var tw *twig
	s.rows["n2"] = row{"node", "n2", "", "x"}
	s.rows["l2"] = row{"leaf", "l2", "n2", "y"}
	var subs []*leaf
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		return repo.Get(ctx, n, &tw, &subs)
	})
	if res.Error != nil || tw != nil || len(subs) != 1 {
		t.Fatal(res.Error, tw, subs)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
