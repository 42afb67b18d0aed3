ID='C01-shared-snapshot'; PROP='C01'
NEEDS='a command of the Build/Act kind that builds two roots and removes the first'
BREAKS='the snapshot shares the child lists with the live container, so removing the first of two roots shifts the snapshot too and the root is never deleted'
EDITS=[('engine.go','''		v2 := make([]IEntity, len(v))
		copy(v2, v)
		snapshot[k] = v2
''','''		snapshot[k] = v
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type cmd struct{ ddd.Command }

func (c *cmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	n1, n2 := &node{BaseEntity: ddd.NewBase("n1")}, &node{BaseEntity: ddd.NewBase("n2")}
	if err := b.Build(ctx, n1); err != nil {
		return nil, err
	}
	return []ddd.IEntity{n1, n2}, b.Build(ctx, n2)
}
func (c *cmd) Act(ctx context.Context, ct ddd.RootContainer, roots ...ddd.IEntity) error {
	ct.Remove(roots[0])
	return nil
}

func TestZZ(t *testing.T) {
	s := newStore(row{"node", "n1", "", "a"}, row{"node", "n2", "", "a"})
	eng := ddd.NewEngine(&lock{}, s)
	res := eng.Run(context.Background(), &cmd{})
	if res.Error != nil || s.dump() != "node:n2<=a" {
		t.Fatal(res.Error, s.dump())
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
