ID='C05-before-moves'; PROP='C05'
NEEDS='recursive deletion, and an entity with children that moves to another parent'
BREAKS='everything beneath the moved entity is deleted although it is still there'
EDITS=[('engine.go','''	// 处理实体移动的场景
	changed, err := handleEntityMove(changed)
	if err != nil {
		return nil, err
	}
	// 处理递归删除子实体
	if e.options.RecursiveDelete {
		changed = recursiveDelete(changed, e.snapshot)
	}
	return changed, nil
''','''	// 处理递归删除子实体
	if e.options.RecursiveDelete {
		changed = recursiveDelete(changed, e.snapshot)
	}
	// 处理实体移动的场景
	return handleEntityMove(changed)
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

func TestZZ(t *testing.T) {
	s := newStore()
	eng := ddd.NewEngine(&lock{}, s, ddd.WithRecursiveDelete)
	res := eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		l := &leaf{BaseEntity: ddd.NewBase("l1"), Name: "b", Subs: []*twig{{BaseEntity: ddd.NewBase("t1"), Name: "c"}}}
		a, b := &node{BaseEntity: ddd.NewBase("n1"), Name: "a", Subs: []*leaf{l}}, &node{BaseEntity: ddd.NewBase("n2"), Name: "a"}
		repo.Add(a)
		repo.Add(b)
		if err := repo.Save(ctx); err != nil {
			return err
		}
		a.Subs, b.Subs = nil, a.Subs
		return nil
	})
	if res.Error != nil || s.dump() != "leaf:l1<n2=b node:n1<=a node:n2<=a twig:t1<l1=c" {
		t.Fatal(res.Error, s.dump())
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
