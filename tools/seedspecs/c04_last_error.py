ID='C04-keeps-last-error'; PROP='C04'
NEEDS='an ID generator that fails for an entity which is not the last new one of the save'
BREAKS='a failure of the ID generator is forgotten if a later call succeeds, and an entity is stored without an ID'
EDITS=[('engine.go', '\tfor _, item := range changes {\n\t\tif item.changeType == newChildren {\n\t\t\tfor _, child := range item.children {\n\t\t\t\tif child.GetID() == "" {\n\t\t\t\t\tid, err := e.idGenerator.NewID()\n\t\t\t\t\tif err != nil {\n\t\t\t\t\t\treturn err\n\t\t\t\t\t}\n\t\t\t\t\tchild.SetID(id)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\treturn nil', '\tvar err error\n\tfor _, item := range changes {\n\t\tif item.changeType != newChildren {\n\t\t\tcontinue\n\t\t}\n\t\tfor _, child := range item.children {\n\t\t\tif child.GetID() == "" {\n\t\t\t\tvar id string\n\t\t\t\tif id, err = e.idGenerator.NewID(); err == nil {\n\t\t\t\t\tchild.SetID(id)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n\treturn err')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type gen struct{ n int }

func (g *gen) NewID() (string, error) {
	g.n++
	if g.n == 1 {
		return "", errors.New("no ID")
	}
	return fmt.Sprint("id", g.n), nil
}

func TestZZ(t *testing.T) {
	s := newStore()
	eng := ddd.NewEngine(&lock{}, s, ddd.WithIDGenerator(&gen{}))
	res := eng.Create(context.Background(), &node{Name: "a"}, &node{Name: "b"})
	if res.Error == nil || s.dump() != "" {
		t.Fatal(res.Error, s.dump())
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
