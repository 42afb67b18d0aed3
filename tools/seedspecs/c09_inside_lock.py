ID='C09-callbacks-inside-lock'; PROP='C09'
NEEDS='a command with lock keys and an after-save callback'
BREAKS='the after-save callbacks run while the locks of the command are still held'
EDITS=[('engine.go', '\tif len(e.lockKeys) > 0 {\n\t\tdo = e.runOnLock(do, e.lockKeys...)\n\t}\n\n\tres := do(ctx)\n\tif res.Error == nil && len(e.options.PostSaveHooks) > 0 {\n\t\tfor _, h := range e.options.PostSaveHooks {\n\t\t\th(ctx, res)\n\t\t}\n\t}\n\treturn res\n', '\tsave := func(ctx context.Context) *Result {\n\t\tres := do(ctx)\n\t\tif res.Error == nil {\n\t\t\tfor _, h := range e.options.PostSaveHooks {\n\t\t\t\th(ctx, res)\n\t\t\t}\n\t\t}\n\t\treturn res\n\t}\n\tif len(e.lockKeys) == 0 {\n\t\treturn save(ctx)\n\t}\n\treturn e.runOnLock(save, e.lockKeys...)(ctx)\n')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	s, l := newStore(), &lock{}
	eng := ddd.NewEngine(l, s, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { l.log = append(l.log, "post") }))
	res := eng.NewStage().Lock("k").Main(func(ctx context.Context, repo *ddd.Repository) error { return nil }).Save(context.Background())
	if res.Error != nil || fmt.Sprint(l.log) != "[lock ddd_engine_k unlock ddd_engine_k post]" {
		t.Fatal(res.Error, l.log)
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
