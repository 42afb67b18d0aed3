ID='C08-leaks-locks'; PROP='C08'
NEEDS='a command with several keys of which a later one is held'
BREAKS='the keys acquired before the one that could not be acquired are never released'
EDITS=[('engine.go','''			if err != nil {
				if lockErr != ErrEntityLocked {
					lockErr = fmt.Errorf("acquire lock failed: %w", err)
				}
				break
			}
''','''			if err != nil {
				return ResultErrors(fmt.Errorf("acquire lock failed: %w", err))
			}
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	l := &lock{}
	eng := ddd.NewEngine(l, newStore())
	res := eng.NewStage().Lock("a", "busy").Main(func(ctx context.Context, repo *ddd.Repository) error { return nil }).Save(context.Background())
	if res.Error == nil || fmt.Sprint(l.log) != "[lock ddd_engine_a lock ddd_engine_busy unlock ddd_engine_a]" {
		t.Fatal(res.Error, l.log)
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
