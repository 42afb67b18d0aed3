ID='C33-run-timer-deaf'; PROP='C33'
NEEDS='a timer given as an option of a run instead of the engine'
BREAKS='a timer given to a run is used by it but never told whom to call, so what it is set to do never happens'
EDITS=[('engine.go', '\ttimer := e.options.Timer\n\ttimer.RegisterTimerHandler(onTimer)\n\te.locker', '\ttimer := e.options.Timer\n\tif e.timer == nil {\n\t\ttimer.RegisterTimerHandler(onTimer)\n\t}\n\te.locker')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type tm struct{ cb ddd.TimerHandler }

func (t *tm) RegisterTimerHandler(cb ddd.TimerHandler)                     { t.cb = cb }
func (t *tm) RunCron(key, cron string, data []byte) error                  { return nil }
func (t *tm) RunOnce(key string, at time.Time, data []byte) error          { return nil }
func (t *tm) Cancel(key string) error                                      { return nil }

func TestZZ(t *testing.T) {
	x := &tm{}
	res := ddd.NewEngine(&lock{}, newStore()).Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error { return nil }, ddd.WithTimer(x))
	if res.Error != nil || x.cb == nil {
		t.Fatal(res.Error, "the timer has no handler")
	}
}
'''
UTIL=['/verif/tools/seedspecs/util_test.go']
