ID='C11-no-cancel'; PROP='C11'
NEEDS='a run with transactional and ordinary events in which dispatching the ordinary ones fails'
BREAKS='the announced transactional events are not cancelled when dispatching the ordinary events fails'
EDITS=[('engine.go','''			e.eventCtx, err = txEventBus.DispatchBegin(ctx, txEvents...)
			if err != nil {
				return err
			}
		}
''','''			eventCtx, err := txEventBus.DispatchBegin(ctx, txEvents...)
			if err != nil {
				return err
			}
			defer func() {
				if res == nil {
					e.eventCtx = eventCtx
				}
			}()
		}
'''),('engine.go','dispatchEvents(ctx context.Context, events []*DomainEvent) (err error) {','dispatchEvents(ctx context.Context, events []*DomainEvent) (res error) {'),
('engine.go','''			if err = txEventBus.Dispatch(ctx, normalEvents...); err != nil {
				return err
			}
		}
		return
''','''			if err := txEventBus.Dispatch(ctx, normalEvents...); err != nil {
				return err
			}
		}
		return nil
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

func TestZZ(t *testing.T) {
	b := &txBus{}
	b.fail = errors.New("down")
	eng := ddd.NewEngine(&lock{}, newStore(), ddd.WithEventBus(b))
	n := &node{Name: "x"}
	n.AddEvent(&ev{1}, ddd.WithSendType(ddd.SendTypeTransaction))
	n.AddEvent(&ev{2})
	res := eng.Create(context.Background(), n)
	if res.Error == nil || fmt.Sprint(b.log) != "[begin dispatch rollback]" {
		t.Fatal(res.Error, b.log)
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
