ID='C19-handles-concurrently'; PROP='C19'
NEEDS='events that arrive while an earlier one is still being handled'
BREAKS='events are handled at the same time and out of order'
EDITS=[('eventbus/mem/eventbus.go','''				_ = e.cb(ctx, evt)
''','''				go func(evt *dddfirework.DomainEvent) { _ = e.cb(ctx, evt) }(evt)
''')]
DEMO='''package mem

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/bytedance/dddfirework"
)

func TestZZ(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := NewEventBus(10)
	var mu sync.Mutex
	var got string
	b.RegisterEventHandler(func(ctx context.Context, e *dddfirework.DomainEvent) error {
		if e.ID == "a" {
			time.Sleep(100 * time.Millisecond)
		}
		mu.Lock()
		got += e.ID
		mu.Unlock()
		return nil
	})
	b.Start(ctx)
	if err := b.Dispatch(ctx, &dddfirework.DomainEvent{ID: "a"}, &dddfirework.DomainEvent{ID: "b"}); err != nil {
		t.Fatal(err)
	}
	time.Sleep(400 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if got != "ab" {
		t.Fatal(got)
	}
}
'''
PKG='eventbus/mem'
