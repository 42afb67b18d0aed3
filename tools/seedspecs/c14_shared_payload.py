ID='C14-shared-payload'; PROP='C14'
NEEDS='two handlers for one event type taking the same payload type, the first of which changes its argument'
BREAKS='the decoded payload is shared by all handlers of a delivery, so a later handler sees what an earlier one did to it'
EDITS=[('event.go','''	for _, h := range handlers {
		var bizEvt reflect.Value
		if h.eventType == domainEventType {
			bizEvt = reflect.ValueOf(evt)
		} else {
			bizEvt = reflect.New(h.eventType)
''','''	decoded := map[reflect.Type]reflect.Value{}
	for _, h := range handlers {
		var bizEvt reflect.Value
		if h.eventType == domainEventType {
			bizEvt = reflect.ValueOf(evt)
		} else if v, ok := decoded[h.eventType]; ok {
			bizEvt = v
		} else {
			bizEvt = reflect.New(h.eventType)
			decoded[h.eventType] = bizEvt
''')]
DEMO='''package dddfirework_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	ddd "github.com/bytedance/dddfirework"
)

var _ = errors.New
var _ = fmt.Sprint
var _ = context.Background

type directBus struct {
	bus
	h ddd.DomainEventHandler
}

func (b *directBus) RegisterEventHandler(h ddd.DomainEventHandler) { b.h = h }

func TestZZ(t *testing.T) {
	b := &directBus{}
	ddd.RegisterEventBus(b)
	got := []int{}
	for i := 0; i < 2; i++ {
		ddd.RegisterEventHandler("zz_demo", func(ctx context.Context, e *ev) error {
			got = append(got, e.N)
			e.N++
			return nil
		})
	}
	err := b.h(context.Background(), ddd.NewDomainEvent(&ev{5}))
	if err != nil || fmt.Sprint(got) != "[5 5]" {
		t.Fatal(err, got)
	}
}
'''

UTIL=['/verif/tools/seedspecs/util_test.go']
