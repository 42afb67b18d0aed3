// Package membus checks the in-memory event bus (C19).
package membus

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/eventbus/mem"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

type Call struct {
	Delay  int `json:"d,omitempty"` // before the call, ms
	Events int `json:"n"`
}

type Scenario struct {
	Capacity int      `json:"cap"`
	Procs    [][]Call `json:"procs"`            // one goroutine each
	Starts   []int    `json:"starts"`           // times of the calls of Start
	Work     []int    `json:"work,omitempty"`   // handling takes Work[i%len] ms
	Fail     []int    `json:"fail,omitempty"`   // handling i fails: 0 no, 1 error
	Cancel   int      `json:"cancel,omitempty"` // the context ends this long after the last dispatch call returned
	After    []Call   `json:"after,omitempty"`  // dispatched after that, as far as the buffer has room
	Nested   int      `json:"nested,omitempty"` // the handling of every Nested-th event dispatches one more from a new goroutine
}

type item struct {
	proc, call, idx int
	begin, end      int64 // of its dispatch call
	evt             *ddd.DomainEvent
}

func run(t *testing.T, s Scenario) (o kit.Outcome) {
	defer func() {
		if p := recover(); p != nil {
			if msg := fmt.Sprint(p); strings.Contains(msg, "deadlock") {
				if o.Fail == "" {
					o.Fail = "goroutines are left behind after the context was cancelled and everything was dispatched: " + msg
				}
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		var clock int64
		tick := func() int64 { return atomic.AddInt64(&clock, 1) }
		var mu sync.Mutex
		all := map[*ddd.DomainEvent]*item{}
		var handled []*ddd.DomainEvent
		stamps := map[*ddd.DomainEvent]int64{}
		var running, cancelled, extra, quiet int32
		type ck struct{}
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ck{}, "mine"))
		defer cancel()
		bus := mem.NewEventBus(s.Capacity)
		fail := func(format string, a ...any) {
			mu.Lock()
			o.Failf(format, a...)
			mu.Unlock()
		}
		newItem := func(p, c, i int) *ddd.DomainEvent {
			e := &ddd.DomainEvent{ID: fmt.Sprintf("%d.%d.%d", p, c, i), Type: "t", Payload: []byte{byte(i)}}
			mu.Lock()
			all[e] = &item{proc: p, call: c, idx: i, evt: e}
			mu.Unlock()
			return e
		}
		dispatch := func(p, c, n int) {
			evs := make([]*ddd.DomainEvent, n)
			for i := range evs {
				evs[i] = newItem(p, c, i)
			}
			b := tick()
			mu.Lock()
			for _, e := range evs {
				all[e].begin = b
			}
			mu.Unlock()
			if err := bus.Dispatch(context.Background(), evs...); err != nil {
				fail("dispatch fails: %v", err)
			}
			x := tick()
			mu.Lock()
			for _, e := range evs {
				all[e].end = x
			}
			mu.Unlock()
		}
		var nested sync.WaitGroup
		bus.RegisterEventHandler(func(hctx context.Context, evt *ddd.DomainEvent) error {
			if atomic.AddInt32(&running, 1) != 1 {
				fail("two events are handled at the same time")
			}
			defer atomic.AddInt32(&running, -1)
			mu.Lock()
			n := len(handled)
			handled = append(handled, evt)
			stamps[evt] = atomic.AddInt64(&clock, 1)
			_, mine := all[evt]
			mu.Unlock()
			if !mine {
				fail("the handler got an event nobody dispatched: %+v", evt)
			}
			if atomic.LoadInt32(&quiet) == 1 {
				fail("an event is handled although the context ended long before")
			}
			if hctx.Value(ck{}) != "mine" {
				fail("the handler's context is not the one the bus was started with")
			}
			more := false
			mu.Lock()
			if s.Nested > 0 && n%s.Nested == 0 && n < 12 && cancelled == 0 {
				more = true
				nested.Add(1)
			}
			mu.Unlock()
			if more {
				go func() {
					defer nested.Done()
					dispatch(1000+n, 0, 1)
				}()
				atomic.AddInt32(&extra, 1)
			}
			if len(s.Work) > 0 {
				time.Sleep(time.Duration(s.Work[n%len(s.Work)]) * time.Millisecond)
			}
			if len(s.Fail) > 0 && s.Fail[n%len(s.Fail)] == 1 {
				return fmt.Errorf("handler error")
			}
			return nil
		})
		for _, at := range s.Starts {
			go func() {
				time.Sleep(time.Duration(at) * time.Millisecond)
				bus.Start(ctx)
			}()
		}
		var wg sync.WaitGroup
		for p, calls := range s.Procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for c, call := range calls {
					time.Sleep(time.Duration(call.Delay) * time.Millisecond)
					dispatch(p, c, call.Events)
				}
			}()
		}
		wg.Wait()
		early := s.Cancel > 0
		if early {
			time.Sleep(time.Duration(s.Cancel) * time.Millisecond)
		} else {
			time.Sleep(time.Hour)
		}
		mu.Lock()
		cancelled = 1
		mu.Unlock()
		nested.Wait()
		mu.Lock()
		atCancel := len(handled)
		mu.Unlock()
		cancel()
		time.Sleep(time.Hour)
		atomic.StoreInt32(&quiet, 1)
		mu.Lock()
		got := append([]*ddd.DomainEvent(nil), handled...)
		total := len(all)
		mu.Unlock()
		room := s.Capacity - (total - len(got))
		for c, call := range s.After {
			time.Sleep(time.Duration(call.Delay) * time.Millisecond)
			n := call.Events
			if n > room {
				n = room
			}
			if n <= 0 {
				continue
			}
			room -= n
			dispatch(-1, c, n)
		}
		time.Sleep(time.Hour)
		mu.Lock()
		defer mu.Unlock()
		if len(handled) != len(got) {
			o.Failf("%d events are handled after the context ended", len(handled)-len(got))
		}
		// exactly once
		times := map[*ddd.DomainEvent]int{}
		for _, e := range got {
			times[e]++
			if times[e] > 1 {
				o.Failf("event %s is handled twice", e.ID)
			}
		}
		if !early && len(got) != total {
			o.Failf("%d of %d dispatched events are handled", len(got), total)
		}
		// in order: of two events where one's dispatch call ended before the other's began, or of one call
		for i := range got {
			for j := i + 1; j < len(got); j++ {
				a, b := all[got[i]], all[got[j]]
				if b.end != 0 && b.end < a.begin {
					o.Failf("event %s, dispatched before %s, is handled after it", b.evt.ID, a.evt.ID)
				}
				if a.proc == b.proc && (a.call > b.call || a.call == b.call && a.idx > b.idx) {
					o.Failf("events %s and %s are handled in the wrong order", b.evt.ID, a.evt.ID)
				}
			}
		}
		// nothing is skipped: what is left was dispatched after what was handled
		for e, it := range all {
			if times[e] > 0 || it.proc == -1 {
				continue
			}
			for _, g := range got {
				h := all[g]
				if it.end != 0 && it.end < h.begin || it.proc == h.proc && (it.call < h.call || it.call == h.call && it.idx < h.idx) {
					o.Failf("event %s is skipped: %s, dispatched later, is handled", e.ID, h.evt.ID)
				}
			}
		}
		if early && atCancel < total {
			o.Class("cancelled-with-events-pending")
		}
		if len(s.Starts) > 1 {
			o.Class("started-repeatedly")
		}
		if extra > 0 {
			o.Class("dispatching-handler")
		}
		o.Class("capacity-%v", s.Capacity > 0)
		o.Nontrivial = len(got) > 1 && len(s.Procs) > 1
	})
	runtime.KeepAlive(s)
	return o
}

func gen(t *rapid.T) Scenario {
	call := func(t *rapid.T) Call {
		return Call{Delay: kit.Pick(t, []int{0, 0, 1, 2, 5, 11}, "delay"), Events: kit.N(t, 4, "events")}
	}
	s := Scenario{
		Capacity: kit.Pick(t, []int{0, 1, 2, 3, 8, 64}, "cap"),
		Procs: kit.List(t, 1, 5, "procs", func(t *rapid.T) []Call {
			return kit.List(t, 1, 5, "calls", call)
		}),
		Starts: kit.List(t, 1, 4, "starts", func(t *rapid.T) int { return kit.Pick(t, []int{0, 0, 1, 3, 9, 30}, "start") }),
		Work:   kit.List(t, 0, 3, "work", func(t *rapid.T) int { return kit.Pick(t, []int{0, 1, 2, 7}, "ms") }),
		Fail:   kit.List(t, 0, 3, "fail", func(t *rapid.T) int { return kit.N(t, 2, "f") }),
	}
	if kit.Pct(t, 50, "early") {
		s.Cancel = kit.Pick(t, []int{1, 2, 4, 10, 40}, "cancel")
		s.After = kit.List(t, 0, 3, "after", call)
	}
	if kit.Pct(t, 25, "nest") {
		s.Nested = kit.Range(t, 1, 4, "nested")
	}
	return s
}

func init() {
	kit.Register(kit.Spec[Scenario]{ID: "C19", Quick: 40000, Thorough: 400000, HangLimit: 60 * time.Second,
		Rule:        "several goroutines dispatched and more than one event was handled",
		Assumptions: []string{"time is simulated (testing/synctest); goroutines run in parallel", "the handler returns, and a handler dispatching more does so from a goroutine of its own"},
		Gen:         gen, Run: run})
}
