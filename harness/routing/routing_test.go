// Package routing checks the registries that connect buses and timers with handlers,
// commands and transaction checkers.
package routing

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

var caseNo atomic.Int64

// ---- events ----

type Inner struct {
	A int
	B string
}

type BizA struct {
	T  string `json:"-"`
	N  int64
	S  string
	L  []string
	In *Inner
	M  map[string]int
}

func (e *BizA) GetType() ddd.EventType { return ddd.EventType(e.T) }
func (e *BizA) GetSender() string      { return "sender-" + e.S }

// BizB sees a part of BizA and a field BizA lacks.
type BizB struct {
	S     string
	Extra int
}

type Payload struct {
	N  int64    `json:"n,omitempty"`
	S  string   `json:"s,omitempty"`
	L  []string `json:"l,omitempty"`
	In *Inner   `json:"in,omitempty"`
	M  int      `json:"m,omitempty"`
}

func genPayload(t *rapid.T) Payload {
	p := Payload{N: rapid.Int64().Draw(t, "n"), S: rapid.String().Draw(t, "s")}
	if kit.Pct(t, 40, "list") {
		p.L = rapid.SliceOfN(rapid.StringN(0, 4, -1), 1, 3).Draw(t, "l")
	}
	if kit.Pct(t, 40, "inner") {
		p.In = &Inner{A: rapid.Int().Draw(t, "a"), B: rapid.String().Draw(t, "b")}
	}
	p.M = kit.N(t, 3, "m")
	return p
}

func (p Payload) event(typ string) *BizA {
	e := &BizA{T: typ, N: p.N, S: p.S, L: p.L, In: p.In}
	if p.M > 0 {
		e.M = map[string]int{"x": p.M, p.S: p.M + 1}
	}
	return e
}

// ---- stand-ins ----

type fakeBus struct {
	h  ddd.DomainEventHandler
	tx ddd.DomainEventTXChecker
}

func (b *fakeBus) Dispatch(ctx context.Context, evt ...*ddd.DomainEvent) error { return nil }
func (b *fakeBus) RegisterEventHandler(cb ddd.DomainEventHandler)              { b.h = cb }

type fakeTxBus struct{ fakeBus }

func (b *fakeTxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) { b.tx = cb }
func (b *fakeTxBus) DispatchBegin(ctx context.Context, evt ...*ddd.DomainEvent) (context.Context, error) {
	return ctx, nil
}
func (b *fakeTxBus) Commit(ctx context.Context) error   { return nil }
func (b *fakeTxBus) Rollback(ctx context.Context) error { return nil }

type fakeTimer struct {
	h    ddd.TimerHandler
	cron map[string]string
	n    int
	fail bool
}

func (b *fakeTimer) RegisterTimerHandler(cb ddd.TimerHandler) { b.h = cb }
func (b *fakeTimer) RunCron(key, cron string, data []byte) error {
	b.n++
	if b.fail {
		return errors.New("timer refused")
	}
	b.cron[key] = cron
	return nil
}
func (b *fakeTimer) RunOnce(key string, t time.Time, data []byte) error { return nil }
func (b *fakeTimer) Cancel(key string) error                            { return nil }

type countExec struct {
	mu                sync.Mutex
	begin, commit, rb int
}

func (e *countExec) Begin(ctx context.Context) (context.Context, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.begin++
	return ctx, nil
}
func (e *countExec) Commit(ctx context.Context) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.commit++
	return nil
}
func (e *countExec) RollBack(ctx context.Context) error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.rb++
	return nil
}
func (e *countExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return nil, ddd.ErrEntityNotRegister
}
func (e *countExec) Model2Entity(model ddd.IModel, entity ddd.IEntity) error { return nil }
func (e *countExec) Exec(ctx context.Context, a *ddd.Action) error           { return nil }

type noLock struct{}

func (noLock) Lock(ctx context.Context, key string) (interface{}, error) { return key, nil }
func (noLock) UnLock(ctx context.Context, k interface{}) error           { return nil }

// ---- C14 ----

// kinds of handlers
const (
	hBizA = iota
	hBizB
	hDomain
	hPtrErr    // returns a concrete pointer error type
	hMainFunc  // engine construct: MainFunc
	hRawFunc   // engine construct: func literal
	hMainCmd   // engine construct: ICommandMain
	hCmd       // engine construct: ICommand
	hDomainCmd // engine construct on *DomainEvent
	hKinds
)

type Reg struct {
	Type   int    `json:"t"`
	Kind   int    `json:"k"`
	Engine int    `json:"e,omitempty"`
	Fail   string `json:"fail,omitempty"` // "", error, break, once (fails on its first call only)
}

type Step struct {
	Reg     *Reg     `json:"reg,omitempty"`
	Cron    *CronReg `json:"cron,omitempty"`
	Deliver *Deliver `json:"deliver,omitempty"`
	Bad     *BadReg  `json:"bad,omitempty"`
}

// BadReg is an attempt to register something that is no handler.
type BadReg struct {
	Type   int `json:"t"`
	Form   int `json:"f"`
	Engine int `json:"e,omitempty"` // 0 and 1: through that engine; 2: in the registry; 3: a cron task on an engine without timer
}

// badConstructs cannot build a command from an event.
var badConstructs = []any{
	5, "handler", struct{}{}, &BizA{},
	func() *oldCmd { return nil },
	func(a, b *BizA) *oldCmd { return nil },
	func(a *BizA) {},
	func(a *BizA) (*oldCmd, error) { return nil, nil },
	func(a BizA) *oldCmd { return nil },
	func(a ...*BizA) *oldCmd { return nil },
	func(ctx context.Context, a *BizA) *oldCmd { return nil },
	func(a any) *oldCmd { return nil },
}

// badHandlers cannot be called with an event.
var badHandlers = []any{
	5, "handler", struct{}{}, &BizA{},
	func() error { return nil },
	func(a *BizA) error { return nil },
	func(a *BizA, ctx context.Context) error { return nil },
	func(ctx context.Context, a *BizA) {},
	func(ctx context.Context, a *BizA) bool { return true },
	func(ctx context.Context, a *BizA) (bool, error) { return true, nil },
	func(ctx context.Context, a, b *BizA) error { return nil },
	func(ctx context.Context, a BizA) error { return nil },
	func(ctx context.Context, a ...*BizA) error { return nil },
	func(ctx context.Context) error { return nil },
	func(ctx context.Context, a map[string]any) error { return nil },
}

// badCheckers cannot answer for an event.
var badCheckers = []any{
	5, "checker", struct{}{}, ddd.TXCommit,
	func() ddd.TXStatus { return ddd.TXCommit },
	func(a *BizA) {},
	func(a *BizA) string { return "commit" },
	func(a *BizA) bool { return true },
	func(a *BizA) (ddd.TXStatus, error) { return ddd.TXCommit, nil },
	func(a BizA) ddd.TXStatus { return ddd.TXCommit },
	func(a, b *BizA) ddd.TXStatus { return ddd.TXCommit },
	func(a ...*BizA) ddd.TXStatus { return ddd.TXCommit },
	func(ctx context.Context, a *BizA) ddd.TXStatus { return ddd.TXCommit },
	func(a *BizA) error { return nil },
}

func panics(f func()) (pan any) {
	defer func() { pan = recover() }()
	f()
	return nil
}

func (r *router) registerBad(b *BadReg) {
	typ := ddd.EventType(r.typ(b.Type))
	var what any
	var pan any
	if b.Engine == 3 {
		e := ddd.NewEngine(noLock{}, &countExec{}, ddd.WithEventBus(&fakeBus{}), ddd.WithLogger(logr.Discard()))
		pan = panics(func() {
			if b.Form%2 == 0 {
				e.RegisterCronTask(typ+".untimed", "* * * * *", func(key, cron string) {})
			} else {
				e.RegisterCronTaskOfCommand(typ+".untimed", "* * * * *", func(key, cron string) ddd.ICommand { return nil })
			}
		})
		if pan == nil {
			r.o.Failf("an engine without a timer accepted a cron task")
		}
		return
	}
	if b.Engine < 2 {
		what = badConstructs[b.Form%len(badConstructs)]
		pan = panics(func() { r.engs[b.Engine].RegisterEventHandler(typ, what) })
	} else {
		what = badHandlers[b.Form%len(badHandlers)]
		pan = panics(func() { ddd.RegisterEventHandler(typ, what) })
	}
	if pan == nil {
		r.o.Failf("a handler of type %T was accepted", what)
	}
}

type CronReg struct {
	Type   int    `json:"t"`
	Cmd    bool   `json:"cmd,omitempty"`
	Text   string `json:"text"`
	Refuse bool   `json:"refuse,omitempty"`
	Fail   bool   `json:"fail,omitempty"`
}

type Deliver struct {
	Type   int     `json:"t"`
	P      Payload `json:"p"`
	Engine int     `json:"e,omitempty"`
	Broken bool    `json:"broken,omitempty"`
	Timer  bool    `json:"timer,omitempty"`
	Text   string  `json:"text,omitempty"`
	Data   []byte  `json:"data,omitempty"`
	Times  int     `json:"times,omitempty"` // concurrent deliveries of the same shape
}

type RouteScenario struct {
	Steps []Step `json:"steps"`
}

type call struct {
	reg  int
	dump string
}

type ctxKey struct{}

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type handler struct {
	kind  int
	fail  string
	eng   int
	calls int
	cron  bool
}

type router struct {
	mu     sync.Mutex
	o      *kit.Outcome
	prefix string
	execs  [2]*countExec
	engs   [2]*ddd.Engine
	buses  [2]*fakeBus
	timers [2]*fakeTimer
	regs   []*handler
	byType map[int][]int
	calls  map[int][]call // by delivery
}

func (r *router) typ(i int) string { return fmt.Sprintf("%s%c", r.prefix, 'a'+i) }

func dumpA(e *BizA) string { b, _ := json.Marshal(e); return "A" + string(b) }
func dumpB(e *BizB) string { b, _ := json.Marshal(e); return "B" + string(b) }

// takeA and takeB are what a handler does with its argument: note it, then scribble over it.
// Whatever is delivered next must not be affected.
func takeA(e *BizA) string {
	d := dumpA(e)
	for i := range e.L {
		e.L[i] = "used"
	}
	for k := range e.M {
		e.M[k] = -7
	}
	if e.In != nil {
		e.In.B = "used"
	}
	*e = BizA{N: e.N + 1, S: "used", L: append(e.L, "used"), In: e.In, M: e.M}
	return d
}

func takeB(e *BizB) string {
	d := dumpB(e)
	*e = BizB{S: "used", Extra: 99}
	return d
}

func dumpD(e *ddd.DomainEvent) string {
	return fmt.Sprintf("D%s|%s|%s|%s|%s|%d", e.ID, e.Type, e.SendType, e.Sender, e.Payload, e.CreatedAt.UnixNano())
}
func dumpT(e *ddd.TimerEvent) string { return fmt.Sprintf("T%s|%s|%x", e.Key, e.Cron, e.Payload) }

func (r *router) record(ctx context.Context, reg int, dump string) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	d, _ := ctx.Value(ctxKey{}).(int)
	r.calls[d] = append(r.calls[d], call{reg, dump})
	h := r.regs[reg]
	h.calls++
	switch h.fail {
	case "error":
		return fmt.Errorf("handler %d failed", reg)
	case "break":
		return ddd.ErrBreak
	case "once":
		if h.calls == 1 {
			return fmt.Errorf("handler %d failed", reg)
		}
	}
	return nil
}

type mainCmd struct {
	r    *router
	reg  int
	dump string
}

func (c *mainCmd) Main(ctx context.Context, repo *ddd.Repository) error {
	return c.r.record(ctx, c.reg, c.dump)
}

type oldCmd struct {
	ddd.Command
	r    *router
	reg  int
	dump string
}

func (c *oldCmd) Act(ctx context.Context, container ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.r.record(ctx, c.reg, c.dump)
}

func (r *router) register(g *Reg) {
	id := len(r.regs)
	h := &handler{kind: g.Kind % hKinds, fail: g.Fail, eng: g.Engine % 2}
	if h.fail == "break" && h.kind < hMainFunc {
		h.fail = "" // only commands know break
	}
	r.regs = append(r.regs, h)
	t := g.Type
	r.byType[t] = append(r.byType[t], id)
	et := ddd.EventType(r.typ(t))
	e := r.engs[h.eng]
	switch h.kind {
	case hBizA:
		ddd.RegisterEventHandler(et, func(ctx context.Context, evt *BizA) error { return r.record(ctx, id, takeA(evt)) })
	case hBizB:
		ddd.RegisterEventHandler(et, func(ctx context.Context, evt *BizB) error { return r.record(ctx, id, takeB(evt)) })
	case hDomain:
		ddd.RegisterEventHandler(et, func(ctx context.Context, evt *ddd.DomainEvent) error { return r.record(ctx, id, dumpD(evt)) })
	case hPtrErr:
		ddd.RegisterEventHandler(et, func(ctx context.Context, evt *BizA) *ptrErr {
			if err := r.record(ctx, id, takeA(evt)); err != nil {
				return &ptrErr{err.Error()}
			}
			return nil
		})
	case hMainFunc:
		e.RegisterEventHandler(et, func(evt *BizA) ddd.MainFunc {
			return func(ctx context.Context, repo *ddd.Repository) error { return r.record(ctx, id, takeA(evt)) }
		})
	case hRawFunc:
		e.RegisterEventHandler(et, func(evt *BizB) func(ctx context.Context, repo *ddd.Repository) error {
			return func(ctx context.Context, repo *ddd.Repository) error { return r.record(ctx, id, takeB(evt)) }
		})
	case hMainCmd:
		e.RegisterEventHandler(et, func(evt *BizA) ddd.ICommandMain { return &mainCmd{r, id, takeA(evt)} })
	case hCmd:
		e.RegisterEventHandler(et, func(evt *BizA) ddd.ICommand { return &oldCmd{r: r, reg: id, dump: takeA(evt)} })
	case hDomainCmd:
		e.RegisterEventHandler(et, func(evt *ddd.DomainEvent) *mainCmd { return &mainCmd{r, id, dumpD(evt)} })
	}
}

func (r *router) registerCron(c *CronReg) {
	id := len(r.regs)
	taken := len(r.byType[c.Type]) > 0
	key := ddd.EventType(r.typ(c.Type))
	tm := r.timers[0]
	before := tm.n
	tm.fail = c.Refuse
	h := &handler{kind: hBizA, cron: true}
	if c.Cmd && c.Fail {
		h.fail = "error"
	}
	r.regs = append(r.regs, h)
	var pan any
	func() {
		defer func() { pan = recover() }()
		if c.Cmd {
			r.engs[0].RegisterCronTaskOfCommand(key, c.Text, func(key, cron string) ddd.ICommand {
				return &oldCmd{r: r, reg: id, dump: "C" + key + "|" + cron}
			})
		} else {
			r.engs[0].RegisterCronTask(key, c.Text, func(key, cron string) {
				r.mu.Lock()
				defer r.mu.Unlock()
				r.calls[0] = append(r.calls[0], call{id, "C" + key + "|" + cron})
				h.calls++
			})
			h.kind = hDomain // the context is not passed: recorded under delivery 0
		}
	}()
	tm.fail = false
	switch {
	case taken:
		if pan == nil {
			r.o.Failf("registering a cron task under a key that has a handler was accepted")
		}
		if tm.n != before {
			r.o.Failf("a refused cron task was set on the timer")
		}
	case c.Refuse:
		if pan == nil {
			r.o.Failf("a cron task the timer refuses was accepted silently")
		}
		r.byType[c.Type] = append(r.byType[c.Type], id) // it may stay registered; the key is not used further
		delete(r.byType, c.Type)
		r.byType[c.Type] = []int{-1}
	default:
		if pan != nil {
			r.o.Failf("registering a cron task panics: %v", pan)
			return
		}
		if tm.n != before+1 || tm.cron[string(key)] != c.Text {
			r.o.Failf("the cron task %s %q was set on the timer as %q (%d calls)", key, c.Text, tm.cron[string(key)], tm.n-before)
		}
		r.byType[c.Type] = append(r.byType[c.Type], id)
	}
}

var deliverySeq int

func (r *router) deliver(d *Deliver) {
	ids := r.byType[d.Type]
	if len(ids) == 1 && ids[0] == -1 {
		return
	}
	typ := r.typ(d.Type)
	times := d.Times
	once := false
	for _, id := range ids {
		if r.regs[id].fail == "once" || r.regs[id].cron {
			once = true
		}
	}
	if times < 1 || once {
		times = 1
	}
	base := deliverySeq + 1
	deliverySeq += times
	type result struct {
		err error
		evt *ddd.DomainEvent
		pan any
	}
	results := make([]result, times)
	for i := range results {
		p := d.P
		p.N += int64(i)
		results[i].evt = ddd.NewDomainEvent(p.event(typ), ddd.WithSendType(ddd.SendTypeFIFO))
		if d.Broken {
			results[i].evt.Payload = []byte(`{"N": "not a number`)
		}
	}
	r.mu.Lock()
	r.calls[0] = nil
	var before [2]countExec
	for i := range before {
		before[i].begin, before[i].commit, before[i].rb = r.execs[i].begin, r.execs[i].commit, r.execs[i].rb
	}
	callsBefore := map[int]int{}
	for _, id := range ids {
		callsBefore[id] = r.regs[id].calls
	}
	r.mu.Unlock()
	var wg sync.WaitGroup
	for i := range results {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { results[i].pan = recover() }()
			ctx := context.WithValue(context.Background(), ctxKey{}, base+i)
			if d.Timer {
				results[i].err = r.timers[d.Engine%2].h(ctx, typ, d.Text, d.Data)
			} else {
				results[i].err = r.buses[d.Engine%2].h(ctx, results[i].evt)
			}
		}(i)
	}
	wg.Wait()
	var wantBegin, wantCommit, wantRB [2]int
	for i, res := range results {
		if res.pan != nil {
			r.o.Failf("delivery panics: %v", res.pan)
			return
		}
		calls := r.calls[base+i]
		if times == 1 {
			// callbacks of plain cron tasks get no context
			calls = append(calls, nil...)
		}
		var want []call
		var wantErr string
		for _, id := range ids {
			h := r.regs[id]
			dump := ""
			broken := false
			switch {
			case h.cron:
				key, cron := typ, d.Text
				if !d.Timer {
					key, cron = "", "" // a payload that is not a timer event decodes to empty fields
					broken = d.Broken
				}
				dump = "C" + key + "|" + cron
			case h.kind == hDomain || h.kind == hDomainCmd:
				if d.Timer {
					dump = "D*"
				} else {
					dump = dumpD(res.evt)
				}
			case h.kind == hBizB || h.kind == hRawFunc:
				if d.Timer {
					dump = dumpB(&BizB{})
				} else {
					broken = d.Broken
					dump = dumpB(&BizB{S: cleanJSON(d.P.S)})
				}
			default:
				if d.Timer {
					dump = dumpA(&BizA{})
				} else {
					broken = d.Broken
					p := d.P
					p.N += int64(i)
					var back BizA
					b, _ := json.Marshal(p.event(typ))
					_ = json.Unmarshal(b, &back)
					dump = dumpA(&back)
				}
			}
			if broken {
				wantErr = "*"
				break
			}
			want = append(want, call{id, dump})
			fails := h.fail == "error" || h.fail == "once" && callsBefore[id] == 0
			isCmd := h.kind >= hMainFunc || h.cron && h.fail != "" || h.cron && h.kind != hDomain
			if isCmd {
				e := h.eng
				wantBegin[e]++
				if fails || h.fail == "break" {
					wantRB[e]++
				} else {
					wantCommit[e]++
				}
			}
			if fails {
				wantErr = fmt.Sprintf("handler %d failed", id)
				break
			}
		}
		// calls of plain cron tasks were recorded under 0, in order
		all := append([]call(nil), r.calls[0]...)
		got := append([]call(nil), calls...)
		if len(all) > 0 {
			got = mergeByWant(want, got, all)
		}
		if len(got) != len(want) {
			r.o.Failf("delivery of type %s called handlers %v, should call %v", typ, got, want)
			return
		}
		for k := range got {
			if got[k].reg != want[k].reg {
				r.o.Failf("delivery of type %s called handlers in the order %v, should be %v", typ, got, want)
				return
			}
			if want[k].dump != "D*" && got[k].dump != want[k].dump {
				r.o.Failf("handler %d received %q, sent was %q", got[k].reg, got[k].dump, want[k].dump)
				return
			}
			if want[k].dump == "D*" && !strings.HasPrefix(got[k].dump, "D") {
				r.o.Failf("handler %d received %q", got[k].reg, got[k].dump)
				return
			}
		}
		switch {
		case wantErr == "" && res.err != nil:
			r.o.Failf("delivery reports %v although no handler failed", res.err)
		case wantErr != "" && res.err == nil:
			r.o.Failf("delivery reports success although a handler failed (%s)", wantErr)
		case wantErr != "" && wantErr != "*" && !strings.Contains(res.err.Error(), wantErr):
			r.o.Failf("delivery reports %v, the failure is %s", res.err, wantErr)
		}
	}
	for i := range before {
		if g := r.execs[i].begin - before[i].begin; g != wantBegin[i] {
			r.o.Failf("engine %d ran %d commands, should be %d", i, g, wantBegin[i])
		}
		if g := r.execs[i].commit - before[i].commit; g != wantCommit[i] {
			r.o.Failf("engine %d committed %d commands, should be %d", i, g, wantCommit[i])
		}
		if g := r.execs[i].rb - before[i].rb; g != wantRB[i] {
			r.o.Failf("engine %d rolled back %d commands, should be %d", i, g, wantRB[i])
		}
	}
}

// cleanJSON is what JSON makes of a string (invalid UTF-8 is replaced).
func cleanJSON(s string) string {
	b, _ := json.Marshal(s)
	var r string
	_ = json.Unmarshal(b, &r)
	return r
}

// mergeByWant interleaves the calls recorded without context into those with one.
func mergeByWant(want, a, b []call) []call {
	var res []call
	for _, w := range want {
		if len(a) > 0 && a[0].reg == w.reg {
			res, a = append(res, a[0]), a[1:]
		} else if len(b) > 0 && b[0].reg == w.reg {
			res, b = append(res, b[0]), b[1:]
		}
	}
	return append(append(res, a...), b...)
}

func runRoute(t *testing.T, s RouteScenario) kit.Outcome {
	var o kit.Outcome
	r := &router{o: &o, prefix: fmt.Sprintf("t%d.", caseNo.Add(1)), byType: map[int][]int{}, calls: map[int][]call{}}
	for i := range r.engs {
		r.execs[i] = &countExec{}
		r.buses[i] = &fakeBus{}
		r.timers[i] = &fakeTimer{cron: map[string]string{}}
		r.engs[i] = ddd.NewEngine(noLock{}, r.execs[i], ddd.WithEventBus(r.buses[i]), ddd.WithTimer(r.timers[i]), ddd.WithLogger(logr.Discard()))
	}
	delivered, multi := 0, 0
	for _, st := range s.Steps {
		switch {
		case st.Reg != nil:
			if l := r.byType[st.Reg.Type]; len(l) == 1 && l[0] == -1 {
				continue
			}
			r.register(st.Reg)
			o.Class("register:%d", st.Reg.Kind%hKinds)
		case st.Bad != nil:
			r.registerBad(st.Bad)
			o.Class("refused")
		case st.Cron != nil:
			r.registerCron(st.Cron)
			o.Class("cron")
		case st.Deliver != nil:
			if len(r.byType[st.Deliver.Type]) > 0 {
				delivered++
			}
			if len(r.byType[st.Deliver.Type]) > 1 {
				multi++
			}
			r.deliver(st.Deliver)
		}
		if o.Fail != "" {
			return o
		}
	}
	o.Nontrivial = delivered > 0 && multi > 0
	return o
}

func genRoute(t *rapid.T) RouteScenario {
	return RouteScenario{Steps: kit.List(t, 2, 16, "steps", func(t *rapid.T) Step {
		if kit.Pct(t, 6, "bad") {
			return Step{Bad: &BadReg{Type: kit.N(t, 4, "type"), Form: kit.N(t, len(badConstructs)*len(badHandlers), "form"), Engine: kit.Pick(t, []int{0, 0, 1, 1, 2, 2, 2, 3}, "where")}}
		}
		switch k := kit.N(t, 20, "step"); {
		case k < 9:
			return Step{Reg: &Reg{Type: kit.N(t, 3, "type"), Kind: kit.N(t, hKinds, "kind"), Engine: kit.N(t, 2, "engine"),
				Fail: kit.Pick(t, []string{"", "", "", "", "", "error", "break", "once"}, "fail")}}
		case k < 11:
			return Step{Cron: &CronReg{Type: kit.N(t, 4, "type"), Cmd: kit.Pct(t, 50, "cmd"), Text: rapid.StringN(0, 8, -1).Draw(t, "text"), Refuse: kit.Pct(t, 10, "refuse"), Fail: kit.Pct(t, 30, "fail")}}
		}
		d := &Deliver{Type: kit.N(t, 4, "type"), P: genPayload(t), Engine: kit.N(t, 2, "engine"), Broken: kit.Pct(t, 10, "broken"), Times: kit.N(t, 4, "times")}
		if kit.Pct(t, 35, "timer") {
			d.Timer = true
			d.Text = cleanJSON(rapid.StringN(0, 8, -1).Draw(t, "cron"))
			d.Data = rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "data")
		}
		return Step{Deliver: d}
	})}
}

// ---- C15 ----

type (
	namedStatus ddd.TXStatus
	smallStatus int8
)

type CheckReg struct {
	Type   int  `json:"t"`
	Sig    int  `json:"sig"`
	Answer int  `json:"ans"`
	Biz    bool `json:"biz,omitempty"` // takes the business event, else the domain event
	Bad    int  `json:"bad,omitempty"` // something that is no checker (1 and up)
}

type CheckScenario struct {
	Regs   []CheckReg `json:"regs"`
	Asks   []Deliver  `json:"asks"`
	ViaReg bool       `json:"via,omitempty"` // the bus is registered by RegisterEventBus, not through an engine
	PerRun bool       `json:"perrun,omitempty"`
}

const nSigs = 12

func checkerOf(sig int, biz bool, f func(dump string) int) interface{} {
	var out reflect.Type
	switch sig % nSigs {
	case 0, 1:
		out = reflect.TypeOf(ddd.TXUnknown)
	case 2:
		out = reflect.TypeOf(int(0))
	case 3:
		out = reflect.TypeOf(int64(0))
	case 4:
		out = reflect.TypeOf(int32(0))
	case 5:
		out = reflect.TypeOf(uint8(0))
	case 6:
		out = reflect.TypeOf(uint64(0))
	case 7:
		out = reflect.TypeOf(namedStatus(0))
	case 8:
		out = reflect.TypeOf(smallStatus(0))
	case 9:
		out = reflect.TypeOf(float64(0))
	case 10:
		out = reflect.TypeOf(uint(0))
	case 11:
		out = reflect.TypeOf(int16(0))
	}
	in := reflect.TypeOf(&ddd.DomainEvent{})
	if biz {
		in = reflect.TypeOf(&BizA{})
	}
	ft := reflect.FuncOf([]reflect.Type{in}, []reflect.Type{out}, false)
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		var dump string
		switch x := args[0].Interface().(type) {
		case *BizA:
			dump = dumpA(x)
		case *ddd.DomainEvent:
			dump = dumpD(x)
		}
		return []reflect.Value{reflect.ValueOf(f(dump)).Convert(out)}
	}).Interface()
}

func runCheckers(t *testing.T, s CheckScenario) kit.Outcome {
	var o kit.Outcome
	prefix := fmt.Sprintf("c%d.", caseNo.Add(1))
	type reg struct {
		CheckReg
		calls []string
	}
	regs := map[int]*reg{}
	bus := &fakeTxBus{}
	eng := ddd.NewEngine(noLock{}, &countExec{}, ddd.WithLogger(logr.Discard()))
	switch {
	case s.ViaReg:
		ddd.RegisterEventBus(bus)
	case s.PerRun:
		eng.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error { return nil }, ddd.WithEventBus(bus))
	default:
		ddd.NewEngine(noLock{}, &countExec{}, ddd.WithEventBus(bus), ddd.WithLogger(logr.Discard()))
	}
	if bus.tx == nil {
		o.Failf("no transaction checker was registered on the bus")
		return o
	}
	for _, c := range s.Regs {
		if c.Bad > 0 {
			what := badCheckers[(c.Bad-1)%len(badCheckers)]
			if panics(func() {
				ddd.RegisterEventTXChecker(ddd.EventType(fmt.Sprintf("%s%d", prefix, c.Type)), what)
			}) == nil {
				o.Failf("a checker of type %T was accepted", what)
				return o
			}
			o.Class("refused")
			continue
		}
		g := &reg{CheckReg: c}
		var pan any
		func() {
			defer func() { pan = recover() }()
			ddd.RegisterEventTXChecker(ddd.EventType(fmt.Sprintf("%s%d", prefix, c.Type)), checkerOf(c.Sig, c.Biz, func(dump string) int {
				g.calls = append(g.calls, dump)
				return c.Answer
			}))
		}()
		if regs[c.Type] != nil {
			if pan == nil {
				o.Failf("a second checker for one event type was accepted silently")
				return o
			}
			continue
		}
		if pan != nil {
			o.Failf("registering a checker panics: %v", pan)
			return o
		}
		o.Class("sig:%d", c.Sig%nSigs)
		regs[c.Type] = g
	}
	for _, d := range s.Asks {
		evt := ddd.NewDomainEvent(d.P.event(fmt.Sprintf("%s%d", prefix, d.Type)), ddd.WithSendType(ddd.SendTypeTransaction))
		if d.Broken {
			evt.Payload = evt.Payload[:len(evt.Payload)-1]
		}
		before := map[int]int{}
		for k, g := range regs {
			before[k] = len(g.calls)
		}
		var got ddd.TXStatus
		var pan any
		func() {
			defer func() { pan = recover() }()
			got = bus.tx(evt)
		}()
		g := regs[d.Type]
		want := ddd.TXRollBack
		asked := g != nil && !(g.Biz && d.Broken)
		if asked {
			want = ddd.TXStatus(g.Answer)
		}
		if pan != nil {
			o.Failf("asking panics: %v", pan)
			return o
		}
		if got != want {
			o.Failf("asking about type %d gives %d, the checker says %d", d.Type, got, want)
			return o
		}
		for k, r := range regs {
			n := len(r.calls) - before[k]
			if asked && r == g {
				if n != 1 {
					o.Failf("the checker was asked %d times", n)
					return o
				}
				sent := dumpD(evt)
				if g.Biz {
					var back BizA
					_ = json.Unmarshal(evt.Payload, &back)
					sent = dumpA(&back)
				}
				if r.calls[len(r.calls)-1] != sent {
					o.Failf("the checker was asked about %q, not %q", r.calls[len(r.calls)-1], sent)
				}
				o.Nontrivial = true
			} else if n != 0 {
				o.Failf("the checker of type %d was asked about an event of type %d", k, d.Type)
			}
		}
	}
	return o
}

func init() {
	kit.Register(kit.Spec[RouteScenario]{ID: "C14", Quick: 20000, Thorough: 600000,
		Rule:        "some delivery met at least two registered handlers",
		Assumptions: []string{"bus, timer and executor are stand-ins that record calls and hand over the registered callbacks; registries and engine are the real code"},
		Gen:         genRoute, Run: runRoute})
	kit.Register(kit.Spec[CheckScenario]{ID: "C15", Quick: 20000, Thorough: 600000,
		Rule:        "a registered checker was asked about a decodable event",
		Assumptions: []string{"the bus is a stand-in that hands over the registered checker callback"},
		Gen: func(t *rapid.T) CheckScenario {
			return CheckScenario{ViaReg: kit.Pct(t, 30, "via"), PerRun: kit.Pct(t, 30, "perrun"),
				Regs: kit.List(t, 0, 5, "regs", func(t *rapid.T) CheckReg {
					c := CheckReg{Type: kit.N(t, 4, "type"), Sig: kit.N(t, nSigs, "sig"), Answer: kit.N(t, 3, "answer"), Biz: kit.Pct(t, 50, "biz")}
					if kit.Pct(t, 8, "bad") {
						c.Bad = kit.Range(t, 1, len(badCheckers), "badform")
					}
					if kit.Pct(t, 10, "odd") {
						c.Answer = kit.Range(t, 3, 100, "oddanswer")
					}
					return c
				}),
				Asks: kit.List(t, 1, 6, "asks", func(t *rapid.T) Deliver {
					return Deliver{Type: kit.N(t, 5, "type"), P: genPayload(t), Broken: kit.Pct(t, 15, "broken")}
				})}
		}, Run: runCheckers})
}
