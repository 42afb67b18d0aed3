package engine

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// C33: options of an engine apply to all its runs, options of a run to that run only.

type optPick struct {
	K string `json:"k"`
	V int    `json:"v"`
}

type optRun struct {
	Form    int       `json:"form"`
	Opts    []optPick `json:"opts,omitempty"`
	Split   int       `json:"split,omitempty"` // options given in two steps
	Keys    int       `json:"keys,omitempty"`
	BadLock bool      `json:"badlock,omitempty"` // releasing fails
	Fail    bool      `json:"fail,omitempty"`
	Nested  *optRun   `json:"nested,omitempty"` // a run of the same engine inside this one
}

type optScenario struct {
	Engine []optPick `json:"engine"`
	Runs   []optRun  `json:"runs"`
}

var optKinds = []string{"lock", "exec", "bus", "timer", "id", "log", "tx", "rec", "dry", "persist", "post"}

const nComp = 3

type optWorld struct {
	sc      *optScenario
	calls   []string // of the run in progress
	stack   [][]string
	bad     bool
	buses   [nComp]*optBus
	timers  [nComp]*optTimer
	o       *kit.Outcome
	nested  int
	engine  *ddd.Engine
	engOpts []optPick
}

func (w *optWorld) note(f string, a ...any) { w.calls = append(w.calls, fmt.Sprintf(f, a...)) }

type optLock struct {
	w *optWorld
	i int
}

func (l *optLock) Lock(ctx context.Context, key string) (interface{}, error) {
	l.w.note("lock%d lock", l.i)
	return fmt.Sprintf("token%d", l.i), nil
}

func (l *optLock) UnLock(ctx context.Context, t interface{}) error {
	l.w.note("lock%d unlock", l.i)
	if t != fmt.Sprintf("token%d", l.i) {
		l.w.o.Failf("lock %d is asked to release %v", l.i, t)
	}
	if l.w.bad {
		return errors.New("cannot release")
	}
	return nil
}

type optExec struct {
	w *optWorld
	i int
}

func (e *optExec) Begin(ctx context.Context) (context.Context, error) {
	e.w.note("exec%d begin", e.i)
	return ctx, nil
}
func (e *optExec) Commit(ctx context.Context) error { e.w.note("exec%d commit", e.i); return nil }
func (e *optExec) RollBack(ctx context.Context) error {
	e.w.note("exec%d rollback", e.i)
	return nil
}
func (e *optExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	n, ok := entity.(node)
	if !ok || n.kind() == KU {
		return nil, ddd.ErrEntityNotRegister
	}
	r := Row{ID: n.GetID(), Name: n.core().Name}
	if p, ok := parent.(node); ok {
		r.Parent = p.GetID()
	}
	return newModel(kindName[n.kind()], r), nil
}
func (e *optExec) Model2Entity(m ddd.IModel, entity ddd.IEntity) error {
	_, r := rowOf(m)
	entity.SetID(r.ID)
	return nil
}
func (e *optExec) Exec(ctx context.Context, a *ddd.Action) error {
	if a.Op == ddd.OpQuery {
		e.w.note("exec%d query", e.i)
		_, q := rowOf(a.Query)
		out := reflect.ValueOf(a.QueryResult).Elem()
		switch {
		case q.Parent == "":
			out.Set(reflect.Append(out, reflect.ValueOf(newModel("A", Row{ID: q.ID}))))
		default:
			out.Set(reflect.Append(out, reflect.ValueOf(newModel("B", Row{ID: "kid", Parent: q.Parent}))))
		}
		return nil
	}
	for _, m := range a.Models {
		t, r := rowOf(m)
		e.w.note("exec%d op%d %s/%s", e.i, a.Op, t, strings.SplitN(r.ID, "-", 2)[0])
	}
	return nil
}

type optBus struct {
	w  *optWorld
	i  int
	cb ddd.DomainEventHandler
	tx bool
}

func (b *optBus) RegisterEventHandler(cb ddd.DomainEventHandler) { b.cb = cb }
func (b *optBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	b.w.note("bus%d dispatch %d", b.i, len(evts))
	return nil
}

// bus 2 takes part in transactions
type optTxBus struct {
	*optBus
	check ddd.DomainEventTXChecker
}

func (b *optTxBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) { b.check = cb }
func (b *optTxBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	b.w.note("bus%d begin %d", b.i, len(evts))
	return ctx, nil
}
func (b *optTxBus) Commit(ctx context.Context) error   { b.w.note("bus%d confirm", b.i); return nil }
func (b *optTxBus) Rollback(ctx context.Context) error { b.w.note("bus%d cancel", b.i); return nil }

type optTimer struct {
	i  int
	cb ddd.TimerHandler
}

func (t *optTimer) RegisterTimerHandler(cb ddd.TimerHandler)            { t.cb = cb }
func (t *optTimer) RunCron(key, cron string, data []byte) error         { return nil }
func (t *optTimer) RunOnce(key string, at time.Time, data []byte) error { return nil }
func (t *optTimer) Cancel(key string) error                             { return nil }

type optIDs struct {
	w *optWorld
	i int
	n int
}

func (g *optIDs) NewID() (string, error) {
	g.n++
	g.w.note("id%d new", g.i)
	return fmt.Sprintf("by%d-%d", g.i, g.n), nil
}

type optSink struct {
	w *optWorld
	i int
}

func (s *optSink) Init(logr.RuntimeInfo)                  {}
func (s *optSink) Enabled(int) bool                       { return true }
func (s *optSink) Info(int, string, ...interface{})       { s.w.note("log%d", s.i) }
func (s *optSink) Error(error, string, ...interface{})    { s.w.note("log%d", s.i) }
func (s *optSink) WithValues(...interface{}) logr.LogSink { return s }
func (s *optSink) WithName(string) logr.LogSink           { return s }

type optState struct {
	lock, exec, bus, timer, id, log int
	tx, rec, dry                    bool
	persist                         int // -1: none
	post                            []string
}

func (w *optWorld) options(picks []optPick, post string) []ddd.Option {
	var r []ddd.Option
	for n, p := range picks {
		v := p.V % nComp
		switch p.K {
		case "lock":
			r = append(r, ddd.WithLock(&optLock{w, v}))
		case "exec":
			r = append(r, ddd.WithExecutor(&optExec{w, v}))
		case "bus":
			r = append(r, ddd.WithEventBus(w.bus(v)))
		case "timer":
			r = append(r, ddd.WithTimer(w.timers[v]))
		case "id":
			r = append(r, ddd.WithIDGenerator(&optIDs{w: w, i: v}))
		case "log":
			r = append(r, ddd.WithLogger(logr.New(&optSink{w, v})))
		case "tx":
			if p.V%2 == 0 {
				r = append(r, ddd.WithTransaction)
			} else {
				r = append(r, ddd.WithoutTransaction)
			}
		case "rec":
			r = append(r, ddd.RecursiveDeleteOption(p.V%2 == 0))
		case "dry":
			r = append(r, ddd.DryRunOption(p.V%4 == 0))
		case "persist":
			if v == 0 {
				r = append(r, ddd.WithEventPersist(nil))
				continue
			}
			r = append(r, ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) {
				return &ME{Row{ID: fmt.Sprintf("rec%d-%s", v, e.ID)}}, nil
			}))
		case "post":
			name := fmt.Sprintf("post %s%d", post, n)
			r = append(r, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { w.note("%s", name) }))
		}
	}
	return r
}

func (s *optState) apply(picks []optPick, post string) {
	s.post = append([]string(nil), s.post...)
	for n, p := range picks {
		v := p.V % nComp
		switch p.K {
		case "lock":
			s.lock = v
		case "exec":
			s.exec = v
		case "bus":
			s.bus = v
		case "timer":
			s.timer = v
		case "id":
			s.id = v
		case "log":
			s.log = v
		case "tx":
			s.tx = p.V%2 == 0
		case "rec":
			s.rec = p.V%2 == 0
		case "dry":
			s.dry = p.V%4 == 0
		case "persist":
			s.persist = v
			if v == 0 {
				s.persist = -1
			}
		case "post":
			s.post = append(s.post, fmt.Sprintf("post %s%d", post, n))
		}
	}
}

func (w *optWorld) bus(i int) ddd.IEventBus {
	if i == nComp-1 {
		return &optTxBus{optBus: w.buses[i]}
	}
	return w.buses[i]
}

type optCmd struct {
	ddd.Command
	w    *optWorld
	main func(ctx context.Context, repo *ddd.Repository) error
	keys []string
	act  func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error)
	do   func(c ddd.RootContainer)
	post string
}

func (c *optCmd) Init(ctx context.Context) ([]string, error)    { return c.keys, nil }
func (c *optCmd) PostSave(ctx context.Context, res *ddd.Result) { c.w.note("%s", c.post) }
func (c *optCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.act(ctx, b)
}
func (c *optCmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	c.do(cont)
	return nil
}

type optMain struct{ c *optCmd }

func (c *optMain) Init(ctx context.Context) ([]string, error)    { return c.c.keys, nil }
func (c *optMain) PostSave(ctx context.Context, res *ddd.Result) { c.c.PostSave(ctx, res) }
func (c *optMain) Main(ctx context.Context, repo *ddd.Repository) error {
	return c.c.main(ctx, repo)
}

func (w *optWorld) runOne(st optState, r optRun, label string) {
	w.stack = append(w.stack, w.calls)
	w.calls = nil
	wasBad := w.bad
	w.bad = r.BadLock
	defer func() {
		w.calls = w.stack[len(w.stack)-1]
		w.stack = w.stack[:len(w.stack)-1]
		w.bad = wasBad
	}()
	eff := st
	if r.Form != 7 {
		eff.apply(r.Opts, label)
	}
	var keys []string
	for i := 0; i < r.Keys && i < 3; i++ {
		keys = append(keys, fmt.Sprintf("k%d", i))
	}
	fresh := &EA{}
	fresh.Name = "fresh"
	fresh.AddEvent(&evBody{})
	old := &EA{}
	old.SetID("old")
	inner := func() {
		if r.Nested != nil {
			w.nested++
			w.runOne(st, *r.Nested, label+"n")
		}
	}
	end := func() error {
		if r.Fail {
			return errMain
		}
		return nil
	}
	attach := func() { // hooks of the entities need a world
		hw := &World{sc: &Scenario{}, feat: map[string]int{}}
		for _, n := range append(children(old), node(old), node(fresh)) {
			hw.register(n, nil)
		}
	}
	main := func(ctx context.Context, repo *ddd.Repository) error {
		repo.Add(fresh)
		if err := repo.Get(ctx, old, &old.List); err != nil {
			return err
		}
		attach()
		repo.Remove(old)
		inner()
		return end()
	}
	cmd := &optCmd{w: w, main: main, keys: keys, post: "post " + label + "cmd",
		act: func(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
			if err := b.Build(ctx, old, &old.List); err != nil {
				return nil, err
			}
			attach()
			return []ddd.IEntity{old}, end()
		},
		do: func(c ddd.RootContainer) {
			c.Add(fresh)
			c.Remove(old)
			inner()
		}}
	split := func() *ddd.Stage {
		i := r.Split % (len(r.Opts) + 1)
		all := w.options(r.Opts, label)
		return w.engine.NewStage().WithOption(all[:i]...).WithOption(all[i:]...)
	}
	ctx := context.Background()
	var res *ddd.Result
	locks, hasCmd, create := len(keys), true, false
	switch r.Form {
	case 1:
		res = w.engine.Run(ctx, &optMain{cmd}, w.options(r.Opts, label)...)
	case 2:
		res = w.engine.RunCommand(ctx, cmd, w.options(r.Opts, label)...)
	case 3:
		res = w.engine.Run(ctx, cmd, w.options(r.Opts, label)...)
	case 4:
		hasCmd = false
		res = split().Lock(keys...).Main(main).Save(ctx)
	case 5:
		res = split().Run(ctx, &optMain{cmd})
	case 6:
		res = split().RunCommand(ctx, cmd)
	case 7:
		hasCmd, locks, create = false, 0, true
		attach()
		res = w.engine.Create(ctx, fresh)
	default:
		hasCmd, locks = false, 0
		res = w.engine.Run(ctx, main, w.options(r.Opts, label)...)
	}
	failed := r.Fail && !create
	if (res.Error != nil) != failed {
		w.o.Failf("run %s: result %v, should fail: %v", label, res.Error, failed)
		return
	}
	if hasCmd {
		eff.post = append(append([]string(nil), eff.post...), cmd.post)
	}
	want := map[string]int{}
	if eff.tx {
		want[fmt.Sprintf("exec%d begin", eff.exec)]++
		if failed {
			want[fmt.Sprintf("exec%d rollback", eff.exec)]++
		} else {
			want[fmt.Sprintf("exec%d commit", eff.exec)]++
		}
	}
	if locks > 0 {
		want[fmt.Sprintf("lock%d lock", eff.lock)] += locks
		want[fmt.Sprintf("lock%d unlock", eff.lock)] += locks
	}
	if !create {
		want[fmt.Sprintf("exec%d query", eff.exec)] += 2
	}
	if !failed {
		want[fmt.Sprintf("id%d new", eff.id)]++
		if !strings.HasPrefix(fresh.GetID(), fmt.Sprintf("by%d-", eff.id)) {
			w.o.Failf("run %s: the new root has ID %q, not one of generator %d", label, fresh.GetID(), eff.id)
		}
		if !eff.dry {
			want[fmt.Sprintf("exec%d op1 A/by%d", eff.exec, eff.id)]++
			if !create {
				want[fmt.Sprintf("exec%d op3 A/old", eff.exec)]++
				if eff.rec {
					want[fmt.Sprintf("exec%d op3 B/kid", eff.exec)]++
				}
			}
			if eff.persist >= 0 {
				want[fmt.Sprintf("exec%d op1 E/rec%d", eff.exec, eff.persist)]++
			}
			want[fmt.Sprintf("bus%d dispatch 1", eff.bus)]++
		}
		for _, p := range eff.post {
			want[p]++
		}
	}
	got := map[string]int{}
	logged := false
	var posts []string
	for _, c := range w.calls {
		if strings.HasPrefix(c, "log") {
			if c != fmt.Sprintf("log%d", eff.log) {
				w.o.Failf("run %s: logs to %s, not to logger %d", label, c, eff.log)
			}
			logged = true
			continue
		}
		if strings.HasPrefix(c, "post") {
			posts = append(posts, c)
		}
		got[c]++
	}
	if !reflect.DeepEqual(got, want) {
		w.o.Failf("run %s (%+v, effective %+v): calls %v, should be %v", label, r, eff, showCounts(got), showCounts(want))
	} else if !failed && fmt.Sprint(posts) != fmt.Sprint(eff.post) {
		w.o.Failf("run %s: after-save callbacks in the order %v, should be %v", label, posts, eff.post)
	}
	if r.BadLock && locks > 0 && !logged {
		w.o.Failf("run %s: a failed release is not logged", label)
	}
	w.reachable(eff, label)
}

func showCounts(m map[string]int) string {
	var r []string
	for k, n := range m {
		r = append(r, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

var optHits int

const optEvt = ddd.EventType("verif.engine.options")

// reachable requires that the bus and the timer a run used can deliver to the registered handlers.
func (w *optWorld) reachable(eff optState, label string) {
	before := optHits
	if cb := w.buses[eff.bus].cb; cb == nil {
		w.o.Failf("run %s: bus %d has no handler", label, eff.bus)
	} else if err := cb(context.Background(), &ddd.DomainEvent{ID: "x", Type: optEvt, Payload: []byte("{}")}); err != nil || optHits != before+1 {
		w.o.Failf("run %s: an event of bus %d reaches %d handlers (%v)", label, eff.bus, optHits-before, err)
	}
	before = optHits
	if cb := w.timers[eff.timer].cb; cb == nil {
		w.o.Failf("run %s: timer %d has no handler", label, eff.timer)
	} else if err := cb(context.Background(), string(optEvt), "", nil); err != nil || optHits != before+1 {
		w.o.Failf("run %s: a tick of timer %d reaches %d handlers (%v)", label, eff.timer, optHits-before, err)
	}
}

func genPicks(t *rapid.T, max int, name string) []optPick {
	var r []optPick
	for i, n := 0, kit.Range(t, 0, max, name); i < n; i++ {
		r = append(r, optPick{K: optKinds[kit.N(t, len(optKinds), "option")], V: kit.N(t, 12, "value")})
	}
	return r
}

func genOptRun(t *rapid.T, depth int) optRun {
	r := optRun{Form: kit.N(t, 8, "form"), Opts: genPicks(t, 6, "nopts"), Split: kit.N(t, 7, "split"), Keys: kit.N(t, 3, "keys"),
		BadLock: kit.Pct(t, 20, "badlock"), Fail: kit.Pct(t, 15, "fail")}
	if depth < 2 && kit.Pct(t, 25, "nested") {
		n := genOptRun(t, depth+1)
		r.Nested = &n
	}
	return r
}

func init() {
	kit.Register(kit.Spec[optScenario]{
		ID: "C33", Quick: 40000, Thorough: 600000, Assumptions: []string{
			"components are stand-ins that record who calls them; the engine and stage are the real code",
			"runs follow or contain each other; overlapping runs are part of C08 and C09",
		},
		Rule: "at least two runs, of which one has options of its own and a later one does not repeat them",
		Gen: func(t *rapid.T) optScenario {
			var s optScenario
			s.Engine = genPicks(t, 8, "engine")
			for i, n := 0, kit.Range(t, 1, 5, "runs"); i < n; i++ {
				s.Runs = append(s.Runs, genOptRun(t, 0))
			}
			return s
		},
		Run: func(t *testing.T, s optScenario) kit.Outcome {
			var o kit.Outcome
			w := &optWorld{sc: &s, o: &o}
			for i := range w.buses {
				w.buses[i] = &optBus{w: w, i: i}
				w.timers[i] = &optTimer{i: i}
			}
			base := optState{tx: true, persist: -1}
			first := []optPick{{"bus", 0}, {"timer", 0}, {"id", 0}, {"log", 0}}
			picks := append(append([]optPick{}, first...), s.Engine...)
			opts := append(w.options(first, "engine"), w.options(s.Engine, "engine")...)
			w.engine = ddd.NewEngine(&optLock{w, 0}, &optExec{w, 0}, opts...)
			base.apply(first, "engine")
			base.apply(s.Engine, "engine")
			_ = picks
			w.calls = nil
			w.reachable(base, "engine")
			for i := range s.Runs {
				w.runOne(base, s.Runs[i], fmt.Sprintf("r%d.", i))
				if o.Fail != "" {
					break
				}
			}
			for i := range s.Runs {
				o.Class("form:%d", s.Runs[i].Form)
				for _, p := range s.Runs[i].Opts {
					o.Class("opt:%s", p.K)
					for j := i + 1; j < len(s.Runs); j++ {
						o.Nontrivial = o.Nontrivial || !repeats(s.Runs[j].Opts, p.K)
					}
				}
			}
			if w.nested > 0 {
				o.Class("nested")
			}
			return o
		},
	})
	ddd.RegisterEventHandler(optEvt, func(ctx context.Context, evt *ddd.DomainEvent) error { optHits++; return nil })
}

func repeats(picks []optPick, k string) bool {
	for _, p := range picks {
		if p.K == k {
			return true
		}
	}
	return false
}
