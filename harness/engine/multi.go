package engine

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

// Several commands on one engine, overlapping in (fake) time.

type RunSpec struct {
	Start  int    `json:"start"`            // when it starts
	Kind   int    `json:"kind"`             // 0 MainFunc, 1 ICommandMain, 2 ICommand, 3 NewStage
	Keys   []int  `json:"keys,omitempty"`   // lock keys in the order declared
	Opts   int    `json:"opts,omitempty"`   // after-save callbacks passed with the run
	Work   int    `json:"work,omitempty"`   // duration of the command logic
	End    string `json:"end,omitempty"`    // "", error, break, panic, commit (the commit fails), locked (a lock attempt fails)
	FailAt int    `json:"failat,omitempty"` // which lock attempt fails
	Output int    `json:"output,omitempty"`
}

type MultiScenario struct {
	EngineHooks int       `json:"hooks"`
	LockDelay   int       `json:"delay"`
	Runs        []RunSpec `json:"runs"`
	ClashNames  bool      `json:"clash,omitempty"`
}

type multi struct {
	sc    *MultiScenario
	mu    sync.Mutex
	held  map[string]int // key -> run
	order map[int][]string
	inTx  map[int]bool
	posts map[int][]string
	rel   map[int]int
	bugs  []string
	chans map[string]chan struct{}
	main  map[int]int
	begun map[int]bool
	ended map[int]int
}

type runKey struct{}

func (m *multi) bug(tag, f string, a ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.bugs = append(m.bugs, tag+": "+fmt.Sprintf(f, a...))
}

func runOf(ctx context.Context) int {
	if v, ok := ctx.Value(runKey{}).(int); ok {
		return v
	}
	return -1
}

func (m *multi) Lock(ctx context.Context, key string) (interface{}, error) {
	r := runOf(ctx)
	rs := m.sc.Runs[r]
	m.mu.Lock()
	n := len(m.order[r])
	m.order[r] = append(m.order[r], key)
	if m.inTx[r] {
		m.bugs = append(m.bugs, "lock: a lock is requested inside the transaction")
	}
	if m.chans[key] == nil {
		m.chans[key] = make(chan struct{}, 1)
	}
	c := m.chans[key]
	m.mu.Unlock()
	if rs.End == "locked" && n == rs.FailAt {
		return nil, fmt.Errorf("busy: %w", ddd.ErrEntityLocked)
	}
	time.Sleep(time.Duration(1+m.sc.LockDelay) * time.Millisecond)
	c <- struct{}{}
	m.mu.Lock()
	m.held[key] = r
	m.mu.Unlock()
	return &lockToken{key: key}, nil
}

func (m *multi) UnLock(ctx context.Context, k interface{}) error {
	r := runOf(ctx)
	t, ok := k.(*lockToken)
	if !ok {
		m.bug("lock", "unlock with a foreign token %v", k)
		return errors.New("bad token")
	}
	m.mu.Lock()
	t.released++
	if t.released > 1 {
		m.bugs = append(m.bugs, "lock: released twice")
	} else if m.held[t.key] != r {
		m.bugs = append(m.bugs, "lock: released by another run")
	}
	if m.inTx[r] {
		m.bugs = append(m.bugs, "lock: released before the transaction ended")
	}
	m.rel[r]++
	delete(m.held, t.key)
	c := m.chans[t.key]
	m.mu.Unlock()
	time.Sleep(time.Millisecond)
	<-c
	return nil
}

type multiExec struct{ m *multi }

func (e *multiExec) Begin(ctx context.Context) (context.Context, error) {
	r := runOf(ctx)
	e.m.mu.Lock()
	e.m.inTx[r] = true
	e.m.begun[r] = true
	e.m.mu.Unlock()
	return ctx, nil
}
func (e *multiExec) end(ctx context.Context) {
	r := runOf(ctx)
	e.m.mu.Lock()
	e.m.inTx[r] = false
	e.m.ended[r]++
	e.m.mu.Unlock()
}
func (e *multiExec) Commit(ctx context.Context) error {
	time.Sleep(time.Millisecond)
	e.end(ctx)
	if e.m.sc.Runs[runOf(ctx)].End == "commit" {
		return errors.New("commit refused")
	}
	return nil
}
func (e *multiExec) RollBack(ctx context.Context) error { e.end(ctx); return nil }
func (e *multiExec) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return nil, ddd.ErrEntityNotRegister
}
func (e *multiExec) Model2Entity(model ddd.IModel, entity ddd.IEntity) error { return nil }
func (e *multiExec) Exec(ctx context.Context, a *ddd.Action) error           { return nil }

func (m *multi) keys(r int) []string {
	var ks []string
	for _, k := range m.sc.Runs[r].Keys {
		if m.sc.ClashNames {
			// names whose order is not the order of the numbers, with prefixes of each other
			ks = append(ks, []string{"b", "ba", "a", "b:", "aa", "B", "10", "9"}[k%8])
		} else {
			ks = append(ks, fmt.Sprintf("key%d", k))
		}
	}
	return ks
}

func (m *multi) body(ctx context.Context, r int) error {
	rs := m.sc.Runs[r]
	m.mu.Lock()
	m.main[r]++
	if !m.inTx[r] {
		m.bugs = append(m.bugs, "lock: the command logic runs outside the transaction")
	}
	mine := 0
	for _, h := range m.held {
		if h == r {
			mine++
		}
	}
	if rs.Kind != 0 && mine != len(rs.Keys) {
		m.bugs = append(m.bugs, fmt.Sprintf("lock: run %d holds %d of its %d keys", r, mine, len(rs.Keys)))
	}
	m.mu.Unlock()
	time.Sleep(time.Duration(rs.Work) * time.Millisecond)
	switch rs.End {
	case "error":
		return fmt.Errorf("run %d: %w", r, errMain)
	case "break":
		return fmt.Errorf("run %d: %w", r, ddd.ErrBreak)
	case "panic":
		panic(fmt.Sprintf("panic of run %d", r))
	}
	return nil
}

func (m *multi) post(ctx context.Context, owner int, who string, res *ddd.Result) {
	r := runOf(ctx)
	m.mu.Lock()
	m.posts[r] = append(m.posts[r], who)
	if owner >= 0 && owner != r {
		m.bugs = append(m.bugs, fmt.Sprintf("post: run %d executed a callback of run %d", r, owner))
	}
	if m.inTx[r] {
		m.bugs = append(m.bugs, "post: callback inside the transaction")
	}
	for k, h := range m.held {
		if h == r {
			m.bugs = append(m.bugs, "post: callback while the lock "+k+" is held")
		}
	}
	if res == nil || res.Error != nil {
		m.bugs = append(m.bugs, "post: callback with an error result")
	}
	m.mu.Unlock()
}

type multiMain struct {
	m *multi
	r int
}

func (c *multiMain) Init(ctx context.Context) ([]string, error) { return c.m.keys(c.r), nil }
func (c *multiMain) Main(ctx context.Context, repo *ddd.Repository) error {
	return c.m.body(ctx, c.r)
}
func (c *multiMain) PostSave(ctx context.Context, res *ddd.Result) { c.m.post(ctx, c.r, "cmd", res) }

type multiCmd struct {
	ddd.Command
	m *multi
	r int
}

func (c *multiCmd) Init(ctx context.Context) ([]string, error) { return c.m.keys(c.r), nil }
func (c *multiCmd) Act(ctx context.Context, _ ddd.RootContainer, _ ...ddd.IEntity) error {
	if o := c.m.sc.Runs[c.r].Output; o > 0 {
		c.Output(o*1000 + c.r)
	}
	return c.m.body(ctx, c.r)
}
func (c *multiCmd) PostSave(ctx context.Context, res *ddd.Result) { c.m.post(ctx, c.r, "cmd", res) }

func playMulti(t *testing.T, sc MultiScenario) (bugs []string) {
	m := &multi{sc: &sc, held: map[string]int{}, order: map[int][]string{}, inTx: map[int]bool{}, posts: map[int][]string{},
		rel: map[int]int{}, chans: map[string]chan struct{}{}, main: map[int]int{}, begun: map[int]bool{}, ended: map[int]int{}}
	defer func() {
		if p := recover(); p != nil {
			if s := fmt.Sprint(p); strings.Contains(s, "deadlock") {
				bugs = append(bugs, "lock: the commands deadlock each other: "+s)
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		opts := []ddd.Option{ddd.WithLogger(discard)}
		for i := 0; i < sc.EngineHooks; i++ {
			name := fmt.Sprintf("engine%d", i)
			opts = append(opts, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { m.post(ctx, -1, name, res) }))
		}
		e := ddd.NewEngine(m, &multiExec{m}, opts...)
		var wg sync.WaitGroup
		for r := range sc.Runs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs := sc.Runs[r]
				time.Sleep(time.Duration(rs.Start) * time.Millisecond)
				ctx := context.WithValue(context.Background(), runKey{}, r)
				var ro []ddd.Option
				for i := 0; i < rs.Opts; i++ {
					name := fmt.Sprintf("opt%d", i)
					ro = append(ro, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { m.post(ctx, r, name, res) }))
				}
				var res *ddd.Result
				var pan any
				func() {
					defer func() { pan = recover() }()
					switch rs.Kind {
					case 1:
						res = e.Run(ctx, &multiMain{m: m, r: r}, ro...)
					case 2:
						res = e.Run(ctx, &multiCmd{m: m, r: r}, ro...)
					case 3:
						res = e.NewStage().WithOption(ro...).Lock(m.keys(r)...).Main(func(ctx context.Context, _ *ddd.Repository) error { return m.body(ctx, r) }).Save(ctx)
					default:
						res = e.Run(ctx, func(ctx context.Context, _ *ddd.Repository) error { return m.body(ctx, r) }, ro...)
					}
				}()
				m.judge(r, res, pan)
			}()
		}
		wg.Wait()
	})
	if len(m.held) > 0 {
		m.bug("lock", "locks still held at the end: %v", m.held)
	}
	// two runs declaring the same keys must take them in the same order
	for a := range sc.Runs {
		for b := range sc.Runs {
			if a < b && m.main[a] > 0 && m.main[b] > 0 {
				pos := map[string]int{}
				for i, k := range m.order[a] {
					pos[k] = i
				}
				last := -1
				for _, k := range m.order[b] {
					if p, ok := pos[k]; ok {
						if p < last {
							m.bug("lock", "runs %d and %d take common keys in different orders: %v, %v", a, b, m.order[a], m.order[b])
						}
						last = p
					}
				}
			}
		}
	}
	return m.bugs
}

func (m *multi) judge(r int, res *ddd.Result, pan any) {
	rs := m.sc.Runs[r]
	dup := false
	seen := map[int]bool{}
	for _, k := range rs.Keys {
		if rs.Kind != 0 && seen[k] {
			dup = true
		}
		seen[k] = true
	}
	lockFail := rs.End == "locked" && rs.Kind != 0 && rs.FailAt < len(rs.Keys)
	m.mu.Lock()
	got := fmt.Sprint(m.posts[r])
	begun, ended, mainRan := m.begun[r], m.ended[r], m.main[r]
	m.mu.Unlock()
	var want []string
	posts := func() {
		for i := 0; i < m.sc.EngineHooks; i++ {
			want = append(want, fmt.Sprintf("engine%d", i))
		}
		for i := 0; i < rs.Opts; i++ {
			want = append(want, fmt.Sprintf("opt%d", i))
		}
		if rs.Kind == 1 || rs.Kind == 2 {
			want = append(want, "cmd")
		}
	}
	switch {
	case dup || lockFail:
		if res == nil || res.Error == nil || pan != nil {
			m.bug("lock", "run %d did not fail although a key was declared twice or could not be acquired", r)
		} else if !dup && !strings.Contains(res.Error.Error(), ddd.ErrEntityLocked.Error()) {
			m.bug("outcome", "run %d: error %v does not tell the cause", r, res.Error)
		}
		if mainRan > 0 || begun {
			m.bug("lock", "run %d ran without its locks", r)
		}
	case rs.End == "panic":
		if pan == nil || fmt.Sprint(pan) != fmt.Sprintf("panic of run %d", r) {
			m.bug("outcome", "run %d: the panic was not passed on: %v", r, pan)
		}
	case pan != nil:
		m.bug("outcome", "run %d: unexpected panic %v", r, pan)
	case rs.End == "error":
		if res.Error == nil || !strings.Contains(res.Error.Error(), errMain.Error()) || res.Break {
			m.bug("outcome", "run %d: error %v break %v", r, res.Error, res.Break)
		}
	case rs.End == "commit":
		if res.Error == nil || !strings.Contains(res.Error.Error(), "commit refused") {
			m.bug("outcome", "run %d: a failed commit gives error %v", r, res.Error)
		}
	case rs.End == "break":
		if res.Error != nil || !res.Break {
			m.bug("outcome", "run %d: a break gives error %v break %v", r, res.Error, res.Break)
		}
		posts()
	default:
		if res.Error != nil || res.Break {
			m.bug("outcome", "run %d: error %v break %v", r, res.Error, res.Break)
		}
		if rs.Kind == 2 && rs.Output > 0 && res.Output != rs.Output*1000+r {
			m.bug("outcome", "run %d: output %v", r, res.Output)
		}
		if (rs.Kind != 2 || rs.Output == 0) && res.Output != nil {
			m.bug("outcome", "run %d: output %v of another run", r, res.Output)
		}
		posts()
	}
	if got != fmt.Sprint(want) {
		m.bug("post", "run %d: callbacks %v, should be %v", r, got, want)
	}
	if begun && ended != 1 {
		m.bug("tx", "run %d: transaction ended %d times", r, ended)
	}
	if !dup && !lockFail && mainRan != 1 {
		m.bug("outcome", "run %d: the logic ran %d times", r, mainRan)
	}
}

func genMulti(t *rapid.T, locks bool) MultiScenario {
	sc := MultiScenario{EngineHooks: kit.N(t, 8, "hooks"), LockDelay: kit.N(t, 4, "delay"), ClashNames: kit.Pct(t, 40, "names")}
	if locks {
		sc.EngineHooks = kit.N(t, 2, "hooks")
	}
	sc.Runs = kit.List(t, 1, 5, "runs", func(t *rapid.T) RunSpec {
		r := RunSpec{Start: kit.N(t, 16, "start"), Kind: kit.N(t, 4, "kind"), Opts: kit.N(t, 3, "opts"), Work: kit.N(t, 8, "work"), Output: kit.N(t, 3, "out")}
		if locks || kit.Pct(t, 30, "locked") {
			n := kit.Range(t, 0, 4, "nkeys")
			for i := 0; i < n; i++ {
				r.Keys = append(r.Keys, kit.N(t, 4, "key"))
			}
			if !kit.Pct(t, 10, "dup") {
				seen := map[int]bool{}
				var ks []int
				for _, k := range r.Keys {
					if !seen[k] {
						ks = append(ks, k)
					}
					seen[k] = true
				}
				r.Keys = ks
			}
		}
		r.End = kit.Pick(t, []string{"", "", "", "", "error", "break", "panic", "commit", "locked"}, "end")
		if r.End == "locked" {
			r.FailAt = kit.N(t, 3, "failat")
		}
		return r
	})
	return sc
}
