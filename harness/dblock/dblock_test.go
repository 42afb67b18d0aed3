// Package dblock checks the database lock (C26, C27) on simdb: several processes share one
// table; time, interleavings, faults and crashes are simulated.
package dblock

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	lockdb "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

const (
	opLock    = iota // lock, hold, unlock
	opRun            // run a function under the lock
	opAbandon        // lock and forget
	opDelete         // an administrator deletes the row
	opTake           // an administrator gives the row to somebody else
	nOps
)

type Op struct {
	Wait   int  `json:"w,omitempty"` // ms after the previous one of the process
	Kind   int  `json:"k,omitempty"`
	Key    int  `json:"key,omitempty"`
	Hold   int  `json:"h,omitempty"`      // ms
	Again  bool `json:"again,omitempty"`  // unlocks a second time
	Panic  bool `json:"panic,omitempty"`  // the function panics in the end
	Obey   bool `json:"obey,omitempty"`   // the function returns when its context ends
	Cancel int  `json:"cancel,omitempty"` // the caller cancels, ms after the call
	Late   bool `json:"late,omitempty"`   // unlocks only while the process holds its next lock, or in the end
}

type Proc struct {
	Actor int  `json:"a"`
	Ops   []Op `json:"ops"`
}

type FaultAt struct {
	Actor int `json:"a"`
	Op    int `json:"op"` // 0 any, 1 INSERT, 2 COMMIT, 3 UPDATE, 4 SELECT, 5 DELETE, 6 BEGIN
	Nth   int `json:"n"`
	Kind  int `json:"k"` // simdb.Fault
}

// Stall is a pause of a process between two of its steps.
type Stall struct {
	Actor int `json:"a"`
	Nth   int `json:"n"` // after its Nth statement
	For   int `json:"for"`
}

type Scenario struct {
	TTL     int       `json:"ttl"`   // ms
	Renew   int       `json:"renew"` // ms
	NoRetry []bool    `json:"noretry"`
	Procs   []Proc    `json:"procs"`
	Lat     []int     `json:"lat,omitempty"`   // before a step, µs
	Reply   []int     `json:"reply,omitempty"` // after a step, µs
	Faults  []FaultAt `json:"faults,omitempty"`
	Stalls  []Stall   `json:"stalls,omitempty"` // of processes that run no functions
}

var faultOps = []string{"", "INSERT", "COMMIT", "UPDATE", "SELECT", "DELETE", "BEGIN"}
var keys = []string{"order-1", "o'rder\"2`", "заказ 50%", "order-1 ", strings.Repeat("k", 200)}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// grant is a lock somebody got.
type grant struct {
	actor    int
	op       Op
	key      string
	id       string        // locker, as stored
	from     time.Duration // when the call returned or the function started
	expires  time.Duration // of a lock that is not renewed
	run      bool
	released bool // its release has begun
	lost     bool // an administrator or somebody else took it (legitimately, as far as it goes)
	lostAt   time.Duration
	dead     bool
	unsure   bool // an administrator interfered while it was being taken
}

// hold is a time span in which a key may have been held (until < 0: still is).
type hold struct {
	key         string
	actor       int
	from, until time.Duration
}

type world struct {
	s      Scenario
	prop   string
	st     *simdb.Store
	sim    *simdb.Sim
	mu     sync.Mutex
	o      *kit.Outcome
	t0     time.Time
	actors []*simdb.Actor
	locks  []*lockdb.DBLock
	grants []*grant
	holds  []*hold
	fcount map[int]int
	fdone  map[string]simdb.Fault
	reads  map[int]*reading
	margin time.Duration
	live   map[int]int // running functions per actor
	counts map[string]int
	stop   bool
	calls  []call
	admins map[string]time.Duration // last interference
	fm     sync.Mutex               // reads, shakes
	shakes map[int]time.Duration
	late   map[int][]func() // releases that are still to be done
}

// reading is what a process read while in its present Lock or Run call.
type reading struct {
	n    int
	last time.Duration
}

// call is a refused Lock call.
type call struct {
	actor    int
	key      string
	from, to time.Duration // its last attempt
}

var storeOnce sync.Once
var store *simdb.Store

func getStore() *simdb.Store {
	storeOnce.Do(func() { store = simdb.NewStore(&lockdb.ResourceLock{}) })
	return store
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) tracef(format string, args ...any) {
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s "+format+"\n", append([]any{w.now()}, args...)...)
	}
}

func (w *world) fault(a *simdb.Actor, n int, op string) simdb.Fault {
	word := strings.ToUpper(op)
	if strings.HasPrefix(word, "SELECT") {
		w.fm.Lock()
		r := w.reads[a.ID]
		r.n++
		r.last = w.now()
		w.fm.Unlock()
	}
	key := fmt.Sprintf("%d/%d", a.ID, n)
	if f, ok := w.fdone[key]; ok {
		return f
	}
	if w.stop {
		return simdb.None
	}
	res := simdb.None
	for k, f := range w.s.Faults {
		if f.Actor%len(w.s.NoRetry) != a.ID || f.Op > 0 && !strings.HasPrefix(word, faultOps[f.Op%len(faultOps)]) {
			continue
		}
		if w.fcount[k] == f.Nth && res == simdb.None {
			res = simdb.Fault(f.Kind)
		}
		w.fcount[k]++
	}
	w.fdone[key] = res
	if res != simdb.None {
		w.fm.Lock()
		if _, ok := w.shakes[a.ID]; !ok {
			w.shakes[a.ID] = w.now()
		}
		w.fm.Unlock()
	}
	return res
}

func (w *world) latency(l []int, a *simdb.Actor, n int) time.Duration {
	jit := time.Duration(a.ID+1)*101 + time.Duration(n%97)*11
	if len(l) == 0 {
		return jit
	}
	return time.Duration(l[(n*7+a.ID*13)%len(l)])*time.Microsecond + jit
}

// row is the locker stored for a key ("" if there is none).
func (w *world) row(key string) (id string) {
	rows, err := w.st.DB.Query("SELECT locker_id FROM resource_lock WHERE resource=?", key)
	if err != nil {
		kit.Harness("row: %v", err)
	}
	defer rows.Close()
	n := 0
	for rows.Next() {
		if err := rows.Scan(&id); err != nil {
			kit.Harness("row: %v", err)
		}
		n++
	}
	if n > 1 {
		w.o.Failf("%d rows are stored for the key %q", n, key)
	}
	return id
}

// read is what the process read in its present call.
func (w *world) read(actor int) reading {
	w.fm.Lock()
	defer w.fm.Unlock()
	return *w.reads[actor]
}

// shaken tells when a fault first hit the process.
func (w *world) shaken(actor int) (time.Duration, bool) {
	w.fm.Lock()
	defer w.fm.Unlock()
	at, ok := w.shakes[actor]
	return at, ok
}

func (w *world) faulty(actor int) bool {
	for _, f := range w.s.Faults {
		if f.Actor%len(w.s.NoRetry) == actor {
			return true
		}
	}
	return false
}

// valid tells whether a grant still has to exclude everybody else; w.mu is held.
func (w *world) valid(g *grant) bool {
	if _, shaken := w.shaken(g.actor); g.released || g.lost || shaken || g.dead || g.unsure {
		return false
	}
	return g.run || w.now() < g.expires
}

// check looks for every valid grant in the table; w.mu is held.
func (w *world) check() {
	for _, g := range w.grants {
		if !w.valid(g) {
			continue
		}
		if id := w.row(g.key); id != g.id && g.id != "" {
			w.o.Failf("process %d holds %q since %v (run %v), but the table gives it to %q", g.actor, g.key, g.from, g.run, id)
		}
	}
}

// granted registers a lock; w.mu is held.
func (w *world) granted(g *grant) {
	if at, ok := w.admins[g.key]; ok && at >= w.read(g.actor).last {
		g.unsure, g.id = true, ""
	}
	for _, h := range w.grants {
		if h.key != g.key || g.unsure || !g.run && w.now() >= g.expires { // of no use any more
			continue
		}
		if w.valid(h) {
			w.o.Failf("process %d gets %q (run %v) while process %d holds it since %v (run %v)", g.actor, g.key, g.run, h.actor, h.from, h.run)
		} else if !h.released && !h.lost {
			h.lost, h.lostAt = true, w.now()
			w.counts["expired-taken"]++
		}
	}
	w.tracef("process %d has %q (run %v)", g.actor, g.key, g.run)
	w.counts["granted"]++
	w.grants = append(w.grants, g)
	w.check()
}

func isLocked(err error) bool { return errors.Is(err, ddd.ErrEntityLocked) }

// begin notes that a call may get the key from now on.
func (w *world) begin(actor int, key string) *hold {
	w.mu.Lock()
	defer w.mu.Unlock()
	h := &hold{key: key, actor: actor, from: w.now(), until: -1}
	w.holds = append(w.holds, h)
	w.fm.Lock()
	w.reads[actor].n, w.reads[actor].last = 0, w.now()
	w.fm.Unlock()
	return h
}

func (w *world) refused(actor int, key string, h *hold, start time.Duration) {
	h.until = h.from - 1 // never held
	r := w.read(actor)
	w.counts["refused"]++
	w.calls = append(w.calls, call{actor, key, r.last, w.now()})
	if w.s.NoRetry[actor] {
		if r.n > 1 && !w.faulty(actor) {
			w.o.Failf("process %d locks %q without retrying, but reads it %d times", actor, key, r.n)
		}
	} else if w.now()-start < 200*time.Millisecond {
		w.o.Failf("process %d is refused %q after %v although retries are configured", actor, key, w.now()-start)
	}
}

func (w *world) ttl() time.Duration { return ms(w.s.TTL) }

// dies notes that a dead process holds on until its lock expires.
func (w *world) dies(a int, h *hold) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.actors[a].Dead() {
		return
	}
	if h.until < 0 {
		h.until = w.now() + w.ttl()
	}
	for _, g := range w.grants {
		if g.actor == a {
			g.dead = true
		}
	}
}

// releaseLate makes the releases that a process put off.
func (w *world) releaseLate(a int) {
	w.mu.Lock()
	l := w.late[a]
	w.late[a] = nil
	w.mu.Unlock()
	for _, f := range l {
		f()
	}
}

func (w *world) lockOp(a int, op Op) {
	key := keys[op.Key%len(keys)]
	ctx := context.Background()
	h := w.begin(a, key)
	start := w.now()
	dead := true
	defer func() {
		if dead {
			w.dies(a, h)
		}
	}()
	kl, err := w.locks[a].Lock(ctx, key)
	w.actors[a].Check()
	w.mu.Lock()
	if err != nil {
		w.tracef("process %d: lock %q: %v", a, key, err)
		switch {
		case isLocked(err):
			w.refused(a, key, h, start)
		case w.faulty(a):
			h.until = w.now() + w.ttl()
		default:
			h.until = w.now()
			w.o.Failf("process %d: locking %q fails: %v", a, key, err)
		}
		w.mu.Unlock()
		dead = false
		return
	}
	g := &grant{actor: a, op: op, key: key, from: w.now(), expires: w.read(a).last + w.ttl()}
	if l, ok := kl.(*lockdb.ResourceLock); ok {
		g.id = l.LockerID
	}
	w.granted(g)
	if op.Kind == opAbandon {
		h.until = w.now() + w.ttl()
	}
	w.mu.Unlock()
	if op.Kind == opAbandon {
		dead = false
		return
	}
	time.Sleep(ms(op.Hold))
	w.actors[a].Check()
	w.releaseLate(a)
	w.mu.Lock()
	w.check()
	if op.Late {
		h.until = w.now() + w.ttl()
		w.counts["late"]++
		w.late[a] = append(w.late[a], func() {
			h := w.begin(a, key) // who finds the expired row while it goes away may be refused
			defer w.dies(a, h)
			w.release(a, op, g, h, kl)
		})
	}
	w.mu.Unlock()
	if !op.Late {
		w.release(a, op, g, h, kl)
	}
	dead = false
}

func (w *world) release(a int, op Op, g *grant, h *hold, kl any) {
	ctx, key := context.Background(), g.key
	tries := 1
	if op.Again {
		tries = 2
	}
	for try := 0; try < tries; try++ {
		w.mu.Lock()
		was := w.valid(g)
		lost := g.lost
		g.released = true
		w.mu.Unlock()
		err := w.locks[a].UnLock(ctx, kl)
		w.actors[a].Check()
		w.mu.Lock()
		w.tracef("process %d: unlock %q: %v", a, key, err)
		switch {
		case w.faulty(a) || g.unsure:
		case try > 0 && err == nil:
			w.o.Failf("process %d releases %q a second time without an error", a, key)
		case try == 0 && lost && err == nil:
			w.o.Failf("process %d releases %q without an error although it lost it at %v", a, key, g.lostAt)
		case try == 0 && was && err != nil && !g.lost && w.now() < g.expires:
			w.o.Failf("process %d cannot release %q: %v", a, key, err)
		}
		if err == nil && g.id != "" && w.row(key) == g.id {
			w.o.Failf("%q is still held by process %d after its release", key, a)
		}
		if lost {
			w.counts["lost-released"]++
		}
		if err != nil && !lost && w.faulty(a) {
			h.until = max(h.until, w.now()+w.ttl())
		} else if h.until < 0 {
			h.until = w.now()
		}
		w.check()
		w.mu.Unlock()
	}
}

func (w *world) runOp(a int, op Op) {
	key := keys[op.Key%len(keys)]
	type ctxKey struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, a))
	defer cancel()
	if op.Cancel > 0 {
		tm := time.AfterFunc(ms(op.Cancel), cancel)
		defer tm.Stop()
	}
	h := w.begin(a, key)
	start := w.now()
	var g *grant
	var began, ended bool
	over := false
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		if !over && w.actors[a].Dead() {
			if h.until < 0 {
				h.until = w.now() + w.ttl()
			}
			for _, g := range w.grants {
				if g.actor == a {
					g.dead = true
				}
			}
		}
	}()
	var err error
	var canceled time.Duration = -1
	fn := func(c context.Context) {
		w.actors[a].Check()
		w.mu.Lock()
		if began {
			w.o.Failf("process %d: the function under %q is run twice", a, key)
		}
		began = true
		g = &grant{actor: a, op: op, key: key, from: w.now(), run: true, id: w.row(key)}
		w.granted(g)
		w.live[a]++
		w.mu.Unlock()
		if c.Value(ctxKey{}) != a {
			w.mu.Lock()
			w.o.Failf("the context of the function under the lock does not derive from the caller's")
			w.mu.Unlock()
		}
		end := time.NewTimer(ms(op.Hold))
		defer end.Stop()
		done := c.Done()
		for fin := false; !fin; {
			select {
			case <-done:
				canceled, done = w.now(), nil
				w.mu.Lock()
				w.tracef("process %d: context of the run under %q ends", a, key)
				if ctx.Err() == nil && !g.lost && !w.faulty(a) && !g.unsure {
					w.o.Failf("process %d: the context of the function under %q ends after %v although the lock is neither lost nor failed to be renewed", a, key, w.now()-g.from)
				}
				g.lost = true
				if g.lostAt == 0 {
					g.lostAt = w.now()
				}
				w.mu.Unlock()
				fin = op.Obey
			case <-end.C:
				fin = true
			}
		}
		if canceled < 0 && c.Err() != nil {
			canceled = w.now()
		}
		w.actors[a].Check()
		w.mu.Lock()
		w.check()
		w.live[a]--
		w.tracef("process %d: function under %q ends", a, key)
		limit := ms(w.s.Renew) + w.margin
		at, shaken := w.shaken(a)
		if g.lost && canceled < 0 && w.now() > g.lostAt+limit && !shaken {
			w.o.Failf("process %d lost %q at %v, but the context of its function has not ended by %v", a, key, g.lostAt, w.now())
		}
		if shaken && at > g.from && canceled < 0 && w.now() > at+w.margin {
			w.o.Failf("process %d could not renew %q at %v, but the context of its function has not ended by %v", a, key, at, w.now())
		}
		if canceled >= 0 && canceled > g.lostAt+limit && g.lostAt > 0 {
			w.o.Failf("process %d lost %q at %v, but the context of its function ended only at %v", a, key, g.lostAt, canceled)
		}
		if ctx.Err() != nil && canceled < 0 && w.now() > start+ms(op.Cancel)+time.Millisecond {
			w.o.Failf("process %d: the caller cancelled at %v, but the context of the function has not ended by %v", a, start+ms(op.Cancel), w.now())
		}
		g.released = true
		ended = true
		w.mu.Unlock()
		if op.Panic {
			panic("end of the function")
		}
	}
	panicked := func() (p any) {
		defer func() { p = recover() }()
		err = w.locks[a].Run(ctx, key, fn)
		return nil
	}()
	w.actors[a].Check()
	over = true
	w.mu.Lock()
	defer w.mu.Unlock()
	w.tracef("process %d: run %q: %v, panic %v", a, key, err, panicked)
	switch {
	case began && !ended:
		w.o.Failf("process %d: Run returns while the function still runs", a)
	case began:
		if panicked != nil && !op.Panic {
			w.o.Failf("process %d: Run panics: %v", a, panicked)
		}
		if op.Panic && panicked == nil {
			w.counts["panic-swallowed"]++
			if err == nil {
				w.o.Failf("process %d: Run(%q) reports success although the function panicked", a, key)
			}
		}
		if g.id != "" && w.row(key) == g.id && !w.faulty(a) {
			w.o.Failf("process %d: Run(%q) returned (panic %v, caller cancelled %v), but the lock is still held", a, key, op.Panic, ctx.Err() != nil)
		}
		if w.faulty(a) {
			h.until = w.now() + w.ttl() + w.margin
		} else {
			h.until = w.now()
		}
		w.counts["ran"]++
		if ms(op.Hold) > w.ttl() && !g.lost {
			w.counts["ran-beyond-ttl"]++
		}
		if g.lost {
			w.counts["run-lost"]++
		}
		w.check()
	case panicked != nil:
		w.o.Failf("process %d: Run panics without running the function: %v", a, panicked)
	case err == nil:
		w.o.Failf("process %d: Run(%q) returns no error, but did not run the function", a, key)
	case isLocked(err):
		w.refused(a, key, h, start)
	case w.faulty(a) || ctx.Err() != nil:
		h.until = w.now() + w.ttl()
	default:
		h.until = w.now()
		w.o.Failf("process %d: Run(%q) fails: %v", a, key, err)
	}
}

// admin changes the table behind the locks' back.
func (w *world) admin(op Op) {
	key := keys[op.Key%len(keys)]
	w.mu.Lock()
	defer w.mu.Unlock()
	q, args := "DELETE FROM resource_lock WHERE resource=?", []any{key}
	if op.Kind == opTake {
		q, args = "UPDATE resource_lock SET locker_id='somebody', updated_at=? WHERE resource=?", []any{time.Now(), key}
	}
	res, err := w.st.DB.Exec(q, args...)
	if err != nil {
		w.tracef("administrator: %v", err) // busy: a statement is under way
		return
	}
	n, _ := res.RowsAffected()
	w.tracef("administrator: %s %q: %d", q, key, n)
	if n == 0 {
		return
	}
	w.counts["stolen"]++
	w.admins[key] = w.now()
	for _, g := range w.grants {
		if g.key == key && !g.lost && !g.released {
			g.lost, g.lostAt = true, w.now()
		}
		if g.key == key && g.released && w.row(key) != g.id {
			g.lost = true
		}
	}
	until := w.now() // who finds the row while it goes away may be refused
	if op.Kind == opTake {
		until += w.ttl()
	}
	w.holds = append(w.holds, &hold{key: key, actor: -1, from: w.now(), until: until})
}

func simulate(t *testing.T, prop string, s Scenario) (o kit.Outcome) {
	st := getStore()
	defer func() {
		if p := recover(); p != nil {
			if msg := fmt.Sprint(p); strings.Contains(msg, "deadlock") {
				o.Failf("goroutines are left behind after all locks were released: %s", msg)
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, prop: prop, st: st, sim: simdb.NewSim(st), t0: time.Now(), o: &o, fcount: map[int]int{}, fdone: map[string]simdb.Fault{}, reads: map[int]*reading{}, shakes: map[int]time.Duration{}, admins: map[string]time.Duration{}, live: map[int]int{}, counts: map[string]int{}, late: map[int][]func(){}}
		if os.Getenv("VERIF_TRACE") == "2" {
			w.sim.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
		}
		w.run()
	})
	return o
}

func maxOf(l []int) (m int) {
	for _, x := range l {
		m = max(m, x)
	}
	return
}

func (w *world) run() {
	n := len(w.s.NoRetry)
	for i := 0; i < n; i++ {
		w.actors = append(w.actors, w.sim.Actor(i))
		w.reads[i] = &reading{}
		w.locks = append(w.locks, lockdb.NewDBLock(w.actors[i].Gorm(), w.ttl(), func(o *lockdb.Options) { o.Logger = logr.Discard() },
			func(o *lockdb.Options) { o.Retry = !w.s.NoRetry[i] }, func(o *lockdb.Options) { o.RenewInterval = ms(w.s.Renew) }))
	}
	w.margin = stepMargin(w.s)
	w.sim.Latency = func(a *simdb.Actor, n int) time.Duration { return w.latency(w.s.Lat, a, n) }
	if len(w.s.Reply)+len(w.s.Stalls) > 0 {
		var mu sync.Mutex
		replies := map[int]int{}
		w.sim.Reply = func(a *simdb.Actor, n int) (d time.Duration) {
			if len(w.s.Reply) > 0 {
				d = w.latency(w.s.Reply, a, n)
			}
			mu.Lock()
			defer mu.Unlock()
			for _, st := range w.s.Stalls {
				if st.Actor == a.ID && st.Nth == replies[a.ID] && !w.runs(a.ID) {
					d += ms(st.For)
				}
			}
			replies[a.ID]++
			return d
		}
	}
	w.sim.Fault = w.fault
	w.t0 = time.Now()
	var wg sync.WaitGroup
	for k, p := range w.s.Procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(k) * 3 * time.Microsecond)
			a := p.Actor % n
			for _, op := range p.Ops {
				time.Sleep(ms(op.Wait))
				if w.failed() {
					return
				}
				switch op.Kind {
				case opLock, opAbandon:
					w.actors[a].Check()
					w.lockOp(a, op)
				case opRun:
					w.actors[a].Check()
					w.runOp(a, op)
				default:
					w.admin(op)
				}
			}
			if w.failed() {
				return
			}
			w.actors[a].Check()
			w.releaseLate(a)
		}()
	}
	wg.Wait()
	w.mu.Lock()
	w.stop = true
	for _, g := range w.grants {
		if w.actors[g.actor].Dead() {
			g.dead = true
		}
	}
	w.check()
	w.mu.Unlock()
	// everything is released or forgotten by now; what is under way ends soon
	time.Sleep(w.margin)
	before := make([]int, n)
	for i, a := range w.actors {
		before[i] = a.Ops()
	}
	time.Sleep(w.ttl() + 3*ms(w.s.Renew) + w.margin)
	for i, a := range w.actors {
		if c := a.Ops(); c != before[i] && !a.Dead() {
			w.mu.Lock()
			w.o.Failf("process %d still makes %d steps after everything was released", i, c-before[i])
			w.mu.Unlock()
		}
	}
	if !w.failed() {
		w.justify()
	}
	// every key can be taken again
	used := map[string]bool{}
	for _, h := range w.holds {
		used[h.key] = true
	}
	fresh := w.sim.Actor(n)
	w.reads[n] = &reading{}
	fl := lockdb.NewDBLock(fresh.Gorm(), w.ttl(), func(o *lockdb.Options) {
		o.RenewInterval, o.Retry, o.Logger = ms(w.s.Renew), false, logr.Discard()
	})
	for _, key := range keys {
		if !used[key] || w.failed() {
			continue
		}
		if kl, err := fl.Lock(context.Background(), key); err != nil {
			w.o.Failf("%q cannot be locked after every holder released it or let it expire: %v", key, err)
		} else if err := fl.UnLock(context.Background(), kl); err != nil {
			w.o.Failf("%q cannot be released: %v", key, err)
		}
	}
	w.sim.Stop()
	time.Sleep(3*ms(w.s.Renew) + w.ttl())
	synctest.Wait()
	runtime.Gosched()
	w.stats()
}

// runs tells whether a process runs functions.
func (w *world) runs(actor int) bool {
	for _, p := range w.s.Procs {
		for _, op := range p.Ops {
			if p.Actor == actor && op.Kind == opRun {
				return true
			}
		}
	}
	return false
}

func (w *world) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.o.Fail != ""
}

// justify checks that each refusal had a reason.
func (w *world) justify() {
	for _, c := range w.calls {
		ok := false
		for _, h := range w.holds {
			if h.key == c.key && h.from <= c.to && (h.until < 0 || h.until >= c.from) {
				ok = true
			}
		}
		if !ok {
			w.o.Failf("process %d is refused %q between %v and %v, when nobody held it", c.actor, c.key, c.from, c.to)
		}
	}
}

func (w *world) stats() {
	for _, k := range []string{"granted", "refused", "expired-taken", "lost-released", "ran", "ran-beyond-ttl", "run-lost", "stolen", "late"} {
		if w.counts[k] > 0 {
			w.o.Class("%s", k)
		}
	}
	if w.sim.Faults > 0 {
		w.o.Class("faults")
	}
	if w.prop == "C26" {
		w.o.Nontrivial = w.counts["granted"] > 1 && (w.counts["refused"] > 0 || w.counts["expired-taken"] > 0)
	} else {
		w.o.Nontrivial = w.counts["ran"] > 0 && (w.counts["ran-beyond-ttl"] > 0 || w.counts["run-lost"] > 0 || w.counts["refused"] > 0)
	}
}

// stepMargin bounds how long a lock operation takes, with everybody else in its way.
func stepMargin(s Scenario) time.Duration {
	l := time.Duration(maxOf(s.Lat)+maxOf(s.Reply)+30) * time.Microsecond
	return 5*l + time.Duration(len(s.NoRetry)+1)*8*l + 5*time.Millisecond
}

// ---- generators ----

func genOp(t *rapid.T, kinds []int, ttl, nkeys int, admin bool) Op {
	op := Op{Wait: kit.Pick(t, []int{0, 1, 20, 150, 500, ttl / 2, ttl, ttl + 10}, "wait"), Key: kit.N(t, nkeys, "key")}
	op.Kind = kit.Pick(t, kinds, "kind")
	if admin && kit.Pct(t, 10, "admin") {
		op.Kind = kit.Pick(t, []int{opDelete, opTake}, "how")
		return op
	}
	op.Hold = kit.Pick(t, []int{0, 1, 50, 300, ttl / 2, ttl - 50, ttl - 1, ttl, ttl + 50, 2 * ttl}, "hold")
	if op.Kind == opRun {
		op.Hold = kit.Pick(t, []int{0, 10, ttl, ttl + 50, 2*ttl + 7, 3 * ttl, 5 * ttl}, "hold")
		op.Panic = kit.Pct(t, 15, "panic")
		op.Obey = kit.Pct(t, 50, "obey")
		if kit.Pct(t, 20, "cancel") {
			op.Cancel = 1 + kit.N(t, 3*ttl, "cancel")
		}
	}
	op.Again = op.Kind == opLock && kit.Pct(t, 15, "again")
	op.Late = op.Kind == opLock && kit.Pct(t, 15, "late")
	return op
}

func gen(t *rapid.T, kinds []int, admin, runs bool) Scenario {
	s := Scenario{TTL: kit.Pick(t, []int{1000, 400, 2000, 5000}, "ttl"), Renew: 100}
	s.Lat = kit.List(t, 0, 6, "latency", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 3000}, "us") })
	if kit.Pct(t, 60, "slow") {
		s.Reply = kit.List(t, 1, 6, "reply", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 5000}, "us") })
	}
	n := kit.Range(t, 1, 4, "actors")
	for i := 0; i < n; i++ {
		s.NoRetry = append(s.NoRetry, kit.Pct(t, 50, "noretry"))
	}
	if runs {
		s.Renew = kit.Pick(t, []int{100, s.TTL / 4, s.TTL / 3}, "renew")
		for stepMargin(s)*2+ms(s.Renew) >= ms(s.TTL) { // renewals must be able to arrive in time
			s.TTL *= 2
		}
	}
	nkeys := kit.Pick(t, []int{1, 1, 2, 3, 5}, "keys")
	faults := admin && kit.Pct(t, 25, "faults")
	for i := 0; i < n; i++ {
		kinds := kinds
		if runs && i > 0 && kit.Pct(t, 30, "locks only") {
			kinds = []int{opLock}
		}
		s.Procs = append(s.Procs, Proc{Actor: i, Ops: kit.List(t, 1, 5, "ops", func(t *rapid.T) Op { return genOp(t, kinds, s.TTL, nkeys, admin) })})
	}
	if kit.Pct(t, 40, "stalls") {
		s.Stalls = kit.List(t, 1, 3, "stalls", func(t *rapid.T) Stall {
			return Stall{Actor: kit.N(t, n, "actor"), Nth: kit.N(t, 8, "nth"), For: kit.Pick(t, []int{s.TTL, s.TTL / 2, s.TTL - s.Renew, 2 * s.TTL}, "ms")}
		})
	}
	if faults {
		s.Faults = kit.List(t, 1, 3, "faults", func(t *rapid.T) FaultAt {
			return FaultAt{Actor: kit.N(t, n, "actor"), Op: kit.N(t, len(faultOps), "op"), Nth: kit.N(t, 10, "nth"), Kind: 1 + kit.N(t, 4, "kind")}
		})
	}
	return s
}

func init() {
	assume := []string{"SQLite stands in for MySQL: statements are atomic, a writing transaction is exclusive", "time is simulated (testing/synctest); the clocks of the processes agree",
		"a renewal can be made before the time-to-live ends"}
	run := func(id string) func(t *testing.T, s Scenario) kit.Outcome {
		return func(t *testing.T, s Scenario) kit.Outcome { return simulate(t, id, s) }
	}
	kit.Register(kit.Spec[Scenario]{ID: "C26", Quick: 6000, Thorough: 150000, Shards: 8, Rule: "several locks were granted and one was refused or taken over after it expired", Assumptions: assume,
		Gen: func(t *rapid.T) Scenario {
			return gen(t, []int{opLock, opLock, opLock, opAbandon}, kit.Pct(t, 40, "disturbed"), false)
		}, Run: run("C26")})
	kit.Register(kit.Spec[Scenario]{ID: "C27", Quick: 6000, Thorough: 150000, Shards: 8, Rule: "a function ran beyond the time-to-live, lost its lock, or met another process at the lock", Assumptions: assume,
		Gen: func(t *rapid.T) Scenario {
			return gen(t, []int{opRun, opRun, opRun, opLock}, kit.Pct(t, 50, "disturbed"), true)
		}, Run: run("C27")})
}
