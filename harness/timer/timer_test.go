// Package timer checks the database timer (C28, C29) on simdb: several instances of several
// services share one table; time, interleavings, faults and crashes are simulated.
package timer

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	timersql "github.com/bytedance/dddfirework/d_timer/sql"
	"github.com/go-logr/logr"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { time.Local = time.UTC; kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

// Inst is a timer instance (a process).
type Inst struct {
	Service  int   `json:"s,omitempty"`
	Interval int64 `json:"i"`               // ms
	Start    int64 `json:"at,omitempty"`    // ms
	Kill     int64 `json:"kill,omitempty"`  // ms, 0 never
	Twice    bool  `json:"twice,omitempty"` // is started twice
}

// Set is one call that sets a timer.
type Set struct {
	Inst int   `json:"i,omitempty"`
	Cron *Cron `json:"cron,omitempty"`
	In   int64 `json:"in,omitempty"` // ms from now, one-shot
	Zone int   `json:"z,omitempty"`  // hours
	Data int   `json:"d,omitempty"`
	Lag  int   `json:"lag,omitempty"` // µs after the others of its step
}

// Step is something that happens to a key: it is set by some instances at once, or cancelled.
type Step struct {
	Wait   int64 `json:"w,omitempty"`
	Sets   []Set `json:"sets,omitempty"`
	Cancel []int `json:"cancel,omitempty"` // by these instances
}

type Plan struct {
	Service int    `json:"s,omitempty"`
	Key     int    `json:"k"`
	Steps   []Step `json:"steps"`
}

type FaultAt struct {
	Inst int `json:"a"`
	Op   int `json:"op"` // 0 any, 1 INSERT, 2 COMMIT, 3 UPDATE, 4 SELECT, 5 DELETE, 6 BEGIN
	Nth  int `json:"n"`
	Kind int `json:"k"` // simdb.Fault
}

type Scenario struct {
	Insts   []Inst    `json:"insts"`
	Plans   []Plan    `json:"plans"`
	Durs    []int64   `json:"durs,omitempty"` // ms a callback takes
	Ends    []int     `json:"ends,omitempty"` // how it ends: 0 well, 1 error, 2 panic
	Lat     []int     `json:"lat,omitempty"`
	Reply   []int     `json:"reply,omitempty"`
	Faults  []FaultAt `json:"faults,omitempty"`
	Horizon int64     `json:"horizon"` // ms
}

var faultOps = []string{"", "INSERT", "COMMIT", "UPDATE", "SELECT", "DELETE", "BEGIN"}
var services = []string{"sale", "sale%", "склад", "Sale"}
var keys = []string{"order-1", "o'rder\"2`", "заказ 50%", "order-1 ", "k_y", "key", "Order-1"}
var payloads = []string{`{"a":1}`, "", "text\x00\n\t'\"", "данные", strings.Repeat("x", 5000)}

func ms(n int64) time.Duration { return time.Duration(n) * time.Millisecond }

func (s Set) payload(plan, step, i int) []byte {
	p := payloads[s.Data%len(payloads)]
	if s.Data%len(payloads) == 1 {
		return nil
	}
	return []byte(fmt.Sprintf("%s#%d.%d.%d", p, plan, step, i))
}

type firing struct {
	inst       int
	plan       int
	start, end time.Duration // end < 0: not ended
	data       []byte
	cron       string
	key        string
}

// cand is a set call that may have set the timer.
type cand struct {
	set    Set
	data   []byte
	due    time.Time // one-shot
	s, e   time.Duration
	failed bool
}

// life is a span in which a key is set.
type life struct {
	cands     []*cand
	setBy     time.Duration // the last of its calls returned
	from      time.Duration
	cancel    time.Duration // a cancel call began; < 0 never
	cancelled time.Duration // it returned without an error; < 0 never
	maybe     bool          // every call failed with an error of the store: it may not be set
	again     bool          // set after a one-shot timer of this key had finished: nothing is expected
}

type key struct {
	plan    int
	service int
	lives   []*life
	firings []*firing
	cross   bool // another service uses the same key
}

type inst struct {
	Inst
	actor  *simdb.Actor
	timer  *timersql.DBTimer
	born   time.Duration
	died   time.Duration // < 0 never
	faults []time.Duration
}

type world struct {
	s       Scenario
	prop    string
	st      *simdb.Store
	sim     *simdb.Sim
	mu      sync.Mutex
	fm      sync.Mutex
	o       *kit.Outcome
	t0      time.Time
	insts   []*inst
	keys    []*key
	firings []*firing
	fcount  map[int]int
	fdone   map[string]simdb.Fault
	calls   int
	stop    bool
	margin  time.Duration
	counts  map[string]int
}

var storeOnce sync.Once
var store *simdb.Store

func getStore() *simdb.Store {
	storeOnce.Do(func() { store = simdb.NewStore(&timersql.TimerJob{}) })
	return store
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) tracef(format string, args ...any) {
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s "+format+"\n", append([]any{w.now()}, args...)...)
	}
}

func (w *world) fault(a *simdb.Actor, n int, op string) simdb.Fault {
	id := fmt.Sprintf("%d/%d", a.ID, n)
	if f, ok := w.fdone[id]; ok {
		return f
	}
	if w.stop {
		return simdb.None
	}
	word := strings.ToUpper(op)
	res := simdb.None
	for k, f := range w.s.Faults {
		if f.Inst%len(w.s.Insts) != a.ID || f.Op > 0 && !strings.HasPrefix(word, faultOps[f.Op%len(faultOps)]) {
			continue
		}
		if w.fcount[k] == f.Nth && res == simdb.None {
			res = simdb.Fault(f.Kind)
		}
		w.fcount[k]++
	}
	w.fdone[id] = res
	if res != simdb.None {
		w.fm.Lock()
		i := w.insts[a.ID]
		i.faults = append(i.faults, w.now())
		if res == simdb.CrashAfter || res == simdb.CrashBefore {
			i.died = w.now()
		}
		w.fm.Unlock()
		w.tracef("instance %d: fault %d at %.60q", a.ID, res, op)
	}
	return res
}

func (w *world) latency(l []int, a *simdb.Actor, n int) time.Duration {
	jit := time.Duration(a.ID+1)*101 + time.Duration(n%97)*11
	if len(l) == 0 {
		return jit
	}
	return time.Duration(l[(n*7+a.ID*13)%len(l)])*time.Microsecond + jit
}

func (w *world) failf(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.o.Failf(format, args...)
}

func (w *world) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.o.Fail != ""
}

// shaken tells whether a fault hit an instance within a span, or it died in it.
func (w *world) shaken(i *inst, from, to time.Duration) bool {
	w.fm.Lock()
	defer w.fm.Unlock()
	for _, f := range i.faults {
		if f >= from && f <= to {
			return true
		}
	}
	return i.died >= 0 && i.died >= from && i.died <= to
}

func (w *world) handler(id int) func(ctx context.Context, key, cron string, data []byte) error {
	return func(ctx context.Context, k, cron string, data []byte) error {
		i := w.insts[id]
		i.actor.Check()
		w.mu.Lock()
		n := w.calls
		w.calls++
		f := &firing{inst: id, plan: -1, start: w.now(), end: -1, data: append([]byte(nil), data...), cron: cron, key: k}
		w.firings = append(w.firings, f)
		for _, kk := range w.keys {
			if kk.service == i.Service && keys[w.s.Plans[kk.plan].Key] == k {
				f.plan = kk.plan
				for _, g := range kk.firings {
					if g.end < 0 && !w.shaken(w.insts[g.inst], g.start, w.now()) {
						w.o.Failf("instance %d runs the timer %q of %s while instance %d runs it", id, k, services[i.Service], g.inst)
					}
				}
				kk.firings = append(kk.firings, f)
			}
		}
		w.tracef("instance %d fires %q %q %.40q", id, k, cron, data)
		if f.plan < 0 {
			w.o.Failf("instance %d of %s runs the timer %q (%q), which that service never set", id, services[i.Service], k, cron)
		}
		if ctx == nil {
			w.o.Failf("the callback gets no context")
		}
		w.mu.Unlock()
		if len(w.s.Durs) > 0 {
			if d := ms(w.s.Durs[n%len(w.s.Durs)]); d > 0 {
				time.Sleep(d)
			}
		}
		i.actor.Check()
		w.mu.Lock()
		f.end = w.now()
		w.mu.Unlock()
		if len(w.s.Ends) > 0 {
			switch w.s.Ends[n%len(w.s.Ends)] {
			case 1:
				w.count("callback-error")
				return errors.New("callback failed")
			case 2:
				w.count("callback-panic")
				panic("callback panics")
			}
		}
		return nil
	}
}

func (w *world) count(k string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.counts[k]++
}

func simulate(t *testing.T, prop string, s Scenario) (o kit.Outcome) {
	st := getStore()
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, prop: prop, st: st, sim: simdb.NewSim(st), t0: time.Now(), o: &o, fcount: map[int]int{}, fdone: map[string]simdb.Fault{}, counts: map[string]int{}}
		if os.Getenv("VERIF_TRACE") == "2" {
			w.sim.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
		}
		w.run()
	})
	return o
}

func maxOf(l []int) (m int) {
	for _, x := range l {
		m = max(m, x)
	}
	return
}

func (w *world) run() {
	n := len(w.s.Insts)
	l := time.Duration(maxOf(w.s.Lat)+maxOf(w.s.Reply)+30) * time.Microsecond
	w.margin = time.Duration((len(w.s.Plans)+2)*8*(n+1))*l + 5*time.Millisecond
	w.sim.Latency = func(a *simdb.Actor, n int) time.Duration { return w.latency(w.s.Lat, a, n) }
	if len(w.s.Reply) > 0 {
		w.sim.Reply = func(a *simdb.Actor, n int) time.Duration { return w.latency(w.s.Reply, a, n) }
	}
	w.sim.Fault = w.fault
	used := map[int]int{}
	for i, p := range w.s.Plans {
		w.keys = append(w.keys, &key{plan: i, service: p.Service})
		used[p.Key]++
	}
	for i, p := range w.s.Plans {
		w.keys[i].cross = used[p.Key] > 1
	}
	for id, in := range w.s.Insts {
		w.insts = append(w.insts, &inst{Inst: in, actor: w.sim.Actor(id), died: -1, born: ms(in.Start)})
	}
	for id, i := range w.insts {
		i.timer = timersql.NewDBTimer(services[i.Service], i.actor.Gorm(), func(o *timersql.Options) { o.Logger = logr.Discard() },
			func(o *timersql.Options) { o.RunInterval = ms(i.Interval) })
		i.timer.RegisterTimerHandler(w.handler(id))
	}
	w.t0 = time.Now()
	var wg sync.WaitGroup
	for id, i := range w.insts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(i.Start) + time.Duration(id)*7*time.Microsecond)
			i.timer.Start(context.Background())
			if i.Twice {
				i.timer.Start(context.Background())
			}
		}()
		if i.Kill > 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(ms(i.Kill))
				w.fm.Lock()
				if i.died < 0 {
					i.died = w.now()
				}
				w.fm.Unlock()
				w.tracef("instance %d dies", id)
				i.actor.Kill()
			}()
		}
	}
	for k := range w.s.Plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(k) * 3 * time.Microsecond)
			for n, st := range w.s.Plans[k].Steps {
				time.Sleep(ms(st.Wait))
				if w.failed() || w.now() > ms(w.s.Horizon) {
					return
				}
				if len(st.Sets) > 0 {
					w.set(k, n, st)
				} else {
					w.cancel(k, st)
				}
			}
		}()
	}
	time.Sleep(ms(w.s.Horizon))
	wg.Wait()
	w.mu.Lock()
	w.stop = true
	w.judge()
	w.mu.Unlock()
	w.sim.Stop()
	longest := time.Duration(0)
	for _, i := range w.insts {
		longest = max(longest, ms(i.Interval))
	}
	for _, d := range w.s.Durs {
		longest = max(longest, ms(d))
	}
	time.Sleep(2*longest + time.Second)
	synctest.Wait()
	runtime.Gosched()
	w.stats()
}

// finished tells whether a one-shot timer of this life has run, or may have.
func (w *world) finished(k *key, l *life) bool {
	for _, f := range k.firings {
		if f.start >= l.from {
			return true
		}
	}
	return false
}

func (w *world) set(k, n int, st Step) {
	kk := w.keys[k]
	name := keys[w.s.Plans[k].Key]
	w.mu.Lock()
	var cur *life
	if len(kk.lives) > 0 {
		if l := kk.lives[len(kk.lives)-1]; l.cancelled < 0 {
			cur = l
		}
	}
	nl := &life{from: w.now(), cancel: -1, cancelled: -1}
	w.mu.Unlock()
	var wg sync.WaitGroup
	var mu sync.Mutex
	accepted := 0
	for i, s := range st.Sets {
		in := w.insts[s.Inst]
		if in.Service != kk.service {
			kit.Harness("instance %d is not of service %d", s.Inst, kk.service)
		}
		wg.Add(1)
		go func() {
			done := false
			c := &cand{set: s, data: s.payload(k, n, i)}
			defer func() {
				if !done { // died
					c.failed, c.e = true, w.now()
					mu.Lock()
					nl.cands = append(nl.cands, c)
					mu.Unlock()
				}
				wg.Done()
			}()
			time.Sleep(time.Duration(s.Lag) * time.Microsecond)
			c.s = w.now()
			in.actor.Check()
			var err error
			ok := true
			if s.Cron != nil {
				ok = s.Cron.valid()
				err = in.timer.RunCron(name, s.Cron.text(), c.data)
			} else {
				c.due = time.Now().Add(ms(s.In)).In(time.FixedZone("z", s.Zone*3600))
				ok = s.In >= 0
				err = in.timer.RunOnce(name, c.due, c.data)
			}
			in.actor.Check()
			c.e = w.now()
			done = true
			w.tracef("instance %d sets %q (%s, %v) %.40q: %v", s.Inst, name, cronText(s.Cron), c.due, c.data, err)
			mu.Lock()
			defer mu.Unlock()
			if !ok {
				if err == nil {
					if s.Cron != nil {
						w.failf("the cron text %q is accepted", s.Cron.text())
					} else {
						w.failf("a time %v in the past is accepted", ms(-s.In))
					}
				}
				w.count("rejected")
				return
			}
			if err != nil {
				switch {
				case w.shaken(in, c.s, c.e):
					c.failed = true
				case kk.cross: // keys are shared by all services
					c.failed = true
					w.count("cross-refused")
				default:
					w.failf("instance %d of %s cannot set the timer %q (%s, %d others at once): %v", s.Inst, services[in.Service], name, cronText(s.Cron), len(st.Sets)-1, err)
					return
				}
			} else {
				accepted++
			}
			nl.cands = append(nl.cands, c)
		}()
	}
	wg.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(nl.cands) == 0 {
		return
	}
	nl.setBy = w.now()
	nl.maybe = accepted == 0
	if nl.maybe { // a call that failed may have set it, or not
		nl.again = true
	}
	switch {
	case cur == nil:
		kk.lives = append(kk.lives, nl)
	case cur.cancel >= 0 || cur.again: // a cancel call that failed, may have worked
		nl.again = true
		nl.cands = append(nl.cands, cur.cands...)
		nl.from = cur.from
		kk.lives[len(kk.lives)-1] = nl
	default:
		// it is set already; nothing changes
		w.counts["set-again"]++
		if w.finished(kk, cur) && cur.once() {
			w.counts["set-after-end"]++
			cur.again = true
			cur.cands = append(cur.cands, nl.cands...)
		}
	}
	if len(st.Sets) > 1 {
		w.counts["set-together"]++
	}
}

// once tells whether a candidate is a one-shot timer.
func (l *life) once() bool {
	for _, c := range l.cands {
		if c.set.Cron == nil {
			return true
		}
	}
	return false
}

func cronText(c *Cron) string {
	if c == nil {
		return "once"
	}
	return "cron " + c.text()
}

func (w *world) cancel(k int, st Step) {
	kk := w.keys[k]
	name := keys[w.s.Plans[k].Key]
	w.mu.Lock()
	var cur *life
	if len(kk.lives) > 0 {
		if cur = kk.lives[len(kk.lives)-1]; cur.cancelled >= 0 {
			cur = nil
		}
	}
	own := false
	for _, id := range st.Cancel {
		own = own || w.insts[id].Service == kk.service
	}
	if cur != nil && own {
		cur.cancel = w.now()
	}
	w.mu.Unlock()
	var wg sync.WaitGroup
	for _, id := range st.Cancel {
		in := w.insts[id]
		if in.Service != kk.service && kk.cross { // its own timer of that name has its own plan
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			in.actor.Check()
			from := w.now()
			err := in.timer.Cancel(name)
			in.actor.Check()
			w.mu.Lock()
			defer w.mu.Unlock()
			w.tracef("instance %d of %s cancels %q: %v", id, services[in.Service], name, err)
			if err != nil {
				switch {
				case w.shaken(in, from, w.now()):
				case w.now()-from >= 45*time.Second && len(w.s.Durs) > 0: // its callback ran too long to wait for
					w.counts["cancel-timeout"]++
				default:
					w.o.Failf("instance %d cannot cancel the timer %q: %v", id, name, err)
				}
				return
			}
			if cur == nil {
				return
			}
			if in.Service != kk.service {
				w.counts["cancel-foreign"]++
				return
			}
			w.counts["cancelled"]++
			if cur.cancelled < 0 {
				cur.cancelled = w.now()
			}
		}()
	}
	wg.Wait()
}

// judge compares what fired with what was set; w.mu is held.
func (w *world) judge() {
	for _, k := range w.keys {
		for n, l := range k.lives {
			until := time.Duration(1 << 62)
			if n+1 < len(k.lives) {
				until = k.lives[n+1].from
			}
			w.judgeLife(k, l, until)
		}
		for _, f := range k.firings { // outside of every life
			ok := false
			for _, l := range k.lives {
				ok = ok || f.start >= l.from && (l.cancelled < 0 || f.start <= l.cancelled)
			}
			if !ok {
				w.o.Failf("the timer %q of %s fires at %v by instance %d, when it is not set or after it was cancelled", f.key, services[k.service], f.start, f.inst)
			}
		}
	}
}

func (w *world) doubtful(f *firing) bool {
	to := f.end + w.margin
	if f.end < 0 {
		to = 1 << 62
	}
	return w.shaken(w.insts[f.inst], f.start, to)
}

// deadline is when a job due at a time has fired at the latest; ok is false if nobody has to.
func (w *world) deadline(service int, due time.Duration) (by time.Duration, who int, ok bool) {
	by = 1 << 62
	for id, i := range w.insts {
		if i.Service != service {
			continue
		}
		base := max(due, i.born)
		t := base + ms(i.Interval) + w.margin
		for last := time.Duration(0); t != last && t < 1<<60; { // what delays it, and what happens in the delay
			last = t
			t = base + ms(i.Interval) + w.margin
			for _, f := range w.firings {
				switch {
				case f.inst != id || f.start > last || f.end >= 0 && f.end <= base:
				case f.end < 0:
					t = 1 << 60
				default:
					t += f.end - max(f.start, base) + w.margin
				}
			}
			w.fm.Lock()
			for _, x := range i.faults {
				if x >= base-w.margin && x <= last {
					t += ms(i.Interval) + w.margin
				}
			}
			w.fm.Unlock()
		}
		w.fm.Lock()
		died := i.died
		w.fm.Unlock()
		if died >= 0 && died <= t {
			continue
		}
		if t < by {
			by, who, ok = t, id, true
		}
	}
	if by >= 1<<60 {
		ok = false
	}
	return
}

func (w *world) judgeLife(k *key, l *life, until time.Duration) {
	name := fmt.Sprintf("%q of %s", keys[w.s.Plans[k.plan].Key], services[k.service])
	var fs []*firing
	for _, f := range k.firings {
		if f.start >= l.from && f.start < until {
			fs = append(fs, f)
		}
	}
	end := w.now() // no firing is required from then on
	if l.cancel >= 0 {
		end = l.cancel
	}
	var win *cand
	for _, f := range fs {
		if l.cancelled >= 0 && f.start > l.cancelled {
			w.o.Failf("the timer %s fires at %v by instance %d although it was cancelled by %v", name, f.start, f.inst, l.cancelled)
			return
		}
		var got *cand
		for _, c := range l.cands {
			if bytes.Equal(f.data, c.data) && (c.set.Cron == nil && f.cron == "" || c.set.Cron != nil && f.cron == c.set.Cron.text()) {
				if got == nil || win == c {
					got = c
				}
			}
		}
		if got == nil {
			w.o.Failf("the timer %s fires with cron %q and payload %.60q, which was not set (%d candidates)", name, f.cron, f.data, len(l.cands))
			return
		}
		if win != nil && win != got && !l.again && !same(win, got) {
			w.o.Failf("the timer %s changes from payload %.60q to %.60q, cron %q to %q", name, win.data, got.data, cronText(win.set.Cron), cronText(got.set.Cron))
			return
		}
		if win == nil || !same(win, got) {
			win = got
		}
	}
	if l.again {
		return
	}
	if win == nil { // nothing fired: that must be right for one of the candidates
		for _, c := range l.cands {
			by, _, ok := w.deadline(k.service, w.firstDue(c, l))
			if !ok || by >= end {
				return
			}
		}
		by, who, _ := w.deadline(k.service, w.firstDue(l.cands[0], l))
		w.o.Failf("the timer %s (%s, %d candidates), due at %v, has not fired by %v, although instance %d polled in between", name, cronText(l.cands[0].set.Cron), len(l.cands), w.firstDue(l.cands[0], l), by, who)
		return
	}
	// candidates that look the same: one of them has to explain the firings
	var why string
	for _, c := range l.cands {
		if !same(c, win) {
			continue
		}
		if why = w.explain(k, l, c, fs, end, name); why == "" {
			return
		}
	}
	w.o.Failf("%s", why)
}

func same(a, b *cand) bool {
	return bytes.Equal(a.data, b.data) && cronText(a.set.Cron) == cronText(b.set.Cron)
}

func (w *world) firstDue(c *cand, l *life) time.Duration {
	if c.set.Cron == nil {
		return max(c.due.Sub(w.t0), c.e)
	}
	return max(c.set.Cron.next(w.t0.Add(c.e)).Sub(w.t0), c.e)
}

// explain checks the firings of one timer; it returns what is wrong.
func (w *world) explain(k *key, l *life, c *cand, fs []*firing, end time.Duration, name string) string {
	early := c.due.Sub(w.t0)
	if c.set.Cron != nil {
		early = c.set.Cron.next(w.t0.Add(c.s)).Sub(w.t0)
	}
	if fs[0].start < early {
		return fmt.Sprintf("the timer %s (%s) fires at %v, before its time %v", name, cronText(c.set.Cron), fs[0].start, early)
	}
	due := w.firstDue(c, l)
	for n, f := range fs {
		by, who, ok := w.deadline(k.service, due)
		if ok && f.start > by && by < end {
			return fmt.Sprintf("the timer %s (%s), due at %v, fires only at %v, although instance %d could have run it by %v", name, cronText(c.set.Cron), due, f.start, who, by)
		}
		doubt := w.doubtful(f)
		if n+1 < len(fs) {
			next := fs[n+1]
			if c.set.Cron == nil && !doubt {
				return fmt.Sprintf("the one-shot timer %s fires at %v by instance %d and again at %v by instance %d", name, f.start, f.inst, next.start, next.inst)
			}
			if c.set.Cron != nil && !doubt {
				if t := c.set.Cron.next(w.t0.Add(f.start)).Sub(w.t0); next.start < t {
					return fmt.Sprintf("the timer %s (%s) fires at %v (until %v) by instance %d and again at %v by instance %d, with no cron time in between (the next one is %v)", name, cronText(c.set.Cron), f.start, f.end, f.inst, next.start, next.inst, t)
				}
			}
		}
		if f.end < 0 && !doubt {
			return "" // still running
		}
		if c.set.Cron == nil {
			if !doubt {
				return ""
			}
			due = 1 << 60 // it may have been finished, or not
			if w.insts[f.inst].died >= 0 && f.end < 0 {
				due = max(w.insts[f.inst].died, f.start) // died while it ran: somebody else has to
			}
			continue
		}
		e := f.end
		if e < 0 {
			e = w.insts[f.inst].died
		}
		due = c.set.Cron.next(w.t0.Add(e + w.margin)).Sub(w.t0)
	}
	if by, who, ok := w.deadline(k.service, due); ok && due < 1<<60 && by < end {
		return fmt.Sprintf("the timer %s (%s) fired %d times, last at %v, and is due again at %v, but has not fired by %v although instance %d polled in between", name, cronText(c.set.Cron), len(fs), fs[len(fs)-1].start, due, by, who)
	}
	return ""
}

func (w *world) stats() {
	for _, k := range []string{"rejected", "cross-refused", "set-again", "set-after-end", "set-together", "cancelled", "cancel-foreign", "callback-error", "callback-panic"} {
		if w.counts[k] > 0 {
			w.o.Class("%s", k)
		}
	}
	if w.sim.Faults > 0 {
		w.o.Class("faults")
	}
	if w.sim.NoWaits > 0 {
		w.o.Class("nowait-refused")
	}
	once, cron, died := 0, 0, 0
	for _, k := range w.keys {
		byInst := map[int]bool{}
		for _, f := range k.firings {
			byInst[f.inst] = true
			if f.cron == "" {
				once++
			} else {
				cron++
			}
		}
		if len(byInst) > 1 {
			w.o.Class("timer-run-by-several-instances")
		}
	}
	for _, i := range w.insts {
		if i.died >= 0 {
			died++
		}
	}
	if died > 0 {
		w.o.Class("instance-died")
	}
	if once > 0 {
		w.o.Class("once-fired")
	}
	if cron > 0 {
		w.o.Class("cron-fired")
	}
	if cron > 10 {
		w.o.Class("cron-fired>10")
	}
	if w.prop == "C28" {
		w.o.Nontrivial = once+cron > 1
	} else {
		w.o.Nontrivial = once+cron > 0 && (len(w.insts) > 1 || w.counts["cancelled"] > 0)
	}
}

// ---- generators ----

func genSet(t *rapid.T, fine bool, insts []int, unit int64) Set {
	s := Set{Inst: kit.Pick(t, insts, "inst"), Data: kit.N(t, len(payloads), "data")}
	if kit.Pct(t, 60, "cron") {
		s.Cron = genCron(t, fine)
		return s
	}
	s.In = kit.Pick(t, []int64{0, 1, 500, unit, 3 * unit, 10*unit + 1, 25 * unit, -1, -unit}, "in")
	if s.In >= 0 && kit.Pct(t, 50, "odd") {
		s.In += int64(kit.N(t, int(min(unit, 1<<30)), "ms"))
	}
	s.Zone = kit.Pick(t, []int{0, 8, -5}, "zone")
	return s
}

func gen(t *rapid.T, shared bool) Scenario {
	var s Scenario
	fine := kit.Pct(t, 60, "fine")
	unit := int64(1000)
	if fine {
		unit = kit.Pick(t, []int64{1000, 200, 300, 2000, 5000}, "unit")
	} else {
		unit = kit.Pick(t, []int64{60e3, 600e3, 3600e3, 86400e3, 7 * 86400e3}, "unit")
	}
	nsvc := 1
	if shared {
		nsvc = 1 + kit.N(t, 2, "services")
	}
	polls := int64(60)
	var bySvc [][]int
	for v := 0; v < nsvc; v++ {
		n := 1
		if shared {
			n = 1 + kit.N(t, 3, "instances")
		}
		var l []int
		for i := 0; i < n; i++ {
			in := Inst{Service: v, Interval: unit, Twice: kit.Pct(t, 10, "twice")}
			if shared && kit.Pct(t, 30, "own interval") {
				in.Interval = unit * 2
			}
			if kit.Pct(t, 60, "phase") {
				in.Start = int64(kit.N(t, int(min(unit, 1<<30)), "phase"))
			}
			if shared && kit.Pct(t, 15, "dies") {
				in.Kill = 1 + unit*int64(kit.N(t, 30, "dies"))
			}
			l = append(l, len(s.Insts))
			s.Insts = append(s.Insts, in)
		}
		bySvc = append(bySvc, l)
	}
	s.Horizon = unit * polls
	if kit.Pct(t, 50, "busy") {
		s.Durs = kit.List(t, 1, 5, "durations", func(t *rapid.T) int64 {
			return kit.Pick(t, []int64{0, 1, 100, unit / 2, unit, unit*2 + 1, unit * 5}, "ms")
		})
	}
	if kit.Pct(t, 50, "ends") {
		s.Ends = kit.List(t, 1, 5, "ends", func(t *rapid.T) int { return kit.Pick(t, []int{0, 1, 1, 2}, "end") })
	}
	s.Lat = kit.List(t, 0, 6, "latency", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 3000}, "us") })
	if kit.Pct(t, 50, "slow") {
		s.Reply = kit.List(t, 1, 6, "reply", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 5000}, "us") })
	}
	type sk struct{ s, k int }
	taken := map[sk]bool{}
	n := kit.Range(t, 1, 5, "keys")
	for p := 0; p < n; p++ {
		pl := Plan{Service: kit.N(t, nsvc, "service"), Key: kit.N(t, len(keys), "key")}
		if shared && nsvc > 1 && kit.Pct(t, 70, "few keys") {
			pl.Key %= 2
		}
		if taken[sk{pl.Service, pl.Key}] {
			continue
		}
		taken[sk{pl.Service, pl.Key}] = true
		mine := bySvc[pl.Service]
		pl.Steps = kit.List(t, 1, 5, "steps", func(t *rapid.T) Step {
			st := Step{Wait: kit.Pick(t, []int64{0, 1, 10, unit / 2, unit, unit - 1, 5 * unit, 12 * unit}, "wait")}
			if kit.Pct(t, 30, "odd wait") {
				st.Wait = int64(kit.N(t, int(min(20*unit, 1<<30)), "ms"))
			}
			if kit.Pct(t, map[bool]int{true: 30, false: 15}[shared], "cancel") {
				st.Cancel = []int{kit.Pick(t, mine, "by")}
				if kit.Pct(t, 20, "also by") {
					st.Cancel = append(st.Cancel, kit.N(t, len(s.Insts), "by"))
				} else if shared && kit.Pct(t, 20, "foreign") {
					st.Cancel = []int{kit.N(t, len(s.Insts), "by")}
				}
				return st
			}
			c := 1
			if shared && kit.Pct(t, 40, "together") {
				c = 2 + kit.N(t, 2, "sets")
			}
			for i := 0; i < c; i++ {
				x := genSet(t, fine, mine, unit)
				if i > 0 {
					x.Lag = kit.Pick(t, []int{0, 0, 50, 300, 1000}, "lag")
				}
				st.Sets = append(st.Sets, x)
			}
			return st
		})
		s.Plans = append(s.Plans, pl)
	}
	if kit.Pct(t, 25, "faults") {
		kinds := []int{int(simdb.ErrBefore), int(simdb.ErrAfter)}
		if shared {
			kinds = append(kinds, int(simdb.CrashBefore), int(simdb.CrashAfter))
		}
		s.Faults = kit.List(t, 1, 4, "faults", func(t *rapid.T) FaultAt {
			return FaultAt{Inst: kit.N(t, len(s.Insts), "inst"), Op: kit.N(t, len(faultOps), "op"), Nth: kit.N(t, 40, "nth"), Kind: kit.Pick(t, kinds, "kind")}
		})
	}
	return s
}

func init() {
	assume := []string{"SQLite stands in for MySQL: statements are atomic, a writing transaction is exclusive, times are stored exactly", "time is simulated (testing/synctest); the clocks of the processes agree", "callbacks do not administer the timer they run for"}
	kit.Register(kit.Spec[Scenario]{ID: "C28", Quick: 8000, Thorough: 80000, Shards: 8, Rule: "timers fired at least twice", Assumptions: assume,
		Gen: func(t *rapid.T) Scenario { return gen(t, kit.Pct(t, 30, "shared")) }, Run: func(t *testing.T, s Scenario) kit.Outcome { return simulate(t, "C28", s) }})
	kit.Register(kit.Spec[Scenario]{ID: "C29", Quick: 8000, Thorough: 80000, Shards: 8, Rule: "timers fired, with several instances or after a cancel", Assumptions: assume,
		Gen: func(t *rapid.T) Scenario { return gen(t, true) }, Run: func(t *testing.T, s Scenario) kit.Outcome { return simulate(t, "C29", s) }})
}
