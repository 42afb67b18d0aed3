// Package stack checks engine, SQL executor, database event bus and database lock wired
// together (C31): several services with several instances each share a business database and
// a bus database; time, interleavings, faults and crashes are simulated.
package stack

import (
	"context"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	ddd "github.com/bytedance/dddfirework"
	bus "github.com/bytedance/dddfirework/eventbus/mysql"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	lockdb "github.com/bytedance/dddfirework/lock/db"
	"github.com/go-logr/logr"
	"github.com/robfig/cron"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

// ---- the domain ----

type Order struct {
	ddd.BaseEntity
	Note  string
	Run   string
	Lines []*Line
}

func (o *Order) GetChildren() map[string][]ddd.IEntity {
	l := []ddd.IEntity{}
	for _, x := range o.Lines {
		l = append(l, x)
	}
	return map[string][]ddd.IEntity{"lines": l}
}

type Line struct {
	ddd.BaseEntity
	N int
}

// accounts converts accounts, the other way to register a conversion.
type accounts struct{}

func (accounts) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
	a := e.(*Account)
	return &AccountPO{ID: a.GetID(), Balance: a.Balance}, nil
}

func (accounts) Model2Entity(po exec.IModel, do ddd.IEntity) error {
	do.SetID(po.GetID())
	do.(*Account).Balance = po.(*AccountPO).Balance
	return nil
}

type Account struct {
	ddd.BaseEntity
	Balance int
}

type OrderPO struct {
	ID   string `gorm:"primaryKey"`
	Note string
	Run  string
}
type LinePO struct {
	ID      string `gorm:"primaryKey"`
	OrderID string
	N       int
}
type AccountPO struct {
	ID      string `gorm:"primaryKey"`
	Balance int
}

func (p *OrderPO) GetID() string       { return p.ID }
func (p *LinePO) GetID() string        { return p.ID }
func (p *AccountPO) GetID() string     { return p.ID }
func (p *OrderPO) TableName() string   { return "s_order" }
func (p *LinePO) TableName() string    { return "s_line" }
func (p *AccountPO) TableName() string { return "s_account" }

// Evt is the event of an order.
type Evt struct {
	ID    string
	Order string
	Run   string
	Kind  int
}

var kinds = []ddd.EventType{"stack.plain", "stack.tx", "stack.fifo", "stack.unchecked"}

func (e *Evt) GetType() ddd.EventType { return kinds[e.Kind] }
func (e *Evt) GetSender() string      { return e.Order }

// ---- scenarios ----

type Ev struct {
	Kind  int   `json:"k,omitempty"` // 0 plain, 1 transactional, 2 transactional of another type, 3 ordered
	Fails []int `json:"f,omitempty"` // per service: how many attempts fail first
	Dur   int   `json:"d,omitempty"` // ms
	Chain bool  `json:"c,omitempty"` // the first service runs a command of its own for it, which sends another event
}

const (
	ok        = iota
	fails     // the command's function returns an error
	panics    // it panics
	breaks    // it asks to end without saving
	duplicate // a row it adds exists already
	nOuts
)

type Cmd struct {
	At     int  `json:"at"`
	Inst   int  `json:"i,omitempty"`
	Evs    []Ev `json:"evs"`
	Out    int  `json:"out,omitempty"`
	Dur    int  `json:"d,omitempty"`  // ms
	Acct   int  `json:"a,omitempty"`  // 0 none; changes that account under its lock
	Lines  int  `json:"l,omitempty"`  // lines added
	Cancel int  `json:"c,omitempty"`  // ms after which the caller cancels
	Later  int  `json:"lt,omitempty"` // the order is changed by a second command, ms later
}

type Svc struct {
	Inst    []int `json:"inst"` // start offsets, ms
	Run     int   `json:"run"`
	Limit   int   `json:"limit,omitempty"`
	Timeout int   `json:"to"`
}

type FaultAt struct {
	Inst int  `json:"i"`
	Biz  bool `json:"biz,omitempty"`
	Op   int  `json:"op"`
	Nth  int  `json:"n"`
	Kind int  `json:"k"`
}

type Kill struct {
	Inst int `json:"i"`
	At   int `json:"at"`
}

type Scenario struct {
	Svcs   []Svc     `json:"svcs"`
	Cmds   []Cmd     `json:"cmds"`
	Lat    []int     `json:"lat,omitempty"`
	Kills  []Kill    `json:"kills,omitempty"`
	Faults []FaultAt `json:"faults,omitempty"`
}

var faultOps = []string{"", "INSERT", "COMMIT", "UPDATE", "SELECT", "DELETE", "BEGIN", "ROLLBACK"}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

type attempt struct {
	inst       *inst
	start, end time.Duration
	done, ok   bool
}

type event struct {
	id    string
	ev    Ev
	order string
	cmd   *cmd
	att   [][]*attempt
}

type cmd struct {
	Cmd
	name    string
	run     string
	inst    *inst
	started bool
	done    bool
	res     *ddd.Result
	panic   any
	inMain  bool
	evs     []*event
	from    time.Duration
	to      time.Duration
	later   bool // the second command succeeded
}

type inst struct {
	svc, idx int
	busA     *simdb.Actor
	bizA     *simdb.Actor
	b        *bus.EventBus
	eng      *ddd.Engine
	faults   []time.Duration
	died     time.Duration
}

func (i *inst) check() { i.busA.Check(); i.bizA.Check() }

// tagBus tells handlers which instance they run in.
type tagBus struct {
	*bus.EventBus
	i *inst
}

type who struct{}

func (b tagBus) RegisterEventHandler(cb ddd.DomainEventHandler) {
	b.EventBus.RegisterEventHandler(func(ctx context.Context, evt *ddd.DomainEvent) error {
		return cb(context.WithValue(ctx, who{}, b.i), evt)
	})
}

type world struct {
	s      Scenario
	biz    *simdb.Store
	bus    *simdb.Store
	bizS   *simdb.Sim
	busS   *simdb.Sim
	o      *kit.Outcome
	mu     sync.Mutex
	fm     sync.Mutex
	t0     time.Time
	insts  []*inst
	cmds   []*cmd
	events map[string]*event
	crons  []*cron.Cron
	fcount map[int]int
	fdone  map[string]simdb.Fault
	quiet  bool
	counts map[string]int
	runs   int
}

var cur *world
var once sync.Once
var bizStore, busStore *simdb.Store

func stores() (*simdb.Store, *simdb.Store) {
	once.Do(func() {
		bizStore = simdb.NewStore(&OrderPO{}, &LinePO{}, &AccountPO{})
		busStore = simdb.NewStore(&bus.EventPO{}, &bus.ServicePO{}, &bus.ServiceEventPO{}, &bus.Transaction{}, &lockdb.ResourceLock{})
		exec.RegisterEntity2Model(&Order{}, func(e, p ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
			o := e.(*Order)
			return &OrderPO{ID: o.GetID(), Note: o.Note, Run: o.Run}, nil
		}, func(po exec.IModel, do ddd.IEntity) error {
			do.SetID(po.GetID())
			do.(*Order).Note, do.(*Order).Run = po.(*OrderPO).Note, po.(*OrderPO).Run
			return nil
		})
		exec.RegisterEntity2Model(&Line{}, func(e, p ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
			l := e.(*Line)
			return &LinePO{ID: l.GetID(), OrderID: p.GetID(), N: l.N}, nil
		}, func(po exec.IModel, do ddd.IEntity) error {
			do.SetID(po.GetID())
			do.(*Line).N = po.(*LinePO).N
			return nil
		})
		exec.RegisterConverter(&Account{}, accounts{})
		for _, k := range kinds {
			ddd.RegisterEventHandler(k, func(ctx context.Context, e *Evt) error { return cur.handle(ctx, e) })
		}
		ddd.RegisterEventTXChecker(kinds[1], func(e *Evt) ddd.TXStatus { return cur.check(e) })
		ddd.RegisterEventTXChecker(kinds[3], func(e *Evt) ddd.TXStatus { return cur.check(e) })
		// the executor keeps what it learns about models; it has to learn it outside of the simulation
		ex := exec.NewExecutor(bizStore.Gorm())
		for _, m := range []ddd.IModel{&OrderPO{ID: "x"}, &LinePO{ID: "x"}, &AccountPO{ID: "x"}} {
			for _, op := range []ddd.OpType{ddd.OpInsert, ddd.OpUpdate, ddd.OpDelete} {
				if err := ex.Exec(context.Background(), &ddd.Action{Op: op, Models: []ddd.IModel{m}, PrevModels: []ddd.IModel{m}}); err != nil {
					kit.Harness("stack: %v", err)
				}
			}
		}
	})
	return bizStore, busStore
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) tracef(format string, args ...any) {
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s "+format+"\n", append([]any{w.now()}, args...)...)
	}
}

func (w *world) failf(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.o.Failf(format, args...)
}

func (w *world) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.o.Fail != ""
}

func svcName(n int) string { return fmt.Sprintf("svc%d", n) }

func (w *world) first() (n int) {
	for _, v := range w.s.Svcs {
		n += len(v.Inst)
	}
	return
}

func (w *world) fault(biz bool) func(a *simdb.Actor, n int, op string) simdb.Fault {
	return func(a *simdb.Actor, n int, op string) simdb.Fault {
		w.fm.Lock()
		defer w.fm.Unlock()
		id := fmt.Sprintf("%v/%d/%d", biz, a.ID, n)
		if f, ok := w.fdone[id]; ok {
			return f
		}
		if w.quiet {
			return simdb.None
		}
		word := strings.ToUpper(op)
		res := simdb.None
		for k, f := range w.s.Faults {
			if f.Inst%w.first() != a.ID || f.Biz != biz || f.Op > 0 && !strings.HasPrefix(word, faultOps[f.Op%len(faultOps)]) {
				continue
			}
			if w.fcount[k] == f.Nth && res == simdb.None {
				res = simdb.Fault(f.Kind)
			}
			w.fcount[k]++
		}
		w.fdone[id] = res
		if res != simdb.None {
			i := w.insts[a.ID]
			i.faults = append(i.faults, w.now())
			w.tracef("instance %d: fault %d (business database: %v) at %.70q", a.ID, res, biz, op)
		}
		return res
	}
}

func (w *world) latency(biz bool) func(a *simdb.Actor, n int) time.Duration {
	return func(a *simdb.Actor, n int) time.Duration {
		jit := time.Duration(a.ID+1)*101 + time.Duration(n%97)*11
		if biz {
			jit += 37
		}
		w.fm.Lock()
		defer w.fm.Unlock()
		if len(w.s.Lat) == 0 || w.quiet {
			return jit
		}
		return time.Duration(w.s.Lat[(n*7+a.ID*13)%len(w.s.Lat)])*time.Microsecond + jit
	}
}

func (w *world) start(svc int) *inst {
	v := w.s.Svcs[svc]
	i := &inst{svc: svc, died: -1}
	w.fm.Lock()
	i.idx = len(w.insts)
	w.insts = append(w.insts, i)
	w.fm.Unlock()
	i.busA, i.bizA = w.busS.Actor(i.idx), w.bizS.Actor(i.idx)
	die := func() {
		w.fm.Lock()
		if i.died < 0 {
			i.died = w.now()
		}
		w.fm.Unlock()
		i.busA.Kill()
		i.bizA.Kill()
	}
	i.busA.OnDeath, i.bizA.OnDeath = die, die
	g := i.busA.Gorm()
	i.b = bus.NewEventBus(svcName(svc), g, func(o *bus.Options) {
		o.Logger = logr.Discard()
		o.RunInterval = ms(v.Run)
		if v.Limit > 0 {
			o.LimitPerRun = v.Limit
		}
		o.RetryInterval, o.RetryLimit = 50*time.Millisecond, 8
		o.TXCheckTimeout = ms(v.Timeout)
		o.CleanCron = "@every 10000h"
	})
	lock := lockdb.NewDBLock(g, 20*time.Second, func(o *lockdb.Options) { o.Logger = logr.Discard() })
	i.eng = ddd.NewEngine(lock, exec.NewExecutor(i.bizA.Gorm()), append(i.b.Options(), ddd.WithEventBus(tagBus{i.b, i}), ddd.WithLogger(logr.Discard()))...)
	w.mu.Lock()
	w.crons = append(w.crons, cronsOf(i.b)...)
	w.mu.Unlock()
	i.b.Start(context.Background())
	return i
}

// cronsOf finds the schedulers of a bus, to stop them at the end.
func cronsOf(b any) (l []*cron.Cron) {
	v := reflect.ValueOf(b).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*cron.Cron)(nil)) && !f.IsNil() {
			l = append(l, (*cron.Cron)(unsafe.Pointer(f.Pointer())))
		}
	}
	return
}

// stored tells whether an order is stored (by a run of its command, if one is given).
func (w *world) stored(order, run string) bool {
	var n int
	if err := w.biz.DB.QueryRow("SELECT count(*) FROM s_order WHERE id=? AND (run=? OR ?='')", order, run, run).Scan(&n); err != nil {
		kit.Harness("stored: %v", err)
	}
	return n > 0
}

func (w *world) check(e *Evt) ddd.TXStatus {
	w.mu.Lock()
	w.counts["asked"]++
	w.mu.Unlock()
	ans := ddd.TXRollBack
	if w.stored(e.Order, e.Run) {
		ans = ddd.TXCommit
	}
	w.tracef("asked about %s: %v", e.ID, ans)
	return ans
}

func isTX(kind int) bool { return kind == 1 || kind == 2 }

func (w *world) handle(ctx context.Context, e *Evt) error {
	i, okk := ctx.Value(who{}).(*inst)
	if !okk {
		w.failf("the context of a handler is not the one the bus passed")
		return nil
	}
	i.check()
	w.mu.Lock()
	ev := w.events[e.ID]
	if ev == nil || ev.order != e.Order {
		w.o.Failf("%s handles an event nobody sent: %+v", svcName(i.svc), e)
		w.mu.Unlock()
		return nil
	}
	a := &attempt{inst: i, start: w.now(), end: -1}
	n := len(ev.att[i.svc])
	ev.att[i.svc] = append(ev.att[i.svc], a)
	w.tracef("instance %d (%s) handles %s, attempt %d", i.idx, svcName(i.svc), e.ID, n)
	w.mu.Unlock()
	if isTX(ev.ev.Kind) && !w.stored(e.Order, e.Run) {
		w.failf("%s handles the transactional event %s of %s, whose writes are not committed", svcName(i.svc), e.ID, e.Order)
	}
	if ev.ev.Dur > 0 {
		time.Sleep(ms(ev.ev.Dur))
	}
	i.check()
	var err error
	if ev.ev.Chain && i.svc == 0 {
		err = w.chain(i, ev)
		i.check()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if i.svc < len(ev.ev.Fails) && n < ev.ev.Fails[i.svc] {
		err = errors.New("handler failed")
	}
	a.done, a.ok, a.end = true, err == nil, w.now()
	return err
}

// chain runs a command on behalf of a handler, at most once successfully.
func (w *world) chain(i *inst, ev *event) error {
	name := "chain-" + ev.id
	if w.stored(name, "") {
		return nil
	}
	w.mu.Lock()
	c := &cmd{Cmd: Cmd{Evs: []Ev{{Kind: 1}}, Lines: 1}, name: name, inst: i, from: w.now()}
	w.cmds = append(w.cmds, c)
	w.mu.Unlock()
	return w.exec(i, c, context.Background()).Error
}

// exec runs a command; it ends the goroutine if the process dies.
func (w *world) exec(i *inst, c *cmd, ctx context.Context) (res *ddd.Result) {
	stage := i.eng.NewStage()
	if c.Acct > 0 {
		stage = stage.Lock(fmt.Sprintf("acct-%d", c.Acct))
	}
	w.mu.Lock()
	c.started, c.from = true, w.now()
	w.runs++
	c.run = fmt.Sprint(w.runs)
	w.mu.Unlock()
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		c.to = w.now()
		if p := recover(); p != nil {
			c.panic, c.done = p, true
			c.res = ddd.ResultErrors(fmt.Errorf("panic %v", p))
			res = c.res
		}
		w.tracef("instance %d: command %s ends: %v", i.idx, c.name, c.res)
	}()
	res = stage.Main(func(ctx context.Context, repo *ddd.Repository) error {
		i.check()
		o := &Order{Note: "new", Run: c.run}
		o.SetID(c.name)
		for k := 0; k < c.Lines; k++ {
			l := &Line{N: k}
			l.SetID(fmt.Sprintf("%s/%d", c.name, k))
			o.Lines = append(o.Lines, l)
		}
		w.mu.Lock()
		c.inMain = true
		for k, ev := range c.Evs {
			e := &event{id: fmt.Sprintf("%s.%s.%d", c.name, c.run, k), ev: ev, order: c.name, cmd: c, att: make([][]*attempt, len(w.s.Svcs))}
			w.events[e.id] = e
			c.evs = append(c.evs, e)
			kind := []int{0, 1, 3, 2}[ev.Kind]
			st := []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeTransaction, ddd.SendTypeFIFO}[ev.Kind]
			o.AddEvent(&Evt{ID: e.id, Order: c.name, Run: c.run, Kind: kind}, ddd.WithSendType(st))
		}
		w.mu.Unlock()
		repo.Add(o)
		if c.Acct > 0 {
			a := &Account{}
			a.SetID(fmt.Sprintf("acct-%d", c.Acct))
			if err := repo.Get(ctx, a); err != nil {
				return err
			}
			a.Balance += 1 + c.Lines
			a.Dirty()
		}
		if c.Dur > 0 {
			time.Sleep(ms(c.Dur))
		}
		i.check()
		switch c.Out {
		case fails:
			return errors.New("command failed")
		case panics:
			panic("command panics")
		case breaks:
			return ddd.ErrBreak
		case duplicate:
			x := &Account{}
			x.SetID("acct-1")
			repo.Add(x)
		}
		return nil
	}).Save(ctx)
	i.check()
	w.mu.Lock()
	c.res, c.done = res, true
	w.mu.Unlock()
	return res
}

func (w *world) runCmd(c *cmd) {
	i := c.inst
	time.Sleep(ms(c.At))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if c.Cancel > 0 {
		tm := time.AfterFunc(ms(c.Cancel), cancel)
		defer tm.Stop()
	}
	i.check()
	res := w.exec(i, c, ctx)
	if res.Error != nil || res.Break || c.Later == 0 {
		return
	}
	time.Sleep(ms(c.Later))
	i.check()
	res = i.eng.NewStage().Main(func(ctx context.Context, repo *ddd.Repository) error {
		o := &Order{}
		o.SetID(c.name)
		if err := repo.Get(ctx, o); err != nil {
			return err
		}
		o.Note = "changed"
		o.Dirty()
		return nil
	}).Save(context.Background())
	i.check()
	w.mu.Lock()
	defer w.mu.Unlock()
	c.later = res.Error == nil
	if res.Error != nil && !w.shaken(i, c.to, w.now()) {
		w.o.Failf("changing the stored %s fails: %v", c.name, res.Error)
	}
}

// shaken tells whether a fault hit an instance within a span, or it died in it.
func (w *world) shaken(i *inst, from, to time.Duration) bool {
	w.fm.Lock()
	defer w.fm.Unlock()
	for _, f := range i.faults {
		if f >= from && f <= to {
			return true
		}
	}
	return i.died >= 0 && i.died >= from && i.died <= to
}

func simulate(t *testing.T, s Scenario) (o kit.Outcome) {
	biz, b := stores()
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, biz: biz, bus: b, bizS: simdb.NewSim(biz), busS: simdb.NewSim(b), t0: time.Now(), o: &o, events: map[string]*event{},
			fcount: map[int]int{}, fdone: map[string]simdb.Fault{}, counts: map[string]int{}}
		cur = w
		if os.Getenv("VERIF_TRACE") == "2" {
			w.bizS.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, "BIZ "+f+"\n", a...) }
			w.busS.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, "BUS "+f+"\n", a...) }
		}
		w.run()
	})
	return o
}

func (w *world) run() {
	for k := 1; k <= 2; k++ {
		w.biz.Exec("INSERT INTO s_account (id, balance) VALUES (?, 0)", fmt.Sprintf("acct-%d", k))
	}
	w.quiet = true
	w.bizS.Latency, w.busS.Latency = w.latency(true), w.latency(false)
	w.bizS.Fault, w.busS.Fault = w.fault(true), w.fault(false)
	// every service has to be known before the first event
	first := w.first()
	for k, v := range w.s.Svcs {
		for range v.Inst {
			w.start(k)
		}
	}
	time.Sleep(10 * time.Millisecond)
	w.fm.Lock()
	w.quiet = false
	w.fm.Unlock()
	var wg sync.WaitGroup
	for k, c := range w.s.Cmds {
		cm := &cmd{Cmd: c, name: fmt.Sprintf("cmd-%d", k), inst: w.insts[c.Inst%first]}
		w.cmds = append(w.cmds, cm)
	}
	for _, cm := range append([]*cmd(nil), w.cmds...) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.runCmd(cm)
		}()
	}
	for _, k := range w.s.Kills {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(k.At))
			i := w.insts[k.Inst%first]
			w.fm.Lock()
			if i.died < 0 {
				i.died = w.now()
			}
			w.fm.Unlock()
			w.tracef("instance %d dies", i.idx)
			i.busA.Kill()
			i.bizA.Kill()
		}()
	}
	wg.Wait()
	time.Sleep(20 * time.Millisecond) // whoever is to die is dead
	w.fm.Lock()
	w.quiet = true
	w.fm.Unlock()
	for k := range w.s.Svcs {
		alive := false
		for _, i := range w.insts {
			alive = alive || i.svc == k && !i.busA.Dead()
		}
		if !alive {
			w.start(k)
		}
	}
	longest, runs := 0, 0
	for _, v := range w.s.Svcs {
		longest, runs = max(longest, v.Timeout), max(runs, v.Run)
	}
	limit := w.now() + 3*ms(longest) + 30*time.Second + 100*ms(runs)
	for w.now() < limit && !w.failed() && !w.complete() {
		time.Sleep(ms(runs))
	}
	time.Sleep(2*ms(longest) + 5*ms(runs)) // nothing may happen afterwards
	w.mu.Lock()
	w.judge()
	w.mu.Unlock()
	w.bizS.Stop()
	w.busS.Stop()
	for _, c := range w.crons {
		c.Stop()
	}
	time.Sleep(5*time.Second + 2*ms(runs))
	synctest.Wait()
	runtime.Gosched()
}

// wanted tells whether an event has to be handled.
func (w *world) wanted(e *event) bool {
	c := e.cmd
	if isTX(e.ev.Kind) {
		return w.stored(c.name, c.run)
	}
	return c.done && c.res.Error == nil && !c.res.Break
}

func (w *world) complete() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.events {
		if !w.wanted(e) {
			continue
		}
		for _, l := range e.att {
			n := 0
			for _, a := range l {
				if a.ok {
					n++
				}
			}
			if n == 0 {
				return false
			}
		}
	}
	return true
}

func (w *world) judge() {
	var ids []string
	for id := range w.events {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	balance := map[int]int{}
	for _, c := range w.cmds {
		if !c.started {
			continue
		}
		st := w.stored(c.name, c.run)
		hit := w.shaken(c.inst, c.from, max(c.to, c.from)) || !c.done
		if c.done {
			switch {
			case c.res.Error == nil && !c.res.Break && !st:
				w.o.Failf("the command %s succeeded, but its order is not stored", c.name)
			case (c.res.Error != nil || c.res.Break) && st && !hit:
				w.o.Failf("the command %s failed (%v, break %v), but its order is stored", c.name, c.res.Error, c.res.Break)
			case c.res.Error != nil && c.Out == ok && !hit && c.Cancel == 0 && !(c.Acct > 0 && strings.Contains(c.res.Error.Error(), "locked")):
				w.o.Failf("the command %s fails: %v", c.name, c.res.Error)
			}
		}
		var lines int
		if err := w.biz.DB.QueryRow("SELECT count(*) FROM s_line WHERE order_id=?", c.name).Scan(&lines); err != nil {
			kit.Harness("lines: %v", err)
		}
		if want := map[bool]int{true: c.Lines}[st]; lines != want && st == w.stored(c.name, "") {
			w.o.Failf("the order of %s is stored: %v, with %d lines instead of %d", c.name, st, lines, want)
		}
		if c.later {
			var note string
			if err := w.biz.DB.QueryRow("SELECT note FROM s_order WHERE id=?", c.name).Scan(&note); err != nil || note != "changed" {
				w.o.Failf("the order of %s was changed, but is stored with note %q (%v)", c.name, note, err)
			}
		}
		if st && c.Acct > 0 {
			balance[c.Acct] += 1 + c.Lines
		}
		switch {
		case st && c.done && c.res.Error == nil:
			w.counts["committed"]++
		case st:
			w.counts["committed-unreported"]++
		case c.done && c.Out != ok:
			w.counts["failed-by-itself"]++
		case !c.done:
			w.counts["died"]++
		default:
			w.counts["failed"]++
		}
	}
	for k := 1; k <= 2; k++ {
		var b int
		if err := w.biz.DB.QueryRow("SELECT balance FROM s_account WHERE id=?", fmt.Sprintf("acct-%d", k)).Scan(&b); err != nil {
			kit.Harness("balance: %v", err)
		}
		if b != balance[k] {
			w.o.Failf("the account %d has the balance %d, the committed commands add up to %d", k, b, balance[k])
		}
	}
	tx := 0
	for _, id := range ids {
		e := w.events[id]
		want := w.wanted(e)
		for svc, l := range e.att {
			certain := 0
			for n, a := range l {
				if certain > 0 {
					w.o.Failf("%s handles %s again (attempt %d at %v) although it has handled it", svcName(svc), id, n, a.start)
				}
				if a.ok && !w.shaken(a.inst, a.start, a.end+50*time.Millisecond) {
					certain++
				}
			}
			handled := false
			for _, a := range l {
				handled = handled || a.ok
			}
			switch {
			case want && !handled:
				w.o.Failf("%s never handles %s (kind %d) of the committed command %s (%d attempts)", svcName(svc), id, e.ev.Kind, e.cmd.name, len(l))
			case isTX(e.ev.Kind) && !want && len(l) > 0:
				w.o.Failf("%s handles the transactional event %s of %s, which is not stored", svcName(svc), id, e.cmd.name)
			}
			if isTX(e.ev.Kind) && handled {
				tx++
			}
		}
	}
	var pending int
	if err := w.bus.DB.QueryRow("SELECT count(*) FROM ddd_event_transaction").Scan(&pending); err != nil {
		kit.Harness("pending: %v", err)
	}
	if pending > 0 {
		w.o.Failf("%d transactions are left undecided", pending)
	}
	for _, k := range []string{"committed", "committed-unreported", "failed-by-itself", "died", "failed", "asked"} {
		if w.counts[k] > 0 {
			w.o.Class("%s", k)
		}
	}
	if w.bizS.Faults+w.busS.Faults > 0 {
		w.o.Class("faults")
	}
	if len(w.cmds) > len(w.s.Cmds) {
		w.o.Class("chained")
	}
	w.o.Nontrivial = tx > 0 && (w.counts["asked"] > 0 || w.counts["failed-by-itself"]+w.counts["failed"]+w.counts["died"] > 0)
}

// ---- generators ----

func gen(t *rapid.T) Scenario {
	var s Scenario
	n := kit.Range(t, 1, 2, "services")
	to := kit.Pick(t, []int{3000, 10000}, "timeout")
	insts := 0
	for k := 0; k < n; k++ {
		v := Svc{Run: kit.Pick(t, []int{200, 100, 500, 1000}, "run"), Timeout: to, Limit: kit.Pick(t, []int{0, 0, 1, 3}, "limit")}
		v.Inst = make([]int, kit.Range(t, 1, 2, "instances"))
		insts += len(v.Inst)
		s.Svcs = append(s.Svcs, v)
	}
	s.Lat = kit.List(t, 0, 5, "latency", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 3000}, "us") })
	s.Cmds = kit.List(t, 1, 6, "commands", func(t *rapid.T) Cmd {
		c := Cmd{At: kit.Pick(t, []int{0, 1, 20, 300, 2000}, "at"), Inst: kit.N(t, insts, "instance"), Lines: kit.N(t, 3, "lines")}
		c.Evs = kit.List(t, 0, 4, "events", func(t *rapid.T) Ev {
			e := Ev{Kind: kit.Pick(t, []int{1, 1, 1, 0, 2, 3}, "kind"), Dur: kit.Pick(t, []int{0, 0, 1, 50}, "ms"), Chain: kit.Pct(t, 15, "chain")}
			if kit.Pct(t, 30, "fails") {
				for range s.Svcs {
					e.Fails = append(e.Fails, kit.N(t, 3, "fails"))
				}
			}
			return e
		})
		if kit.Pct(t, 35, "fails") {
			c.Out = kit.N(t, nOuts, "out")
		}
		if kit.Pct(t, 40, "slow") {
			c.Dur = kit.Pick(t, []int{1, 20, 200}, "ms")
		}
		if kit.Pct(t, 30, "account") {
			c.Acct = kit.Range(t, 1, 2, "account")
		}
		if kit.Pct(t, 15, "cancel") {
			c.Cancel = kit.Pick(t, []int{1, 5, 50}, "cancel")
		}
		if kit.Pct(t, 20, "later") {
			c.Later = kit.Pick(t, []int{1, 500, 4000}, "later")
		}
		return c
	})
	if kit.Pct(t, 25, "kills") {
		s.Kills = kit.List(t, 1, 2, "kills", func(t *rapid.T) Kill {
			return Kill{Inst: kit.N(t, insts, "instance"), At: kit.Pick(t, []int{5, 25, 310, 1000, 2010, 4000}, "at") + kit.N(t, 10, "ms")}
		})
	}
	if kit.Pct(t, 60, "faults") {
		s.Faults = kit.List(t, 1, 3, "faults", func(t *rapid.T) FaultAt {
			f := FaultAt{Inst: kit.N(t, insts, "instance"), Biz: kit.Pct(t, 50, "business"), Op: kit.N(t, len(faultOps), "op"), Nth: kit.N(t, 12, "nth"), Kind: 1 + kit.N(t, 4, "kind")}
			if f.Biz {
				f.Nth %= 4
			}
			return f
		})
	}
	return s
}

func init() {
	kit.Register(kit.Spec[Scenario]{ID: "C31", Quick: 2400, Thorough: 60000, Shards: 8, Rule: "a transactional event was handled and a command failed or had to be asked about",
		Assumptions: []string{"SQLite stands in for MySQL; business rows and bus tables are in two databases", "time is simulated (testing/synctest)", "the timeout of undecided transactions is longer than any command", "every service is known before the first event"},
		Gen:         gen, Run: simulate})
}
