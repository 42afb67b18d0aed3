// Package dbbus checks the database event bus (C20-C25) on simdb: several services with
// several instances each share one database; time, interleavings, faults and crashes
// are simulated.
package dbbus

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	ddd "github.com/bytedance/dddfirework"
	bus "github.com/bytedance/dddfirework/eventbus/mysql"
	"github.com/go-logr/logr"
	"github.com/robfig/cron"

	"verif/harness/kit"
	"verif/harness/simdb"
)

type Ev struct {
	Sender  int   `json:"s,omitempty"` // 0: the sender is unique to the event
	Type    int   `json:"t,omitempty"` // 0 normal, 1 strictly ordered, 2 laxly ordered
	Payload int   `json:"p,omitempty"` // bytes (of varying content)
	Age     int   `json:"age,omitempty"`
	Fails   []int `json:"fails,omitempty"` // per service: how many attempts fail first
	How     int   `json:"how,omitempty"`   // how they fail
	Dur     int   `json:"d,omitempty"`     // handling takes that many ms
}

// TX makes a send transactional.
type TX struct {
	Commit  bool `json:"commit,omitempty"`  // the outcome, if the process lives to decide it
	Decide  int  `json:"decide,omitempty"`  // ms after the begin
	Silent  bool `json:"silent,omitempty"`  // the process does not report the outcome
	Report  int  `json:"report,omitempty"`  // ms after the decision
	Unknown int  `json:"unknown,omitempty"` // the checker does not know the first times it is asked
	Panic   bool `json:"panic,omitempty"`   // and panics instead of saying so
	AskDur  int  `json:"askdur,omitempty"`  // the checker takes that many ms
	Never   bool `json:"never,omitempty"`   // nobody ever knows the outcome
	Again   int  `json:"again,omitempty"`   // after its report the process also 1 commits, 2 rolls back
}

type Send struct {
	At   int  `json:"at"` // ms
	From int  `json:"from"`
	Evs  []Ev `json:"evs"`
	TX   *TX  `json:"tx,omitempty"`
	Hook bool `json:"hook,omitempty"` // a command of the sender ends successfully right after it
	// Wait: only after the previous send of this process has returned (otherwise concurrent)
	Wait bool `json:"wait,omitempty"`
}

type Svc struct {
	Inst       []int `json:"inst"` // start offsets of its instances, ms
	Run        int   `json:"run"`  // ms
	Limit      int   `json:"limit"`
	Conc       int   `json:"conc"`
	Retry      int   `json:"retry,omitempty"` // 0 interval, 1 custom, 2 limit without interval, 3 default, 4 custom strategy type
	Interval   int   `json:"interval,omitempty"`
	RetryLimit int   `json:"rl,omitempty"`
	Custom     []int `json:"custom,omitempty"`
	Clean      int   `json:"clean,omitempty"`     // seconds, 0 never
	Retention  int   `json:"retention,omitempty"` // ms
	TXTimeout  int   `json:"txt,omitempty"`       // ms
	Mute       bool  `json:"mute,omitempty"`      // known but not running
	Late       int   `json:"late,omitempty"`      // ms after which it joins the others
}

type Kill struct {
	Inst    int `json:"i"`
	At      int `json:"at"`
	Restart int `json:"r,omitempty"` // ms later, 0 never
}

type FaultAt struct {
	Inst int `json:"i"`
	Op   int `json:"op"` // 0 any, 1 INSERT, 2 COMMIT, 3 UPDATE, 4 SELECT, 5 DELETE, 6 BEGIN
	Nth  int `json:"n"`
	Kind int `json:"k"` // simdb.Fault
}

type Scenario struct {
	Svcs   []Svc     `json:"svcs"`
	Sends  []Send    `json:"sends"`
	Lat    []int     `json:"lat,omitempty"` // step latencies, µs
	Kills  []Kill    `json:"kills,omitempty"`
	Faults []FaultAt `json:"faults,omitempty"`
	// instances that cannot reach the database while they are made
	InitFail []int `json:"initfail,omitempty"`
}

var faultOps = []string{"", "INSERT", "COMMIT", "UPDATE", "SELECT", "DELETE", "BEGIN"}

// ---- what happened ----

type attempt struct {
	inst       int
	start, end time.Duration // since the beginning
	ok, done   bool
}

type event struct {
	id     string
	ev     Ev
	send   *send
	evt    *ddd.DomainEvent
	copied ddd.DomainEvent
	order  int          // among the events of its sender
	att    [][]*attempt // per service
	row    int64        // its key in the database, once seen
}

type ask struct {
	at     time.Duration
	answer ddd.TXStatus
}

type send struct {
	idx            int
	s              Send
	evs            []*event
	begin, end     time.Duration
	began, ended   bool
	err            error
	faultsBefore   int
	actor          *simdb.Actor
	svc            int
	beginOK        bool // transaction: DispatchBegin returned without error
	decided        bool
	commit         bool
	decidedAt      time.Duration
	reported       bool // Commit or Rollback returned nil
	reportedAt     time.Duration
	reportErr      error
	asks           []ask
	unknownLeft    int
	definiteAnswer int
}

type inst struct {
	svc   int
	actor *simdb.Actor
	b     *bus.EventBus
	eng   *ddd.Engine
	mu    chan struct{} // serialises Wait sends
	idx   int
}

type world struct {
	s       Scenario
	prop    string
	st      *simdb.Store
	sim     *simdb.Sim
	t0      time.Time
	mu      sync.Mutex
	o       *kit.Outcome
	insts   []*inst // initial instances first
	events  map[string]*event
	sends   []*send
	crashes int
	trace   []string
	fcount  map[int]int // per fault: matching steps seen
	fdone   map[string]simdb.Fault
	crons   []*cron.Cron
	lost    map[int]bool          // actors with lost replies
	joined  map[int]time.Duration // when late services had become known
}

var storeOnce sync.Once
var store *simdb.Store

func getStore() *simdb.Store {
	storeOnce.Do(func() {
		store = simdb.NewStore(&bus.EventPO{}, &bus.ServicePO{}, &bus.ServiceEventPO{}, &bus.Transaction{})
	})
	return store
}

func svcName(i int) string {
	if i == 1 {
		return strings.Repeat("ä", 26) + "svc1" // as long as they may be
	}
	return fmt.Sprintf("svc%d", i)
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) failf(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.o.Failf(format, args...)
}

func (w *world) failed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.o.Fail != ""
}

// nop is an executor for commands without entities.
type nop struct{}

func (nop) Begin(ctx context.Context) (context.Context, error) { return ctx, nil }
func (nop) Commit(ctx context.Context) error                   { return nil }
func (nop) RollBack(ctx context.Context) error                 { return nil }
func (nop) Exec(ctx context.Context, a *ddd.Action) error      { return nil }
func (nop) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return nil, ddd.ErrEntityNotRegister
}
func (nop) Model2Entity(m ddd.IModel, e ddd.IEntity) error { return ddd.ErrEntityNotRegister }

// strategy is a retry strategy of the user's own: two retries, the first after 10 ms, the second after 30 ms.
type strategy struct{}

func (strategy) Next(info *bus.RetryInfo) *bus.RetryInfo {
	if info.RetryCount >= 2 {
		return nil
	}
	return &bus.RetryInfo{ID: info.ID, RetryCount: info.RetryCount + 1, RetryTime: time.Now().Add([]time.Duration{10, 30}[info.RetryCount] * time.Millisecond)}
}
func (strategy) RetryCount() int { return 2 }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// plan is how long to wait before each retry.
func (v Svc) plan() (waits []time.Duration) {
	rep := func(n int, d time.Duration) {
		for i := 0; i < n; i++ {
			waits = append(waits, d)
		}
	}
	switch v.Retry {
	case 0:
		rep(v.RetryLimit+1, ms(v.Interval))
	case 1:
		for _, c := range v.Custom {
			rep(1, ms(c))
		}
	case 2:
		rep(v.RetryLimit+1, 0)
	case 3:
		rep(6, 3*time.Second)
	case 4:
		waits = []time.Duration{ms(10), ms(30)}
	}
	return
}

func (w *world) options(v Svc) []bus.Option {
	return []bus.Option{func(o *bus.Options) {
		o.Logger = logr.Discard()
		o.RunInterval = ms(v.Run)
	}, func(o *bus.Options) {
		if v.Limit > 0 {
			o.LimitPerRun = v.Limit
		}
		if v.Conc > 0 {
			o.ConsumeConcurrent = v.Conc
		}
	}, func(o *bus.Options) {
		switch v.Retry {
		case 0:
			o.RetryInterval, o.RetryLimit = ms(v.Interval), v.RetryLimit
		case 1:
			for _, c := range v.Custom {
				o.CustomRetry = append(o.CustomRetry, ms(c))
			}
		case 2:
			o.RetryStrategy = &bus.LimitRetry{Limit: v.RetryLimit}
		case 4:
			o.RetryStrategy = strategy{}
		}
	}, func(o *bus.Options) {
		o.CleanCron = "@every 10000h"
		if v.Clean > 0 {
			o.CleanCron = fmt.Sprintf("@every %ds", v.Clean)
			o.RetentionTime = ms(v.Retention)
		}
	}, func(o *bus.Options) {
		if v.TXTimeout > 0 {
			o.TXCheckTimeout = ms(v.TXTimeout)
		}
	}}
}

// start makes an instance and runs it.
func (w *world) start(svc int) *inst {
	v := w.s.Svcs[svc]
	w.mu.Lock()
	i := &inst{svc: svc, idx: len(w.insts), mu: make(chan struct{}, 1)}
	w.insts = append(w.insts, i)
	w.mu.Unlock()
	i.actor = w.sim.Actor(i.idx)
	i.b = bus.NewEventBus(svcName(svc), i.actor.Gorm(), w.options(v)...)
	i.eng = ddd.NewEngine(nil, nop{}, i.b.Options()...)
	i.b.RegisterEventHandler(func(ctx context.Context, evt *ddd.DomainEvent) error { return w.handle(i, evt) })
	i.b.RegisterEventTXChecker(func(evt *ddd.DomainEvent) ddd.TXStatus { return w.check(i, evt) })
	w.mu.Lock()
	w.crons = append(w.crons, cronsOf(i.b)...)
	w.mu.Unlock()
	if !v.Mute {
		i.b.Start(context.Background())
	}
	return i
}

// cronsOf finds the schedulers of a bus, to stop them at the end.
func cronsOf(b any) (l []*cron.Cron) {
	v := reflect.ValueOf(b).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf((*cron.Cron)(nil)) && !f.IsNil() {
			l = append(l, (*cron.Cron)(unsafe.Pointer(f.Pointer())))
		}
	}
	return
}

func same(a, b *ddd.DomainEvent) bool {
	return a.ID == b.ID && a.Type == b.Type && a.SendType == b.SendType && a.Sender == b.Sender && string(a.Payload) == string(b.Payload) && a.CreatedAt.Equal(b.CreatedAt)
}

var failTexts = []string{"no", "日本語" + strings.Repeat("é", 40000), "x" + strings.Repeat("é", 40000), "bad \xff\xfe bytes", "", "\u0000zero"}

func (w *world) handle(i *inst, evt *ddd.DomainEvent) error {
	i.actor.Check()
	w.mu.Lock()
	e := w.events[evt.ID]
	if e == nil {
		w.o.Failf("a handler of %s got an event nobody dispatched: %+v", svcName(i.svc), evt)
		w.mu.Unlock()
		return nil
	}
	if !same(evt, &e.copied) {
		w.o.Failf("the handler of %s got %+v, dispatched was %+v", svcName(i.svc), evt, e.copied)
	}
	n := len(e.att[i.svc])
	a := &attempt{inst: i.idx, start: w.now()}
	e.att[i.svc] = append(e.att[i.svc], a)
	w.tracef("instance %d (%s) handles %s attempt %d", i.idx, svcName(i.svc), e.id, n)
	w.mu.Unlock()
	w.onStart(i, e, n)
	// the event is the handler's to change
	evt.Type, evt.Sender = "scribbled", "scribbled"
	for k := range evt.Payload {
		evt.Payload[k] = '!'
	}
	if e.ev.Dur > 0 {
		time.Sleep(ms(e.ev.Dur) + time.Duration(i.idx+1)*13*time.Nanosecond)
	}
	i.actor.Check()
	w.mu.Lock()
	a.end, a.done = w.now(), true
	fails := 0
	if i.svc < len(e.ev.Fails) {
		fails = e.ev.Fails[i.svc]
	}
	a.ok = n >= fails
	w.tracef("instance %d (%s) is done with %s attempt %d ok=%v", i.idx, svcName(i.svc), e.id, n, a.ok)
	w.mu.Unlock()
	if a.ok {
		return nil
	}
	text := failTexts[e.ev.How/2%len(failTexts)]
	if e.ev.How%2 == 1 {
		panic(text)
	}
	return errors.New(text)
}

func (w *world) tracef(format string, args ...any) {
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s "+format+"\n", append([]any{w.now()}, args...)...)
	}
}

type rawStatus struct {
	status int
	event  int64
}

// status is the committed status of the service's record of the event, -1 if there is none.
func (w *world) status(svc int, id string) int {
	var st int
	err := w.st.DB.QueryRow("SELECT s.status FROM ddd_domain_service_event s JOIN ddd_domain_event e ON e.id=s.event_id WHERE s.service=? AND e.event_id=?", svcName(svc), id).Scan(&st)
	if err == sql.ErrNoRows {
		return -1
	}
	if err != nil {
		kit.Harness("status: %v", err)
	}
	return st
}

// snap is the committed content of the tables.
type snap struct {
	status  map[string]int // by service and event id
	rows    map[string]int // event rows by event id
	records map[string]int // records by event id (of the events that exist)
}

func (sn snap) of(svc int, id string) int {
	if st, ok := sn.status[svcName(svc)+"/"+id]; ok {
		return st
	}
	return -1
}

func (w *world) snap() snap {
	sn := snap{map[string]int{}, map[string]int{}, map[string]int{}}
	rows, err := w.st.DB.Query("SELECT e.event_id, s.service, s.status FROM ddd_domain_service_event s JOIN ddd_domain_event e ON e.id=s.event_id")
	if err != nil {
		kit.Harness("snap: %v", err)
	}
	for rows.Next() {
		var id, svc string
		var st int
		if err := rows.Scan(&id, &svc, &st); err != nil {
			kit.Harness("snap: %v", err)
		}
		sn.status[svc+"/"+id] = st
		sn.records[id]++
	}
	_ = rows.Close()
	if rows, err = w.st.DB.Query("SELECT event_id FROM ddd_domain_event"); err != nil {
		kit.Harness("snap: %v", err)
	}
	for rows.Next() {
		var id string
		if err := rows.Scan(&id); err != nil {
			kit.Harness("snap: %v", err)
		}
		sn.rows[id]++
	}
	_ = rows.Close()
	return sn
}

const (
	stInit    = int(bus.ServiceEventStatusInit)
	stSuccess = int(bus.ServiceEventStatusSuccess)
	stFailed  = int(bus.ServiceEventStatusFailed)
)

// onStart checks what has to hold when an attempt starts.
func (w *world) onStart(i *inst, e *event, n int) {
	st := w.status(i.svc, e.id)
	switch w.prop {
	case "C20":
		if st == stSuccess {
			w.failf("%s handles %s again although it has succeeded", svcName(i.svc), e.id)
		}
	case "C21":
		if st == stSuccess {
			w.failf("%s handles %s again although its handling is recorded as successful", svcName(i.svc), e.id)
		}
		if c := w.stored(e.send); c != len(e.send.evs) {
			w.failf("%s is handled while only %d of the %d events of its dispatch are stored", e.id, c, len(e.send.evs))
		}
	case "C22":
		if st == stFailed {
			w.failf("%s handles %s again although it was given up", svcName(i.svc), e.id)
		}
		if waits := w.s.Svcs[i.svc].plan(); n > 0 {
			w.mu.Lock()
			prev, cur := e.att[i.svc][n-1], e.att[i.svc][n]
			switch {
			case n-1 >= len(waits):
				w.o.Failf("%s handles %s for the %d. time, with %d retries configured", svcName(i.svc), e.id, n+1, len(waits))
			case prev.done && prev.ok:
				w.o.Failf("%s handles %s again although it has succeeded", svcName(i.svc), e.id)
			case !prev.done:
				w.o.Failf("%s handles %s twice at the same time", svcName(i.svc), e.id)
			case cur.start < prev.end+waits[n-1]:
				w.o.Failf("%s retries %s after %v, configured is %v (retry %d)", svcName(i.svc), e.id, cur.start-prev.end, waits[n-1], n)
			}
			w.mu.Unlock()
		}
	case "C23":
		if e.ev.Type == 0 {
			break
		}
		w.mu.Lock()
		var before []*event
		for _, p := range w.events {
			if p.ev.Sender == e.ev.Sender && p.ev.Sender > 0 && p.ev.Type > 0 && p.order < e.order {
				before = append(before, p)
			}
		}
		w.mu.Unlock()
		for _, p := range before {
			ps := w.status(i.svc, p.id)
			if ps == stSuccess || e.ev.Type == 2 && ps == stFailed {
				continue
			}
			w.failf("%s handles %s (send type %s) although the earlier %s of the same sender has status %d", svcName(i.svc), e.id, e.copied.SendType, p.id, ps)
		}
	case "C24":
		s := e.send
		if s.s.TX == nil {
			break
		}
		w.mu.Lock()
		if !s.decided || !s.commit {
			w.o.Failf("%s handles %s of a transaction that was not committed (decided=%v commit=%v)", svcName(i.svc), e.id, s.decided, s.commit)
		}
		w.mu.Unlock()
	}
}

// check is the answer to the question what became of a transaction.
func (w *world) check(i *inst, evt *ddd.DomainEvent) ddd.TXStatus {
	i.actor.Check()
	w.mu.Lock()
	e := w.events[evt.ID]
	if e == nil || e.send.s.TX == nil || !same(evt, &e.copied) {
		w.o.Failf("the checker is asked about %+v, which is no transactional event that was dispatched", evt)
		w.mu.Unlock()
		return ddd.TXUnknown
	}
	s := e.send
	at := w.now()
	if to := w.txTimeout(s); at < s.begin+to {
		w.o.Failf("the checker is asked about transaction %d after %v, before its timeout of %v", s.idx, at-s.begin, to)
	}
	if s.reported && s.reportErr == nil && at > s.reportedAt {
		w.o.Failf("the checker is asked about transaction %d although its outcome was reported", s.idx)
	}
	if from := s.svc; from != i.svc {
		w.o.Failf("%s asks its checker about transaction %d, which %s has begun", svcName(i.svc), s.idx, svcName(from))
	}
	if s.actor.Dead() && !s.decided && !s.s.TX.Never {
		s.decided, s.commit, s.decidedAt = true, false, at
	}
	ans := ddd.TXUnknown
	switch {
	case !s.decided:
	case s.unknownLeft > 0:
		s.unknownLeft--
	case s.commit:
		ans = ddd.TXCommit
	default:
		ans = ddd.TXRollBack
	}
	s.asks = append(s.asks, ask{at, ans})
	if ans != ddd.TXUnknown {
		s.definiteAnswer++
		if s.definiteAnswer > 1 && w.crashes == 0 && w.sim.Faults == 0 && len(w.s.Kills) == 0 {
			w.o.Failf("the checker is asked about transaction %d again although it gave a definite answer", s.idx)
		}
	}
	w.tracef("instance %d asks about transaction %d: %v", i.idx, s.idx, ans)
	w.mu.Unlock()
	if d := s.s.TX.AskDur; d > 0 {
		time.Sleep(ms(d))
	}
	i.actor.Check()
	if ans == ddd.TXUnknown && s.s.TX.Panic {
		panic("checker panics")
	}
	return ans
}

func (w *world) txTimeout(s *send) time.Duration {
	if n := w.s.Svcs[w.insts[s.s.From%w.first()].svc].TXTimeout; n > 0 {
		return ms(n)
	}
	return time.Minute
}

// stored counts the stored events of a send.
func (w *world) stored(s *send) (n int) {
	for _, e := range s.evs {
		if w.count(e.id) > 0 {
			n++
		}
	}
	return n
}

func (w *world) count(id string) (c int) {
	if err := w.st.DB.QueryRow("SELECT count(*) FROM ddd_domain_event WHERE event_id=?", id).Scan(&c); err != nil {
		kit.Harness("count: %v", err)
	}
	return c
}

func (w *world) first() int {
	n := 0
	for _, v := range w.s.Svcs {
		if v.Late == 0 {
			n += len(v.Inst)
		}
	}
	return n
}

func payload(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*31 + seed*7 + i*i)
	}
	return b
}

var senderNames = []string{"", "order-1", "o'rder\"2", "заказ"}
var sendTypes = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeFIFO, ddd.SendTypeLaxFIFO}

// fire performs one send from the goroutine of its process.
func (w *world) fire(i *inst, s *send) {
	if s.s.Wait {
		i.mu <- struct{}{}
		defer func() { <-i.mu }()
	}
	i.actor.Check()
	var evs []*ddd.DomainEvent
	w.mu.Lock()
	s.actor, s.svc = i.actor, i.svc
	for k, ev := range s.s.Evs {
		e := &event{id: fmt.Sprintf("e%d.%d", s.idx, k), ev: ev, send: s, att: make([][]*attempt, len(w.s.Svcs))}
		sender := senderNames[ev.Sender%len(senderNames)]
		if ev.Sender == 0 {
			sender = "only-" + e.id
		}
		e.order = s.idx*1000 + k
		e.evt = &ddd.DomainEvent{ID: e.id, Type: ddd.EventType(fmt.Sprintf("type%d", k%2)), SendType: sendTypes[ev.Type], Sender: sender,
			Payload: payload(ev.Payload, s.idx), CreatedAt: time.Now().Add(-ms(ev.Age)).Truncate(time.Millisecond)}
		if s.s.TX != nil && ev.Type == 0 {
			e.evt.SendType = ddd.SendTypeTransaction
		}
		e.copied = *e.evt
		e.copied.Payload = append([]byte(nil), e.evt.Payload...)
		w.events[e.id] = e
		s.evs = append(s.evs, e)
		evs = append(evs, e.evt)
	}
	s.began, s.begin = true, w.now()
	w.tracef("instance %d sends %d (tx %v)", i.idx, s.idx, s.s.TX != nil)
	w.mu.Unlock()
	if s.s.TX == nil {
		err := i.b.Dispatch(context.Background(), evs...)
		i.actor.Check()
		w.mu.Lock()
		s.err, s.ended, s.end = err, true, w.now()
		w.tracef("send %d returned %v", s.idx, err)
		w.mu.Unlock()
	} else {
		w.transact(i, s, evs)
	}
	if s.s.Hook && !w.s.Svcs[i.svc].Mute {
		i.actor.Check()
		if res := i.eng.NewStage().Main(func(ctx context.Context, repo *ddd.Repository) error { return nil }).Save(context.Background()); res.Error != nil {
			w.failf("an empty command fails: %v", res.Error)
		}
	}
}

func (w *world) transact(i *inst, s *send, evs []*ddd.DomainEvent) {
	w.mu.Lock()
	s.unknownLeft = s.s.TX.Unknown
	w.mu.Unlock()
	ctx, err := i.b.DispatchBegin(context.Background(), evs...)
	i.actor.Check()
	w.mu.Lock()
	s.err, s.ended, s.end = err, true, w.now()
	w.tracef("begin of transaction %d returned %v", s.idx, err)
	w.mu.Unlock()
	if err != nil {
		w.mu.Lock()
		s.decided, s.commit, s.decidedAt = true, false, w.now()
		w.mu.Unlock()
		return
	}
	if s.s.TX.Never {
		return
	}
	time.Sleep(ms(s.s.TX.Decide))
	i.actor.Check()
	w.mu.Lock()
	s.beginOK = true
	if !s.decided {
		s.decided, s.commit, s.decidedAt = true, s.s.TX.Commit, w.now()
	}
	w.tracef("transaction %d decided commit=%v", s.idx, s.commit)
	w.mu.Unlock()
	if s.s.TX.Silent {
		return
	}
	time.Sleep(ms(s.s.TX.Report))
	i.actor.Check()
	if s.commit {
		err = i.b.Commit(ctx)
	} else {
		err = i.b.Rollback(ctx)
	}
	i.actor.Check()
	w.mu.Lock()
	s.reported, s.reportedAt, s.reportErr = true, w.now(), err
	w.tracef("report of transaction %d returned %v", s.idx, err)
	again, faults := s.s.TX.Again, w.sim.Faults+w.crashes
	w.mu.Unlock()
	if again == 0 || err != nil {
		return
	}
	// what is decided stays decided
	if again == 1 {
		err = i.b.Commit(ctx)
	} else {
		err = i.b.Rollback(ctx)
	}
	i.actor.Check()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.tracef("repeated report (%d) of transaction %d returned %v", again, s.idx, err)
	if again == 1 && faults == w.sim.Faults+w.crashes {
		if s.commit && err != nil {
			w.o.Failf("committing transaction %d again fails: %v", s.idx, err)
		}
		if !s.commit && err == nil {
			w.o.Failf("committing transaction %d succeeds after it was rolled back", s.idx)
		}
	}
}

func (w *world) fault(a *simdb.Actor, n int, op string) simdb.Fault {
	// called with the simulation's lock held, several times for a step that waits
	key := fmt.Sprintf("%d/%d", a.ID, n)
	if f, ok := w.fdone[key]; ok {
		return f
	}
	res := simdb.None
	word := strings.ToUpper(op)
	for k, f := range w.s.Faults {
		if f.Inst%w.first() != a.ID {
			continue
		}
		if f.Op > 0 && !strings.HasPrefix(word, faultOps[f.Op%len(faultOps)]) {
			continue
		}
		if w.fcount[k] == f.Nth && res == simdb.None {
			res = simdb.Fault(f.Kind)
			if res == simdb.ErrAfter {
				w.lost[a.ID] = true
			}
		}
		w.fcount[k]++
	}
	w.fdone[key] = res
	return res
}

// simulate runs the scenario in a bubble and calls the checks.
func simulate(t *testing.T, prop string, s Scenario) (o kit.Outcome) {
	st := getStore()
	defer func() {
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprint(p), "deadlock: main bubble goroutine has exited") {
				return // somebody's scheduler could not be stopped
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, prop: prop, st: st, sim: simdb.NewSim(st), t0: time.Now(), o: &o, events: map[string]*event{}, fcount: map[int]int{}, fdone: map[string]simdb.Fault{}, lost: map[int]bool{}, joined: map[int]time.Duration{}}
		if os.Getenv("VERIF_TRACE") == "2" {
			w.sim.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
		}
		w.sim.MaxText = map[string]int{"ddd_domain_event": 65535, "ddd_event_transaction": 65535, "ddd_domain_service_event": 65535}
		w.run()
	})
	return o
}

func (w *world) latency(a *simdb.Actor, n int) time.Duration {
	jit := time.Duration(a.ID+1)*101 + time.Duration(n%97)*11
	if len(w.s.Lat) == 0 {
		return jit
	}
	return time.Duration(w.s.Lat[(n*7+a.ID*13)%len(w.s.Lat)])*time.Microsecond + jit
}

func (w *world) run() {
	n := w.first()
	type slot struct{ svc, at int }
	var slots []slot
	for k, v := range w.s.Svcs {
		for _, at := range v.Inst {
			if v.Late > 0 {
				continue
			}
			slots = append(slots, slot{k, at})
		}
	}
	// instances are created at once, in order, and start polling at their offsets
	starts := make([]func(), 0, n)
	for _, sl := range slots {
		sl := sl
		out := !w.s.Svcs[sl.svc].Mute && slices.Contains(w.s.InitFail, len(w.insts))
		if out {
			w.sim.Fault = func(*simdb.Actor, int, string) simdb.Fault { return simdb.ErrBefore }
		}
		i := w.startLater(sl.svc)
		w.sim.Fault = nil
		if out {
			w.o.Class("no database at first")
		}
		starts = append(starts, func() {
			time.Sleep(ms(sl.at) + time.Duration(i.idx)*17*time.Nanosecond)
			i.actor.Check()
			if !w.s.Svcs[sl.svc].Mute {
				i.b.Start(context.Background())
			}
		})
	}
	w.sim.Latency = w.latency
	w.sim.Fault = w.fault
	w.t0 = time.Now()
	w.sim.Faults = 0
	for _, f := range starts {
		go f()
	}
	if len(w.s.InitFail) > 0 { // they have to make themselves known by and by
		limit := 2*time.Second + 8*w.maxRun() + 60*w.step()*time.Duration(n)
		known := 0
		for _, v := range w.s.Svcs {
			if v.Late == 0 {
				known++
			}
		}
		for w.rows("ddd_eventbus_service") < known {
			if w.now() > limit {
				w.failf("%d of %d services are known after %v, although the database can be reached", w.rows("ddd_eventbus_service"), known, limit)
				break
			}
			w.sampleStep()
		}
		w.t0 = time.Now()
	}
	var wg sync.WaitGroup
	last := 0
	for k, v := range w.s.Svcs {
		if v.Late == 0 {
			continue
		}
		for _, at := range v.Inst {
			last = max(last, v.Late+at+300)
			go func() {
				time.Sleep(ms(v.Late+at) + 300*time.Nanosecond)
				w.start(k)
				w.mu.Lock()
				if _, in := w.joined[k]; !in {
					w.joined[k] = w.now()
				}
				w.mu.Unlock()
			}()
		}
	}
	for k, s := range w.s.Sends {
		x := &send{idx: k, s: s}
		w.sends = append(w.sends, x)
		if s.At > last {
			last = s.At
		}
		if s.TX != nil && s.At+s.TX.Decide+s.TX.Report > last {
			last = s.At + s.TX.Decide + s.TX.Report
		}
		i := w.insts[s.From%n]
		if w.prop == "C23" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(ms(s.At) + time.Duration(k)*time.Microsecond)
			w.fire(i, x)
		}()
	}
	if w.prop == "C23" { // one after the other: their order is defined
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, x := range w.sends {
				if d := ms(x.s.At) - w.now(); d > 0 {
					time.Sleep(d)
				}
				w.fire(w.insts[x.s.From%n], x)
			}
		}()
	}
	for _, k := range w.s.Kills {
		if k.At+k.Restart > last {
			last = k.At + k.Restart
		}
		go func() {
			time.Sleep(ms(k.At) + 500*time.Nanosecond)
			i := w.insts[k.Inst%n]
			if !i.actor.Dead() {
				w.mu.Lock()
				w.crashes++
				w.mu.Unlock()
				w.tracef("instance %d dies", i.idx)
				i.actor.Kill()
			}
			if k.Restart > 0 {
				time.Sleep(ms(k.Restart))
				if !w.s.Svcs[i.svc].Mute {
					w.start(i.svc)
				}
			}
		}()
	}
	wg.Wait()
	for w.now() < ms(last+1) {
		w.sampleStep()
	}
	w.rescue()
	begin := w.now()
	limit := w.deadline()
	for w.now() < begin+limit && !w.failed() {
		if w.settled() {
			break
		}
		w.sampleStep()
		w.rescue()
	}
	done := w.settled()
	// whatever comes now comes too often
	extra := w.now() + w.extra()
	for w.now() < extra && !w.failed() {
		w.sampleStep()
	}
	w.sim.Stop()
	w.mu.Lock()
	for _, c := range w.crons {
		c.Stop()
	}
	w.mu.Unlock()
	if !w.failed() {
		w.finish(done)
	}
	longest := 0
	for _, v := range w.s.Svcs {
		longest = max(longest, v.Run)
	}
	time.Sleep(ms(longest)*2 + 2*time.Minute)
	synctest.Wait()
	runtime.Gosched()
	w.stats()
}

// rescue gives every running service a live instance again.
func (w *world) rescue() {
	for k, v := range w.s.Svcs {
		alive := v.Mute || v.Late > 0
		w.mu.Lock()
		for _, i := range w.insts {
			alive = alive || i.svc == k && !i.actor.Dead()
		}
		w.mu.Unlock()
		if !alive {
			w.start(k)
		}
	}
}

// startLater makes an instance without running it; the database answers at once meanwhile.
func (w *world) startLater(svc int) *inst {
	v := w.s.Svcs[svc]
	m := v.Mute
	w.s.Svcs[svc].Mute = true
	i := w.start(svc)
	w.s.Svcs[svc].Mute = m
	return i
}

func (w *world) minRun() int {
	m := 1 << 30
	for _, v := range w.s.Svcs {
		m = min(m, v.Run)
	}
	return m
}

func (w *world) sampleStep() {
	time.Sleep(max(ms(w.minRun())/2, 5*time.Millisecond))
	if w.prop == "C25" {
		w.sample()
	}
}

func (w *world) maxRun() time.Duration {
	m := 0
	for _, v := range w.s.Svcs {
		m = max(m, v.Run)
	}
	return ms(m)
}

func (w *world) step() time.Duration {
	m := 0
	for _, l := range w.s.Lat {
		m = max(m, l)
	}
	return time.Duration(m+1) * time.Microsecond
}

// deadline is more than enough time to handle everything.
func (w *world) deadline() time.Duration {
	d := 30*time.Second + 60*w.maxRun()
	for _, v := range w.s.Svcs {
		var waits time.Duration
		plan := v.plan()
		for _, x := range plan {
			waits += x
		}
		d += 2 * waits
		for _, s := range w.s.Sends {
			for _, e := range s.Evs {
				d += time.Duration(len(plan)+1) * (2*ms(e.Dur) + 30*w.step()*time.Duration(len(w.insts)) + 2*ms(v.Run))
			}
		}
		d += ms(v.TXTimeout) + 3*ms(v.Clean*1000+min(v.Retention, 20000))
	}
	for _, s := range w.s.Sends {
		if s.TX != nil {
			d += time.Duration(s.TX.Unknown+1) * (w.maxRun() + ms(s.TX.AskDur) + 60*w.step())
		}
	}
	return d
}

// extra is how long to watch for things that must not happen.
func (w *world) extra() time.Duration {
	d := 4*w.maxRun() + 40*w.step()
	var wait time.Duration
	for _, v := range w.s.Svcs {
		for _, x := range v.plan() {
			wait = max(wait, x)
		}
	}
	if w.prop == "C22" {
		d += wait
	}
	return d
}

func (w *world) sorted() []*event {
	w.mu.Lock()
	defer w.mu.Unlock()
	var l []*event
	for _, e := range w.events {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].order < l[j].order })
	return l
}

func (e *event) fails(svc int) int {
	if svc < len(e.ev.Fails) {
		return e.ev.Fails[svc]
	}
	return 0
}

// oks counts the successful handlings.
func (w *world) oks(e *event, svc int) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, a := range e.att[svc] {
		if a.done && a.ok {
			n++
		}
	}
	return n
}

func (w *world) attempts(e *event, svc int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(e.att[svc])
}
