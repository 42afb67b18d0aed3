package engine

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/go-logr/logr"

	"verif/harness/kit"
)

// ---- scenario (plain data) ----

type Tree struct {
	Kind  int    `json:"k"`
	ID    bool   `json:"id,omitempty"` // caller-chosen ID
	Name  int    `json:"n,omitempty"`
	Flags int    `json:"f,omitempty"`
	Omit  bool   `json:"o,omitempty"`
	Slot  int    `json:"s,omitempty"` // which compatible slot of the parent
	Kids  []Tree `json:"c,omitempty"`
}

type Op struct {
	K string `json:"op"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
	T *Tree  `json:"t,omitempty"`
}

type Cfg struct {
	NoTx      bool  `json:"notx,omitempty"`
	Recursive bool  `json:"rec,omitempty"`
	DryRun    bool  `json:"dry,omitempty"`
	Bus       int   `json:"bus,omitempty"` // 0 none, 1 plain, 2 transactional
	Persist   bool  `json:"persist,omitempty"`
	Hooks     int   `json:"hooks,omitempty"` // engine-level after-save callbacks
	Kind      int   `json:"kind,omitempty"`  // command kind
	Locks     []int `json:"locks,omitempty"`
	RunOpt    bool  `json:"runopt,omitempty"` // pass the options per run instead of per engine
	Wrap      bool  `json:"wrap,omitempty"`   // executor wraps the not-registered error
	Output    bool  `json:"output,omitempty"`
	CancelAt  int   `json:"cancel,omitempty"` // the caller cancels at this fallible call
	Form      int   `json:"form,omitempty"`   // which optional methods the command has
	NoIDRoot  bool  `json:"noid,omitempty"`   // Build returns a root without ID
	Frozen    bool  `json:"frozen,omitempty"` // the clock stands still: all events have the same time
	FailSoft  bool  `json:"soft,omitempty"`   // unlock, rollback and bus commit/rollback report errors
}

type Fault struct {
	At    int  `json:"at"` // 1-based index of the fallible call, 0 none
	Panic bool `json:"panic,omitempty"`
}

type Scenario struct {
	Init  []Tree `json:"init,omitempty"`
	Cfg   Cfg    `json:"cfg"`
	Ops   []Op   `json:"ops"`
	Fault Fault  `json:"fault,omitempty"`
	// further commands that go on with the entities of the one before
	Again []Again `json:"again,omitempty"`
}

type Again struct {
	Keep int  `json:"keep"` // which roots go on
	Ops  []Op `json:"ops,omitempty"`
}

// ---- trace ----

type Ev struct {
	K    string // lock unlock begin commit rollback exec hook dispatch txbegin txcommit txrollback postsave genid main save
	Op   ddd.OpType
	Acts []Row // rows of an exec, in order
	Prev []ddd.IModel
	Tab  string
	H    int
	Name string
	Save int
	IDs  []string
	Err  bool
	act  *ddd.Action
	ctx  context.Context
}

type prevInfo struct {
	parentID string
	name     string
	num      int
	holder   node // nil for roots
	slot     string
}

type change struct {
	inserted, updated, deleted, optional map[node]bool
	dup                                  bool
	conflict                             bool
	preID                                map[node]string // IDs of the inserted ones before the save
	prev                                 map[node]prevInfo
	holder                               map[node]node
	lists                                [][]node // the ordered collections at the time of the save
	done                                 bool
}

type emitted struct {
	id       string
	seq      int
	payload  string
	sendType ddd.SendType
	from     node
	required bool
	at       time.Time
}

var errFault = errors.New("injected fault")
var errMain = errors.New("business failure")
var errHookFault = errors.New("hook failure")

type World struct {
	sc    *Scenario
	store *memStore
	exp   map[string]map[string]Row // expected store
	init  map[string]map[string]Row // store before the run
	trace []Ev

	nodes      []node
	templates  []node
	newDropped []node
	roots      []node
	persisted  map[node]prevInfo
	dead       map[node]bool
	dirty      map[node]bool // marked as changed since the last save
	removed    []node        // removed, stored roots since the last save
	detached   []node        // detached stored nodes since the last save
	loaded     map[string]bool
	rootsRows  []string // stored root ids in order ("A/s1")

	save     int
	steps    int
	cancel   func()
	fired    string // description of the fault that fired
	misuse   bool
	dup      bool
	conflict bool
	endReq   string // "error", "break", "panic" requested by the program
	changes  []change
	events   []*emitted
	allGone  []node // everything ever deleted, for event collection
	genSeq   int
	issued   map[string]int
	nodeTree map[node]*Tree

	errs    []string // oracle failures found on the way (tag: message)
	mainRan int
	unlocks int

	feat map[string]int

	res        *ddd.Result
	panicked   any
	postRes    []string
	output     any
	eventMark  int
	busErr     error
	createKind bool
	initOK     bool
	postPtr    []*ddd.Result
	eng        *ddd.Engine
	runOpts    []ddd.Option
	mainFn     func(ctx context.Context, repo *ddd.Repository) error
	reused     []ddd.IEntity
}

type ctxKey string

func (w *World) bug(tag, format string, args ...any) {
	w.errs = append(w.errs, tag+": "+fmt.Sprintf(format, args...))
}

// step is called by every fallible interface call; it injects the scenario's fault.
func (w *World) step(what string) error {
	w.steps++
	if w.sc.Cfg.CancelAt == w.steps {
		w.cancel()
	}
	if w.sc.Fault.At == w.steps {
		w.fired = what
		if w.sc.Fault.Panic && what != "lock" && what != "begin" && what != "commit" { // a panicking lock or transaction manager is out of scope
			w.fired = "panic:" + what
			panic("injected panic at " + what)
		}
		return fmt.Errorf("%s: %w", what, errFault)
	}
	return nil
}

func (w *World) soft(what string) error {
	if w.sc.Cfg.FailSoft {
		return fmt.Errorf("soft failure of %s", what)
	}
	return nil
}

// ---- store and executor ----

type memStore struct {
	w      *World
	tables map[string]map[string]Row
	tx     *memTx // at most one open transaction in these runs
	begins int
}

type memTx struct {
	tables map[string]map[string]Row
	ended  int
}

func cloneTables(t map[string]map[string]Row) map[string]map[string]Row {
	res := map[string]map[string]Row{}
	for k, m := range t {
		res[k] = map[string]Row{}
		for id, r := range m {
			res[k][id] = r
		}
	}
	return res
}

func (s *memStore) Begin(ctx context.Context) (context.Context, error) {
	if err := s.w.step("begin"); err != nil {
		return ctx, err
	}
	s.begins++
	s.w.trace = append(s.w.trace, Ev{K: "begin"})
	tx := &memTx{tables: cloneTables(s.tables)}
	return context.WithValue(ctx, ctxKey("tx"), tx), nil
}

func txOf(ctx context.Context) *memTx {
	tx, _ := ctx.Value(ctxKey("tx")).(*memTx)
	return tx
}

func (s *memStore) Commit(ctx context.Context) error {
	tx := txOf(ctx)
	if tx == nil {
		s.w.bug("tx", "commit called without the context of its transaction")
		return errors.New("no transaction")
	}
	tx.ended++
	s.w.trace = append(s.w.trace, Ev{K: "commit"})
	if err := s.w.step("commit"); err != nil {
		s.w.trace[len(s.w.trace)-1].Err = true
		return err
	}
	s.tables = tx.tables
	return nil
}

func (s *memStore) RollBack(ctx context.Context) error {
	tx := txOf(ctx)
	if tx == nil {
		s.w.bug("tx", "rollback called without the context of its transaction")
		return errors.New("no transaction")
	}
	tx.ended++
	s.w.trace = append(s.w.trace, Ev{K: "rollback"})
	return s.w.soft("rollback")
}

func (s *memStore) Entity2Model(entity, parent ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	n, ok := entity.(node)
	if !ok || n.kind() == KU {
		if s.w.sc.Cfg.Wrap {
			return nil, fmt.Errorf("cannot convert %T: %w", entity, ddd.ErrEntityNotRegister)
		}
		return nil, ddd.ErrEntityNotRegister
	}
	if err := s.w.step("convert"); err != nil {
		return nil, err
	}
	r := Row{ID: n.GetID(), Name: n.core().Name, Num: n.core().Num}
	if p, ok := parent.(node); ok {
		r.Parent = p.GetID()
	}
	return newModel(kindName[n.kind()], r), nil
}

func (s *memStore) Model2Entity(model ddd.IModel, entity ddd.IEntity) error {
	if err := s.w.step("restore"); err != nil {
		return err
	}
	_, r := rowOf(model)
	n := entity.(node)
	n.SetID(r.ID)
	n.core().Name, n.core().Num = r.Name, r.Num
	return nil
}

func (s *memStore) Exec(ctx context.Context, a *ddd.Action) error {
	tables := s.tables
	tx := txOf(ctx)
	if tx != nil {
		tables = tx.tables
		if tx.ended > 0 {
			s.w.bug("tx", "statement after the end of its transaction")
		}
	} else if s.begins > 0 {
		s.w.bug("tx", "statement outside the open transaction")
	}
	if a.Op == ddd.OpQuery {
		if err := s.w.step("query"); err != nil {
			return err
		}
		return query(tables, a)
	}
	ev := Ev{K: "exec", Op: a.Op, Save: s.w.save, act: a, Prev: a.PrevModels}
	for i, m := range a.Models {
		t, r := rowOf(m)
		if i == 0 {
			ev.Tab = t
		} else if t != ev.Tab {
			s.w.bug("batch", "a batch mixes models %s and %s", ev.Tab, t)
		}
		ev.Acts = append(ev.Acts, r)
	}
	s.w.trace = append(s.w.trace, ev)
	if len(a.Models) == 0 {
		s.w.bug("batch", "empty batch (op %d)", a.Op)
		return nil
	}
	// the fault comes half-way through the batch
	if err := s.w.step(fmt.Sprintf("exec%d", a.Op)); err != nil {
		if tx != nil && len(a.Models) > 1 {
			apply(tables, a, len(a.Models)/2)
		}
		return err
	}
	return apply(tables, a, len(a.Models))
}

func apply(tables map[string]map[string]Row, a *ddd.Action, n int) error {
	for i, m := range a.Models[:n] {
		t, r := rowOf(m)
		if tables[t] == nil {
			tables[t] = map[string]Row{}
		}
		switch a.Op {
		case ddd.OpInsert:
			if _, in := tables[t][r.ID]; in {
				return fmt.Errorf("duplicate key %s/%s", t, r.ID)
			}
			tables[t][r.ID] = r
		case ddd.OpUpdate:
			old, in := tables[t][r.ID]
			if !in {
				continue
			}
			if i < len(a.PrevModels) {
				_, p := rowOf(a.PrevModels[i])
				if p.Parent != r.Parent {
					old.Parent = r.Parent
				}
				if p.Name != r.Name {
					old.Name = r.Name
				}
				if p.Num != r.Num {
					old.Num = r.Num
				}
				tables[t][r.ID] = old
			} else {
				tables[t][r.ID] = r
			}
		case ddd.OpDelete:
			delete(tables[t], r.ID)
		default:
			return fmt.Errorf("unknown op %d", a.Op)
		}
	}
	return nil
}

func query(tables map[string]map[string]Row, a *ddd.Action) error {
	t, q := rowOf(a.Query)
	var ids []string
	for id := range tables[t] {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return len(ids[i]) < len(ids[j]) || len(ids[i]) == len(ids[j]) && ids[i] < ids[j] })
	out := reflect.ValueOf(a.QueryResult).Elem()
	for _, id := range ids {
		r := tables[t][id]
		if (q.ID == "" || q.ID == r.ID) && (q.Parent == "" || q.Parent == r.Parent) && (q.Name == "" || q.Name == r.Name) && (q.Num == 0 || q.Num == r.Num) {
			out.Set(reflect.Append(out, reflect.ValueOf(newModel(t, r))))
		}
	}
	return nil
}

// ---- lock, id generator, bus ----

type traceLock struct{ w *World }

type lockToken struct {
	key      string
	released int
}

func (l *traceLock) Lock(ctx context.Context, key string) (interface{}, error) {
	if err := l.w.step("lock"); err != nil {
		return nil, err
	}
	l.w.trace = append(l.w.trace, Ev{K: "lock", Name: key})
	return &lockToken{key: key}, nil
}

func (l *traceLock) UnLock(ctx context.Context, k interface{}) error {
	t, ok := k.(*lockToken)
	if !ok {
		l.w.bug("lock", "unlock called with %v, not a token returned by lock", k)
		return errors.New("bad token")
	}
	if err := ctx.Err(); err != nil { // as a real lock would
		return err
	}
	if d, ok := ctx.Deadline(); ok && !time.Now().Before(d) { // likewise
		return context.DeadlineExceeded
	}
	l.w.trace = append(l.w.trace, Ev{K: "unlock", Name: t.key})
	t.released++
	if t.released > 1 {
		l.w.bug("lock", "lock %s released twice", t.key)
	}
	return l.w.soft("unlock")
}

type seqIDs struct{ w *World }

func (g *seqIDs) NewID() (string, error) {
	if err := g.w.step("genid"); err != nil {
		return "", err
	}
	g.w.genSeq++
	id := fmt.Sprintf("g%d", g.w.genSeq)
	g.w.issued[id] = g.w.save
	g.w.trace = append(g.w.trace, Ev{K: "genid", Name: id, Save: g.w.save})
	return id, nil
}

type plainBus struct{ w *World }

func ids(evts []*ddd.DomainEvent) []string {
	r := []string{}
	for _, e := range evts {
		r = append(r, e.ID)
	}
	return r
}

func (b *plainBus) RegisterEventHandler(cb ddd.DomainEventHandler) {}
func (b *plainBus) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	b.w.trace = append(b.w.trace, Ev{K: "dispatch", IDs: ids(evts), ctx: ctx})
	b.w.checkEvents(evts)
	if err := b.w.step("dispatch"); err != nil {
		b.w.trace[len(b.w.trace)-1].Err = true
		return err
	}
	return nil
}

type txBus struct{ plainBus }

func (b *txBus) RegisterEventTXChecker(cb ddd.DomainEventTXChecker) {}
func (b *txBus) DispatchBegin(ctx context.Context, evts ...*ddd.DomainEvent) (context.Context, error) {
	b.w.trace = append(b.w.trace, Ev{K: "txbegin", IDs: ids(evts), ctx: ctx})
	b.w.checkEvents(evts)
	if err := b.w.step("txbegin"); err != nil {
		b.w.trace[len(b.w.trace)-1].Err = true
		return ctx, err
	}
	return context.WithValue(ctx, ctxKey("evt"), b.w), nil
}

func (b *txBus) Commit(ctx context.Context) error {
	b.w.trace = append(b.w.trace, Ev{K: "txcommit"})
	if ctx == nil || ctx.Value(ctxKey("evt")) != b.w {
		b.w.bug("tx-events", "confirm did not get the context returned when announcing")
	}
	return b.w.soft("txcommit")
}

func (b *txBus) Rollback(ctx context.Context) error {
	b.w.trace = append(b.w.trace, Ev{K: "txrollback"})
	if len(b.w.trace) > 0 && (ctx == nil || ctx.Value(ctxKey("evt")) != b.w) && !b.w.announceFailed() {
		b.w.bug("tx-events", "cancel did not get the context returned when announcing")
	}
	return b.w.soft("txrollback")
}

func (w *World) announceFailed() bool {
	for _, e := range w.trace {
		if e.K == "txbegin" && e.Err {
			return true
		}
	}
	return false
}

func (w *World) checkEvents(evts []*ddd.DomainEvent) {
	for _, e := range evts {
		found := false
		for _, x := range w.events {
			if x.id == e.ID {
				found = true
				if string(e.Payload) != x.payload || e.SendType != x.sendType || e.Sender != "snd" || e.Type != evType {
					w.bug("events", "event %s was changed before dispatch: %+v", e.ID, e)
				}
			}
		}
		if !found {
			w.bug("events", "dispatched an event nobody raised: %s", e.ID)
		}
	}
}

// ---- events ----

const evType = ddd.EventType("verif.engine.evt")

type evBody struct{ Seq int }

func (e *evBody) GetType() ddd.EventType { return evType }
func (e *evBody) GetSender() string      { return "snd" }

var sendTypes = []ddd.SendType{ddd.SendTypeNormal, ddd.SendTypeTransaction, ddd.SendTypeFIFO, ddd.SendTypeTransaction, ddd.SendTypeLaxFIFO}

func (w *World) raise(n node, st int) {
	seq := len(w.events)
	t := sendTypes[st%len(sendTypes)]
	before := len(n.GetEvents())
	n.core().AddEvent(&evBody{Seq: seq}, ddd.WithSendType(t))
	evs := n.GetEvents()
	if len(evs) != before+1 {
		w.bug("events", "AddEvent did not record the event")
		return
	}
	w.events = append(w.events, &emitted{id: evs[before].ID, seq: seq, payload: fmt.Sprintf(`{"Seq":%d}`, seq), sendType: t, from: n, at: evs[before].CreatedAt})
}

// ---- hooks of entities ----

func (w *World) hook(name string, c *Core) error {
	if w == nil {
		kit.Harness("hook %s on an entity that is not attached to a world", name)
	}
	n := w.nodes[c.h]
	w.trace = append(w.trace, Ev{K: "hook", Name: name, H: c.h, Save: w.save})
	if err := w.step("hook" + name); err != nil {
		return err
	}
	if strings.HasPrefix(name, "Before") {
		if c.Flags&flagStamp != 0 && name != "BeforeDelete" {
			c.Num += 100000
		}
		if c.Flags&flagSetID != 0 && name == "BeforeCreate" && n.GetID() == "" {
			n.SetID(fmt.Sprintf("hook%d", c.h))
		}
		if c.Flags&flagBefore != 0 {
			w.raise(n, c.h)
		}
	} else if c.Flags&flagEvt != 0 {
		w.raise(n, c.h+1)
	}
	return nil
}

// ---- tree helpers ----

func (w *World) register(n node, t *Tree) {
	c := n.core()
	c.w = w
	c.h = len(w.nodes)
	decorate(n)
	w.nodes = append(w.nodes, n)
	if t != nil {
		c.Flags = t.Flags
		c.omit = t.Omit
	}
}

func children(n node) []node {
	var r []node
	for _, s := range n.slots() {
		r = append(r, s.list()...)
	}
	return r
}

func walkNodes(n, parent node, f func(n, parent node)) {
	f(n, parent)
	for _, c := range children(n) {
		walkNodes(c, n, f)
	}
}

func has(l []node, n node) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func without(l []node, n node) []node {
	var r []node
	for _, x := range l {
		if x != n {
			r = append(r, x)
		}
	}
	return r
}

func holderOf(top, n node) (node, *slot) {
	var hp node
	var hs *slot
	walkNodes(top, nil, func(x, _ node) {
		for _, s := range x.slots() {
			if has(s.list(), n) && hp == nil {
				s := s
				hp, hs = x, &s
			}
		}
	})
	return hp, hs
}

// place puts n into a compatible slot of p; returns what it displaced.
func place(p, n node, sel int) (displaced node, ok bool) {
	var cs []slot
	for _, s := range p.slots() {
		if s.accepts(n.kind()) {
			cs = append(cs, s)
		}
	}
	if len(cs) == 0 {
		return nil, false
	}
	s := cs[abs(sel)%len(cs)]
	if s.single {
		if l := s.list(); len(l) > 0 {
			displaced = l[0]
			if displaced == n {
				return nil, false
			}
			s.del(displaced, false)
		}
	} else if has(s.list(), n) {
		return nil, false
	}
	s.add(n)
	return displaced, true
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func (w *World) newTree(t *Tree, prefix string) node {
	n := newNode(t.Kind % nKinds)
	w.register(n, t)
	n.core().Name = fmt.Sprintf("n%d", t.Name)
	n.core().Num = t.Name
	if t.ID {
		n.SetID(fmt.Sprintf("%s%d", prefix, n.core().h))
	}
	for i := range t.Kids {
		k := w.newTree(&t.Kids[i], prefix)
		place(n, k, t.Kids[i].Slot) // an incompatible or displaced kid is simply not attached
	}
	return n
}

var discard = logr.Discard()
