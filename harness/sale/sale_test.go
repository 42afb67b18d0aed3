// Package sale checks the bundled sample service (C32): the example's own handlers,
// commands, domain, mapping and queries run behind its HTTP handler on the real engine and
// SQL executor; database, time, faults and interleavings are simulated.
package sale

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http/httptest"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	"github.com/bytedance/dddfirework/example/biz/sale/application/query"
	"github.com/bytedance/dddfirework/example/biz/sale/domain"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure/po"
	"github.com/bytedance/dddfirework/example/biz/sale/infrastructure/repo"
	"github.com/bytedance/dddfirework/example/common/dto/sale"
	"github.com/bytedance/dddfirework/example/event_handler"
	"github.com/bytedance/dddfirework/example/handler"
	"github.com/bytedance/dddfirework/example/handler/util"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

// ---- scenarios ----

type Item struct {
	Code  string `json:"c"`
	Name  string `json:"n,omitempty"`
	Price int64  `json:"p,omitempty"`
	Count int32  `json:"k,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
}

type Coupon struct {
	ID       string `json:"id"`
	Rule     string `json:"r,omitempty"`
	Discount int64  `json:"d,omitempty"`
	Nil      bool   `json:"nil,omitempty"`
}

const (
	create = iota
	addItem
	addCoupon
	update
	remove
	get
	unknown // an action the service does not have
	garbage // a body that is not JSON
	work    // a command of the deprecated form that loads the order through the repo package and works on it
	insert  // a command that adds an order with a remark
	nKinds
)

type Req struct {
	Kind    int      `json:"k"`
	Target  int      `json:"o,omitempty"` // an order made before, or none
	At      int      `json:"at,omitempty"`
	User    string   `json:"u,omitempty"`
	Items   []Item   `json:"items,omitempty"`
	Coupons []Coupon `json:"coupons,omitempty"`
	Remark  *string  `json:"rem,omitempty"`
	Op      int      `json:"op,omitempty"` // work: 0 reads only, 1 deletes an item, 2 a coupon, 3 replaces an item, 4 sets the remark
	Nth     int      `json:"nth,omitempty"`
}

type List struct {
	User   *string `json:"u,omitempty"`
	Begin  *int    `json:"b,omitempty"` // seconds since the start
	End    *int    `json:"e,omitempty"`
	Offset *int    `json:"off,omitempty"`
	Limit  *int    `json:"lim,omitempty"`
}

type Batch struct {
	Gap     int   `json:"gap,omitempty"` // ms before it
	Reqs    []Req `json:"r"`
	Fault   int   `json:"f,omitempty"`  // the n-th database step from its start fails
	LockErr int   `json:"le,omitempty"` // the n-th lock taken in it cannot be had
	BusErr  int   `json:"be,omitempty"` // the n-th dispatch fails
	QFault  int   `json:"qf,omitempty"` // the n-th step of a query after it fails
	List    List  `json:"list"`
}

type Scenario struct {
	Batches []Batch `json:"b"`
	Lat     []int   `json:"lat,omitempty"` // ms per database step
}

var users = []string{"u1", "u2", "U1", "", "ü'; --"}
var words = []string{"a", "b", "", "-", "O'Neil", "日本語", "0", "null"}

func genItem(t *rapid.T) Item {
	i := Item{Code: kit.Pick(t, words, "code"), Name: kit.Pick(t, words, "name"), Price: int64(kit.Range(t, 0, 20, "price")), Count: int32(kit.Range(t, 0, 5, "count"))}
	switch kit.N(t, 16, "odd") {
	case 12:
		i.Price = -i.Price
	case 13:
		i.Price, i.Count = 1<<40+7, 1<<16+1
	case 14:
		i.Count = -i.Count
	case 15:
		i.Nil = kit.Pct(t, 30, "nil")
	}
	return i
}

func genCoupon(t *rapid.T) Coupon {
	return Coupon{ID: kit.Pick(t, []string{"c1", "c2", "c3", ""}, "id"), Rule: kit.Pick(t, words, "rule"), Discount: int64(kit.Range(t, -3, 30, "disc")), Nil: kit.Pct(t, 2, "nil")}
}

func genReq(t *rapid.T) Req {
	k := kit.Pick(t, []int{create, create, create, addItem, addItem, addItem, addItem, addCoupon, addCoupon, addCoupon, update, update, remove, get, unknown, garbage, work, work, work, insert}, "kind")
	r := Req{Kind: k, Target: kit.N(t, 6, "order"), At: kit.Pick(t, []int{0, 0, 1, 3, 10}, "at")}
	switch k {
	case create:
		r.User = kit.Pick(t, users, "user")
		r.Items = kit.List(t, 0, 3, "items", genItem)
		r.Coupons = kit.List(t, 0, 2, "coupons", genCoupon)
	case insert:
		r.User = kit.Pick(t, users, "user")
		r.Items = kit.List(t, 0, 2, "items", genItem)
		s := kit.Pick(t, words, "remark")
		r.Remark = &s
	case work:
		r.Op, r.Nth = kit.N(t, 5, "op"), kit.N(t, 4, "nth")
		r.Items = []Item{genItem(t)}
		s := kit.Pick(t, words, "remark")
		r.Remark = &s
	case addItem:
		r.Items = []Item{genItem(t)}
	case addCoupon:
		r.Coupons = []Coupon{genCoupon(t)}
	case update:
		if !kit.Pct(t, 15, "noremark") {
			s := kit.Pick(t, words, "remark")
			r.Remark = &s
		}
	}
	return r
}

func opt(t *rapid.T, pct, lo, hi int, name string) *int {
	if !kit.Pct(t, pct, name) {
		return nil
	}
	v := kit.Range(t, lo, hi, name+"-v")
	return &v
}

func gen(t *rapid.T) Scenario {
	s := Scenario{}
	s.Batches = kit.List(t, 1, 8, "batches", func(t *rapid.T) Batch {
		b := Batch{Gap: kit.Pick(t, []int{0, 7, 400, 1000, 1500}, "gap")}
		n := kit.Pick(t, []int{1, 1, 2, 2, 3, 4}, "conc")
		b.Reqs = kit.List(t, n, n, "reqs", genReq)
		if n > 1 && kit.Pct(t, 60, "same") { // all on one order
			for k := range b.Reqs {
				b.Reqs[k].Target = b.Reqs[0].Target
			}
		}
		switch kit.N(t, 20, "trouble") {
		case 16, 17:
			b.Fault = kit.Range(t, 1, 12, "fault")
		case 18:
			b.LockErr = kit.Range(t, 1, 2, "lockerr")
		case 19:
			b.BusErr = kit.Range(t, 1, 2, "buserr")
		}
		if kit.Pct(t, 25, "qf") {
			b.QFault = kit.Range(t, 1, 3, "qfault")
		}
		if kit.Pct(t, 60, "user") {
			u := kit.Pick(t, users, "luser")
			b.List.User = &u
		}
		b.List.Begin = opt(t, 40, 0, 6, "begin")
		b.List.End = opt(t, 40, 0, 8, "end")
		b.List.Limit = opt(t, 40, 1, 4, "limit")
		if b.List.Limit != nil {
			b.List.Offset = opt(t, 50, 0, 3, "offset")
		}
		return b
	})
	if !kit.Pct(t, 20, "instant") {
		s.Lat = kit.List(t, 1, 7, "lat", func(t *rapid.T) int { return kit.Pick(t, []int{0, 1, 2, 5, 20}, "ms") })
	}
	return s
}

// ---- the world ----

type order struct {
	id, user string
	items    []string
	coupons  []string
	total    int64 // what its items and coupons add up to
	stored   int64 // what is stored (differs only by a listed finding)
	sum      int64
	remarks  []string // what the remark may be
	from, to time.Time
}

type reply struct {
	r       *Req
	id      string // the order asked for
	code    int
	body    string
	panicky any
	gone    []string // keys of items and coupons taken out
	less    int64    // what they were worth
	saw     *order   // the order as loaded
}

type world struct {
	s       Scenario
	o       *kit.Outcome
	sim     *simdb.Sim
	st      *simdb.Store
	ex      *exec.Executor
	http    func(action string, body io.Reader) (int, string, any)
	live    map[string]*order
	ids     []string
	gone    map[string]bool
	rows    map[string]bool   // item rows seen so far
	coupons map[string]string // coupon IDs by row
	t0      time.Time
	quiet   bool

	mu     sync.Mutex
	locks  map[string]chan struct{}
	taken  int
	lockAt int
	sends  int
	busAt  int
	steps  int
	failAt int
	sent   []*ddd.DomainEvent
}

var (
	cur    *world
	once   sync.Once
	store  *simdb.Store
	engine *ddd.Engine
	cb     ddd.DomainEventHandler
	deaf   []string // types whose events nobody looks at
)

// the engine is made once, as in the example's main; its components hand on to the scenario
type lockFwd struct{}
type busFwd struct{}
type execFwd struct{}

func (execFwd) Begin(ctx context.Context) (context.Context, error) { return cur.ex.Begin(ctx) }
func (execFwd) Commit(ctx context.Context) error                   { return cur.ex.Commit(ctx) }
func (execFwd) RollBack(ctx context.Context) error                 { return cur.ex.RollBack(ctx) }
func (execFwd) Entity2Model(e, p ddd.IEntity, op ddd.OpType) (ddd.IModel, error) {
	return cur.ex.Entity2Model(e, p, op)
}
func (execFwd) Model2Entity(m ddd.IModel, e ddd.IEntity) error { return cur.ex.Model2Entity(m, e) }
func (execFwd) Exec(ctx context.Context, a *ddd.Action) error  { return cur.ex.Exec(ctx, a) }

func (lockFwd) Lock(ctx context.Context, key string) (any, error) {
	w := cur
	w.mu.Lock()
	w.taken++
	if w.taken == w.lockAt {
		w.mu.Unlock()
		return nil, errors.New("simulated: the lock cannot be had")
	}
	c := w.locks[key]
	if c == nil {
		c = make(chan struct{}, 1)
		w.locks[key] = c
	}
	w.mu.Unlock()
	select {
	case c <- struct{}{}:
		return c, nil
	case <-time.After(time.Hour):
		return nil, errors.New("simulated: the lock stays taken")
	}
}

func (lockFwd) UnLock(ctx context.Context, l any) error {
	<-l.(chan struct{})
	return nil
}

func (busFwd) RegisterEventHandler(f ddd.DomainEventHandler) { cb = f }
func (busFwd) Dispatch(ctx context.Context, evts ...*ddd.DomainEvent) error {
	w := cur
	w.mu.Lock()
	defer w.mu.Unlock()
	w.sends++
	if w.sends == w.busAt {
		return errors.New("simulated: the bus is down")
	}
	w.sent = append(w.sent, evts...)
	return nil
}

func setup() {
	once.Do(func() {
		kit.Quiet()
		store = simdb.NewStore(&po.OrderPO{}, &po.CouponPO{}, &po.SaleItemPO{})
		engine = ddd.NewEngine(lockFwd{}, execFwd{}, ddd.WithEventBus(busFwd{}))
		infrastructure.Init()
		event_handler.Register(engine)
		if cb == nil {
			kit.Harness("the engine did not register with the bus")
		}
		for _, typ := range []ddd.EventType{"order_created", "order_sale_item_added"} {
			if cb(context.Background(), &ddd.DomainEvent{ID: "x", Type: typ, Payload: []byte(`[`), CreatedAt: time.Now()}) == nil {
				deaf = append(deaf, string(typ))
			}
		}
		// fill schema caches outside a bubble
		a := simdb.NewSim(store).Actor(0)
		w := &world{ex: exec.NewExecutor(a.Gorm()), locks: map[string]chan struct{}{}}
		cur = w
		query.Init(a.Gorm())
		g := handlerOf()
		h := func(action, body string) (int, string, any) { return g(action, strings.NewReader(body)) }
		_, id, _ := h("CreateOrder", `{"User":"u","Items":[{"Code":"c","Count":1,"Price":2}],"Coupons":[{"ID":"c"}]}`)
		var r handler.CreateOrderResponse
		_ = json.Unmarshal([]byte(id), &r)
		for _, a := range []string{"AddSaleItem", "AddCoupon"} {
			h(a, fmt.Sprintf(`{"OrderID":%q,"Item":{"Code":"c","Price":1,"Count":1},"Coupon":{"ID":"c"}}`, r.OrderID))
		}
		h("UpdateOrder", fmt.Sprintf(`{"ID":%q,"Remark":"x"}`, r.OrderID))
		for _, op := range []int{0, 3, 1, 2, 4} {
			x := "x"
			w.command(&reply{id: r.OrderID, r: &Req{Kind: work, Op: op, Items: []Item{{Code: "c", Price: 1, Count: 1}}, Remark: &x}})
			h("AddSaleItem", fmt.Sprintf(`{"OrderID":%q,"Item":{"Code":"c","Price":1,"Count":1}}`, r.OrderID))
		}
		x := "x"
		w.command(&reply{r: &Req{Kind: insert, Items: []Item{{Code: "c"}}, Remark: &x}})
		h("GetOrder", fmt.Sprintf(`{"ID":%q}`, r.OrderID))
		h("GetOrderList", `{}`)
		h("DeleteOrder", fmt.Sprintf(`{"ID":%q}`, r.OrderID))
	})
}

func handlerOf() func(action string, body io.Reader) (int, string, any) {
	f := util.Handler(handler.NewSaleService(engine))
	return func(action string, body io.Reader) (code int, out string, p any) {
		defer func() { p = recover() }()
		rec := httptest.NewRecorder()
		f(rec, httptest.NewRequest("POST", "/?Action="+url.QueryEscape(action), body))
		return rec.Code, rec.Body.String(), nil
	}
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		kit.Harness("%v", err)
	}
	return string(b)
}

func dtoItem(i Item) *sale.SaleItem {
	if i.Nil {
		return nil
	}
	return &sale.SaleItem{Code: i.Code, Name: i.Name, Price: i.Price, Count: i.Count}
}

func dtoCoupon(c Coupon) *sale.Coupon {
	if c.Nil {
		return nil
	}
	return &sale.Coupon{ID: c.ID, Rule: c.Rule, Discount: c.Discount}
}

func itemKey(code, name string, price int64, count int32) string {
	return fmt.Sprintf("%q %q %d x %d", code, name, price, count)
}
func couponKey(id, rule string, d int64) string { return fmt.Sprintf("%q %q -%d", id, rule, d) }

func (r *Req) call(id string) (action, body string) {
	switch r.Kind {
	case create:
		q := handler.CreateOrderRequest{User: r.User}
		for _, i := range r.Items {
			q.Items = append(q.Items, dtoItem(i))
		}
		for _, c := range r.Coupons {
			q.Coupons = append(q.Coupons, dtoCoupon(c))
		}
		return "CreateOrder", js(q)
	case addItem:
		return "AddSaleItem", js(handler.AddSaleItemRequest{OrderID: id, Item: dtoItem(r.Items[0])})
	case addCoupon:
		return "AddCoupon", js(handler.AddCouponRequest{OrderID: id, Coupon: dtoCoupon(r.Coupons[0])})
	case update:
		return "UpdateOrder", js(handler.UpdateOrderRequest{ID: id, Remark: r.Remark})
	case remove:
		return "DeleteOrder", js(handler.DeleteOrderRequest{ID: id})
	case get:
		return "GetOrder", js(handler.GetOrderRequest{ID: id})
	case unknown:
		return []string{"Engine", "", "createOrder", "NoSuch"}[r.Target%4], "{}"
	case work, insert:
		return fmt.Sprintf("command %d.%d", r.Kind, r.Op), js(map[string]any{"order": id, "user": r.User, "items": r.Items, "remark": r.Remark, "nth": r.Nth})
	default:
		if r.Target == 5 {
			return "CreateOrder", `{"User":"broken off"}`
		}
		return []string{"CreateOrder", "AddSaleItem", "DeleteOrder", "GetOrder"}[r.Target%4], []string{"", "{", "[]", `{"ID":1,"OrderID":1,"User":1}`}[r.Target%4]
	}
}

// void tells whether a request lacks what it is about.
func (r *Req) void() bool {
	if r.Kind == work {
		return false
	}
	for _, i := range r.Items {
		if i.Nil {
			return true
		}
	}
	for _, c := range r.Coupons {
		if c.Nil {
			return true
		}
	}
	return false
}

func (r *Req) sum() (n int64) {
	for _, i := range r.Items {
		n += i.Price * int64(i.Count)
	}
	for _, c := range r.Coupons {
		n -= c.Discount
	}
	return n
}

func (r *Req) keys() (items, coupons []string) {
	for _, i := range r.Items {
		items = append(items, itemKey(i.Code, i.Name, i.Price, i.Count))
	}
	for _, c := range r.Coupons {
		coupons = append(coupons, couponKey(c.ID, c.Rule, c.Discount))
	}
	return
}

func sorted(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// contains tells whether multiset l has all of m.
func contains(l, m []string) bool {
	n := map[string]int{}
	for _, x := range l {
		n[x]++
	}
	for _, x := range m {
		if n[x]--; n[x] < 0 {
			return false
		}
	}
	return true
}

func run(t *testing.T, s Scenario) (o kit.Outcome) {
	setup()
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, o: &o, st: store, sim: simdb.NewSim(store), live: map[string]*order{}, gone: map[string]bool{}, rows: map[string]bool{}, coupons: map[string]string{}, locks: map[string]chan struct{}{}, t0: time.Now(), quiet: true}
		if os.Getenv("VERIF_TRACE") != "" {
			w.sim.Trace = func(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
		}
		a := w.sim.Actor(0)
		db := a.Gorm()
		w.ex = exec.NewExecutor(db)
		query.Init(db)
		cur = w
		w.http = handlerOf()
		w.sim.Latency = func(a *simdb.Actor, n int) time.Duration {
			if w.quiet || len(s.Lat) == 0 {
				return 0
			}
			return time.Duration(s.Lat[n%len(s.Lat)]) * time.Millisecond
		}
		w.sim.Fault = func(a *simdb.Actor, n int, op string) simdb.Fault {
			if w.quiet {
				return simdb.None
			}
			if w.steps++; w.steps == w.failAt {
				return simdb.ErrBefore
			}
			return simdb.None
		}
		if len(deaf) > 0 {
			o.Failf("the service does not handle events of type %q", deaf)
		}
		for k := range s.Batches {
			if o.Fail != "" {
				return
			}
			w.batch(&s.Batches[k])
		}
	})
	return o
}

func (w *world) batch(b *Batch) {
	o := w.o
	time.Sleep(time.Duration(b.Gap) * time.Millisecond)
	w.mu.Lock()
	w.taken, w.sends, w.steps, w.lockAt, w.busAt, w.failAt, w.sent, w.quiet = 0, 0, 0, b.LockErr, b.BusErr, b.Fault, nil, false
	w.mu.Unlock()
	faults := w.sim.Faults
	from := time.Now()
	var wg sync.WaitGroup
	reps := make([]*reply, len(b.Reqs))
	alone := len(b.Reqs) == 1
	for k := range b.Reqs {
		r := &b.Reqs[k]
		p := &reply{r: r, id: "no-such-order"}
		if r.Kind != create && r.Kind != insert && len(w.ids) > 0 && r.Target < 5 {
			p.id = w.ids[len(w.ids)-1-r.Target%len(w.ids)]
		}
		reps[k] = p
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(r.At) * time.Millisecond)
			if r.Kind == work || r.Kind == insert {
				w.command(p)
				return
			}
			action, body := r.call(p.id)
			in := io.Reader(strings.NewReader(body))
			if r.Kind == garbage && r.Target == 5 { // the client breaks off
				in = io.MultiReader(in, iotest.ErrReader(errors.New("simulated: the connection broke")))
			}
			p.code, p.body, p.panicky = w.http(action, in)
		}()
	}
	wg.Wait()
	to := time.Now()
	w.mu.Lock()
	w.quiet = true
	trouble := w.sim.Faults > faults || (b.LockErr > 0 && w.taken >= b.LockErr) || (b.BusErr > 0 && w.sends >= b.BusErr)
	sent := w.sent
	w.mu.Unlock()
	if len(b.Reqs) > 1 {
		o.Class("concurrent")
	}
	if trouble {
		o.Class("trouble")
	}
	deleting := map[string]bool{}
	for _, p := range reps {
		if p.r.Kind == remove {
			deleting[p.id] = true
		}
	}
	wantEv := map[string]int{} // events of successful requests
	mayEv := map[string]int{}  // events a failed one may have sent
	bad := func(p *reply, f string, a ...any) {
		action, body := p.r.call(p.id)
		o.Failf("%s %s is answered %d %s: %s", action, body, p.code, strings.TrimSpace(p.body), fmt.Sprintf(f, a...))
	}
	before := map[string]order{}
	for id, m := range w.live {
		c := *m
		c.items, c.coupons = append([]string{}, m.items...), append([]string{}, m.coupons...)
		before[id] = c
	}
	// what the requests of the batch may have added to an order
	more := map[string]*order{}
	touched := map[string]int{}
	remarks := map[string][]string{}
	removed := map[string][]string{} // what may be taken out
	later := map[string][]string{}   // what is
	alones := map[string][]int64{}   // what each item or coupon added is worth
	changed := map[string]bool{}     // orders whose total was calculated
	for _, p := range reps {
		if p.code == 200 && (p.r.Kind == addItem || p.r.Kind == addCoupon) {
			alones[p.id] = append(alones[p.id], p.r.sum())
			changed[p.id] = true
		}
		if p.code == 200 && p.r.Kind == work && (len(p.gone) > 0 || p.r.Op == 3) {
			changed[p.id] = true
		}
	}
	var cps []po.CouponPO
	if err := w.st.Gorm().Find(&cps).Error; err != nil {
		kit.Harness("%v", err)
	}
	for _, c := range cps {
		w.coupons[c.ID] = c.CouponID
	}
	for _, p := range reps {
		r := p.r
		if p.panicky != nil && r.void() { // net/http ends the connection
			p.code, p.panicky = 500, nil
		}
		if p.panicky != nil {
			bad(p, "the handler panics: %v", p.panicky)
			return
		}
		_, lives := before[p.id]
		o.Class("req:%s:%d", []string{"create", "addItem", "addCoupon", "update", "remove", "get", "unknown", "garbage", "work", "insert"}[r.Kind], p.code)
		switch r.Kind {
		case unknown, garbage:
			want := 404
			if r.Kind == garbage {
				want = 400
			}
			if p.code != want {
				bad(p, "expected %d", want)
			}
			continue
		case create, insert:
			lives = true
		}
		if p.code != 200 && p.code != 500 {
			bad(p, "neither success nor failure")
			continue
		}
		okay := p.code == 200
		may := !okay || deleting[p.id]
		switch {
		case okay && r.void():
			bad(p, "the request is void")
		case okay && !lives && r.Kind != remove:
			bad(p, "there is no such order")
		case !okay && lives && !deleting[p.id] && !trouble && !r.void():
			bad(p, "nothing was in its way")
		}
		if o.Fail != "" {
			return
		}
		if m := more[p.id]; m == nil && r.Kind != create && r.Kind != insert {
			more[p.id] = &order{}
		}
		count := func(k string) {
			if may {
				mayEv[k]++
			} else {
				wantEv[k]++
			}
		}
		items, coupons := r.keys()
		if m := p.saw; m != nil {
			b, known := before[p.id]
			if !known {
				continue
			}
			if m.total != m.sum && (m.total == b.stored || has(alones[p.id], m.total)) {
				o.Finding("C32", "total-of-new-alone", "a loaded order has the total %d, what is loaded with it adds up to %d", m.total, m.sum)
			} else if m.total != m.sum {
				o.Failf("a loaded order has the total %d, what is loaded with it adds up to %d", m.total, m.sum)
			}
			if m.user != b.user || alone && (sorted(m.items) != sorted(b.items) || sorted(m.coupons) != sorted(b.coupons) || m.total != b.stored || !in(b.remarks, m.remarks[0])) {
				o.Failf("an order of user %q with items [%s], coupons [%s], total %d and remark %q is loaded as %q [%s] [%s] %d %q", b.user, sorted(b.items), sorted(b.coupons), b.stored, b.remarks, m.user, sorted(m.items), sorted(m.coupons), m.total, m.remarks)
			}
		}
		switch r.Kind {
		case insert:
			if okay {
				if w.live[p.body] != nil || w.gone[p.body] || p.body == "" {
					bad(p, "an ID already given, or none")
					return
				}
				p.id = p.body
				m := &order{id: p.id, user: r.User, items: items, total: r.sum(), stored: r.sum(), remarks: []string{*r.Remark}, from: from, to: to}
				if *r.Remark == "" {
					m.remarks[0] = "-"
				}
				w.live[p.id] = m
				w.ids = append(w.ids, p.id)
			} else {
				p.id = ""
			}
			if !r.void() {
				count("created " + p.id)
				for range items {
					count("item " + p.id)
				}
			}
		case work:
			if len(p.gone) > 0 {
				o.Class("taken out")
			}
			removed[p.id] = append(removed[p.id], p.gone...)
			if r.Op == 3 {
				more[p.id].items = append(more[p.id].items, items...)
				count("item " + p.id)
			}
			if !okay {
				break
			}
			touched[p.id]++
			if r.Op == 4 {
				remarks[p.id] = append(remarks[p.id], *r.Remark)
			}
			if m := w.live[p.id]; m != nil {
				m.total -= p.less
				for _, k := range p.gone {
					later[p.id] = append(later[p.id], k)
				}
				if r.Op == 3 {
					m.items, m.total = append(m.items, items...), m.total+r.sum()
				}
			}
		case create:
			if okay {
				var res handler.CreateOrderResponse
				if err := json.Unmarshal([]byte(p.body), &res); err != nil || res.OrderID == "" {
					bad(p, "no order ID in the answer")
					return
				}
				if w.live[res.OrderID] != nil || w.gone[res.OrderID] {
					bad(p, "an ID already given")
					return
				}
				p.id = res.OrderID
				w.live[p.id] = &order{id: p.id, user: r.User, items: items, coupons: coupons, total: r.sum(), stored: r.sum(), remarks: []string{"-"}, from: from, to: to}
				w.ids = append(w.ids, p.id)
			} else {
				p.id = "" // unknown
			}
			if !r.void() {
				count("created " + p.id)
				for range items {
					count("item " + p.id)
				}
				for _, c := range r.Coupons {
					count("coupon " + c.ID + " " + p.id)
				}
			}
		case addItem, addCoupon:
			more[p.id].items, more[p.id].coupons = append(more[p.id].items, items...), append(more[p.id].coupons, coupons...)
			if okay {
				touched[p.id]++
				if m := w.live[p.id]; m != nil {
					m.items, m.coupons, m.total = append(m.items, items...), append(m.coupons, coupons...), m.total+r.sum()
				}
			}
			if r.Kind == addItem {
				count("item " + p.id)
			} else {
				count("coupon " + r.Coupons[0].ID + " " + p.id)
			}
		case update:
			if okay {
				touched[p.id]++
				if r.Remark != nil {
					remarks[p.id] = append(remarks[p.id], *r.Remark)
				}
			}
		case remove:
			may = !okay || !lives || touched["del "+p.id] > 0
			touched["del "+p.id]++
			count("deleted " + p.id)
			if okay {
				delete(w.live, p.id)
				w.gone[p.id] = true
			}
		}
	}
	for id, l := range later {
		if m := w.live[id]; m != nil {
			for _, k := range l {
				m.items, m.coupons = without(m.items, k), without(m.coupons, k)
			}
		}
	}
	for id, n := range touched {
		if n > 1 && !strings.HasPrefix(id, "del ") {
			o.Class("same order")
			o.Nontrivial = true
		}
	}
	for id, l := range remarks {
		if m := w.live[id]; m != nil {
			m.remarks = l
		}
	}
	if trouble {
		o.Nontrivial = true
	}
	// orders read in the middle of it
	for _, p := range reps {
		m, ok := before[p.id]
		if p.r.Kind != get || p.code != 200 || !ok {
			continue
		}
		var res handler.GetOrderResponse
		if json.Unmarshal([]byte(p.body), &res) != nil || res.Order == nil {
			bad(p, "no order in the answer")
			return
		}
		items, coupons := keysOf(res.Order)
		if res.Order.ID != p.id || res.Order.UserID != m.user {
			bad(p, "not the order asked for")
		}
		coupons = w.byCouponID(res.Order.Coupons, len(removed[p.id]) > 0)
		if coupons == nil {
			continue
		}
		if len(items) == 0 && !deleting[p.id] && !contains(removed[p.id], m.items) {
			if !o.Finding("C32", "items-by-row-id", "an order is answered without items, added were [%s]", sorted(m.items)) {
				return
			}
			items = m.items
		}
		if !deleting[p.id] && (!contains(append(append([]string{}, items...), removed[p.id]...), m.items) || !contains(append(append([]string{}, coupons...), removed[p.id]...), m.coupons)) {
			bad(p, "something is missing")
		}
		if !contains(append(m.items, more[p.id].items...), items) || !contains(append(m.coupons, more[p.id].coupons...), coupons) {
			bad(p, "something was never added")
		}
	}
	if o.Fail == "" {
		w.readBack(alones, changed)
	}
	if o.Fail == "" && b.QFault > 0 {
		w.failing(b.QFault)
	}
	if o.Fail == "" {
		w.list(&b.List)
	}
	if o.Fail == "" {
		w.events(sent, wantEv, mayEv, len(later) > 0)
	}
	if len(w.live) > 1 {
		o.Class("several orders")
	}
}

func keysOf(r *sale.Order) (items, coupons []string) {
	for _, i := range r.Items {
		if i == nil {
			items = append(items, "null")
			continue
		}
		items = append(items, itemKey(i.Code, i.Name, i.Price, i.Count))
	}
	for _, c := range r.Coupons {
		if c == nil {
			coupons = append(coupons, "null")
			continue
		}
		coupons = append(coupons, couponKey(c.ID, c.Rule, c.Discount))
	}
	return
}

// byCouponID gives the keys of coupons answered with row IDs (nil: one is not known any more).
func (w *world) byCouponID(l []*sale.Coupon, taken bool) []string {
	res := []string{}
	for _, c := range l {
		if c == nil {
			return append(res, "null")
		}
		id := c.ID
		if x, ok := w.coupons[id]; ok {
			if !w.o.Finding("C32", "coupon-row-id", "a coupon %q is answered as %q", x, id) {
				return res
			}
			id = x
		} else if taken && len(id) == 20 {
			return nil
		}
		res = append(res, couponKey(id, c.Rule, c.Discount))
	}
	return res
}

func in(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func without(l []string, x string) []string {
	for k, y := range l {
		if x == y {
			return append(append([]string{}, l[:k]...), l[k+1:]...)
		}
	}
	return l
}

// ---- commands on the domain ----

type workCmd struct {
	ddd.Command
	p *reply
}

func (c *workCmd) Init(ctx context.Context) ([]string, error) { return []string{c.p.id}, nil }

func (c *workCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	m, err := repo.GetOrder(ctx, b, c.p.id)
	if err != nil {
		return nil, err
	}
	return []ddd.IEntity{m}, nil
}

func (c *workCmd) Act(ctx context.Context, _ ddd.RootContainer, roots ...ddd.IEntity) error {
	p, m := c.p, roots[0].(*domain.Order)
	saw := &order{id: m.GetID(), user: m.UserID, total: m.TotalAmount, remarks: []string{m.Remark}}
	for _, i := range m.Items {
		saw.items = append(saw.items, itemKey(i.Code, i.Name, i.Price, i.Count))
		saw.sum += i.Price * int64(i.Count)
	}
	for _, x := range m.Coupons {
		saw.coupons = append(saw.coupons, couponKey(x.CouponID, x.Rule, x.Discount))
		saw.sum -= x.Discount
	}
	p.saw = saw
	op := p.r.Op
	if (op == 1 || op == 3) && len(m.Items) > 0 {
		k := p.r.Nth % len(m.Items)
		i := m.Items[k]
		p.gone, p.less = []string{saw.items[k]}, i.Price*int64(i.Count)
		m.DeleteSaleItem(i.GetID())
	}
	if op == 2 && len(m.Coupons) > 0 {
		k := p.r.Nth % len(m.Coupons)
		x := m.Coupons[k]
		p.gone, p.less = []string{saw.coupons[k]}, -x.Discount
		if err := m.DeleteCoupon(x.GetID()); err != nil {
			return err
		}
	}
	if op == 3 {
		i := p.r.Items[0]
		m.AddSaleItem(i.Code, i.Name, i.Price, i.Count)
	}
	if op == 4 {
		m.Update(domain.UpdateOrderOpt{Remark: p.r.Remark})
	}
	return nil
}

func (w *world) command(p *reply) {
	defer func() { p.panicky = recover() }()
	p.code = 200
	var res *ddd.Result
	if p.r.Kind == work {
		res = engine.Run(context.Background(), &workCmd{p: p})
	} else {
		var m *domain.Order
		res = engine.Run(context.Background(), func(ctx context.Context, r *ddd.Repository) error {
			m = &domain.Order{UserID: p.r.User, Remark: *p.r.Remark}
			for _, i := range p.r.Items {
				i := dtoItem(i)
				m.AddSaleItem(i.Code, i.Name, i.Price, i.Count)
			}
			r.Add(m)
			return nil
		})
		if res.Error == nil {
			p.body = m.GetID()
		}
	}
	if res.Error != nil {
		p.code, p.body = 500, res.Error.Error()
	}
}

// ask sends a request outside the batches.
func (w *world) ask(action string, q any) (int, string, any) {
	return w.http(action, strings.NewReader(js(q)))
}

// failing lets a step of a query fail.
func (w *world) failing(n int) {
	q := func(action string, body any) (answered bool) {
		w.mu.Lock()
		w.steps, w.failAt, w.quiet = 0, n, false
		w.mu.Unlock()
		code, text, p := w.ask(action, body)
		w.mu.Lock()
		hit := w.steps >= n
		w.quiet = true
		w.mu.Unlock()
		if hit && (code != 500 || p != nil) {
			w.o.Failf("%s %s, whose step %d in the database fails, is answered %d %s %v", action, js(body), n, code, text, p)
		}
		w.o.Class("failing query")
		return hit
	}
	for id := range w.live {
		q("GetOrder", handler.GetOrderRequest{ID: id})
		break
	}
	q("GetOrderList", handler.GetOrderListRequest{})
}

func has(l []int64, x int64) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (w *world) readBack(alones map[string][]int64, changed map[string]bool) {
	o := w.o
	plain := w.st.Gorm()
	var its []po.SaleItemPO
	if err := plain.Find(&its).Error; err != nil {
		kit.Harness("%v", err)
	}
	var cps []po.CouponPO
	if err := plain.Find(&cps).Error; err != nil {
		kit.Harness("%v", err)
	}
	itemRows, couponRows, byRow := map[string][]string{}, map[string][]string{}, map[string][]string{}
	for _, r := range its {
		itemRows[r.OrderID] = append(itemRows[r.OrderID], itemKey(r.Code, r.Name, r.Price, r.Count))
	}
	for _, r := range cps {
		couponRows[r.OrderID] = append(couponRows[r.OrderID], couponKey(r.CouponID, r.Rule, r.Discount))
		byRow[r.OrderID] = append(byRow[r.OrderID], couponKey(r.ID, r.Rule, r.Discount))
	}
	for _, id := range w.ids {
		code, body, p := w.ask("GetOrder", handler.GetOrderRequest{ID: id})
		m := w.live[id]
		if m == nil {
			if code != 500 || p != nil {
				o.Failf("a removed order is answered with %d %s %v", code, body, p)
			}
			continue
		}
		var res handler.GetOrderResponse
		if code != 200 || p != nil || json.Unmarshal([]byte(body), &res) != nil || res.Order == nil {
			o.Failf("a stored order is answered with %d %s %v", code, body, p)
			return
		}
		items, coupons := keysOf(res.Order)
		if res.Order.ID != id || res.Order.UserID != m.user {
			o.Failf("order %s of user %q is answered with %s", id, m.user, body)
		}
		if sorted(itemRows[id]) != sorted(m.items) || sorted(couponRows[id]) != sorted(m.coupons) {
			o.Failf("the rows of an order are items [%s] and coupons [%s], added were [%s] and [%s]", sorted(itemRows[id]), sorted(couponRows[id]), sorted(m.items), sorted(m.coupons))
		}
		if len(items) == 0 && len(m.items) > 0 {
			o.Finding("C32", "items-by-row-id", "an order is answered without items, added were [%s]", sorted(m.items))
		} else if sorted(items) != sorted(m.items) {
			o.Failf("an order has the items [%s], added were [%s]", sorted(items), sorted(m.items))
		}
		if len(coupons) > 0 && sorted(coupons) == sorted(byRow[id]) {
			o.Finding("C32", "coupon-row-id", "an order is answered with the coupons [%s], added were [%s]", sorted(coupons), sorted(m.coupons))
		} else if sorted(coupons) != sorted(m.coupons) {
			o.Failf("an order has the coupons [%s], added were [%s]", sorted(coupons), sorted(m.coupons))
		}
		total := res.Order.TotalAmount
		if was := m.stored; total != m.total && (has(alones[id], total) || !changed[id] && total == was) {
			o.Finding("C32", "total-of-new-alone", "an order's total is %d, its items [%s] and coupons [%s] add up to %d", total, sorted(m.items), sorted(m.coupons), m.total)
		} else if total != m.total {
			o.Failf("an order's total is %d, its items [%s] and coupons [%s] add up to %d", total, sorted(m.items), sorted(m.coupons), m.total)
		}
		m.stored = total
		if len(m.items)+len(m.coupons) > 1 {
			o.Nontrivial = true
		}
	}
	// the rows
	var os []po.OrderPO
	if err := plain.Find(&os).Error; err != nil {
		kit.Harness("%v", err)
	}
	for _, r := range os {
		m := w.live[r.ID]
		if m == nil {
			o.Failf("the order table has a row of user %q that no successful request made", r.User)
			continue
		}
		ok := false
		for _, x := range m.remarks {
			ok = ok || x == r.Remark
		}
		if !ok {
			o.Failf("an order's remark is %q, possible is %q", r.Remark, m.remarks)
		}
		m.remarks = []string{r.Remark}
	}
	if len(os) < len(w.live) {
		o.Failf("the order table has %d rows, there are %d orders", len(os), len(w.live))
	}
}

func (w *world) list(l *List) {
	o := w.o
	q := handler.GetOrderListRequest{UserID: l.User}
	unix := func(s *int) *int64 {
		if s == nil {
			return nil
		}
		v := w.t0.Unix() + int64(*s)
		return &v
	}
	i32 := func(s *int) *int32 {
		if s == nil {
			return nil
		}
		v := int32(*s)
		return &v
	}
	q.CreateTimeBegin, q.CreateTimeEnd, q.Offset, q.Limit = unix(l.Begin), unix(l.End), i32(l.Offset), i32(l.Limit)
	code, body, p := w.ask("GetOrderList", q)
	var res handler.GetOrderListResponse
	if code == 500 && p == nil && (l.Begin != nil || l.End != nil) {
		if o.Finding("C32", "list-by-time", "GetOrderList %s is answered with %d %s", js(q), code, body) {
			w.list(&List{User: l.User, Offset: l.Offset, Limit: l.Limit})
		}
		return
	}
	if code != 200 || p != nil || json.Unmarshal([]byte(body), &res) != nil {
		o.Failf("GetOrderList %s is answered with %d %s %v", js(q), code, body, p)
		return
	}
	sure, may := 0, 0
	is := map[string]int{} // 1 may be listed, 2 has to be
	for id, m := range w.live {
		if l.User != nil && *l.User != m.user {
			continue
		}
		k := 2
		if q.CreateTimeBegin != nil {
			t := time.Unix(*q.CreateTimeBegin, 0)
			if m.to.Before(t) {
				continue
			}
			if !m.from.After(t) {
				k = 1
			}
		}
		if q.CreateTimeEnd != nil {
			t := time.Unix(*q.CreateTimeEnd, 0)
			if m.from.After(t) {
				continue
			}
			if !m.to.Before(t) {
				k = 1
			}
		}
		is[id] = k
		may++
		if k == 2 {
			sure++
		}
	}
	seen := map[string]bool{}
	for _, r := range res.Items {
		if r == nil {
			o.Failf("GetOrderList %s lists nothing: %s", js(q), body)
			return
		}
		m := w.live[r.ID]
		if m == nil || seen[r.ID] || is[r.ID] == 0 {
			o.Failf("GetOrderList %s lists an order that does not match, or twice: %s", js(q), body)
			return
		}
		seen[r.ID] = true
		if m.user != r.UserID || m.stored != r.TotalAmount {
			o.Failf("GetOrderList %s lists %s, the order is of %q with total %d", js(q), js(r), m.user, m.stored)
		}
	}
	cut := func(n int) int {
		if l.Offset != nil {
			n = max(0, n-*l.Offset)
		}
		if l.Limit != nil {
			n = min(n, *l.Limit)
		}
		return n
	}
	if n := len(res.Items); n < cut(sure) || n > cut(may) {
		o.Failf("GetOrderList %s lists %d orders, %d match", js(q), n, may)
	}
	if l.Limit == nil {
		for id, k := range is {
			if k == 2 && !seen[id] {
				o.Failf("GetOrderList %s does not list an order that matches", js(q))
			}
		}
	}
	if may > 0 && may < len(w.live) {
		o.Class("list selects")
	}
	if cut(may) < may {
		o.Class("list cuts")
	}
}

type payload struct{ OrderID, SaleItemID, CouponID string }

func (w *world) events(sent []*ddd.DomainEvent, want, may map[string]int, lenient bool) {
	o := w.o
	plain := w.st.Gorm()
	var its []po.SaleItemPO
	if err := plain.Find(&its).Error; err != nil {
		kit.Harness("%v", err)
	}
	fresh := map[string]string{}
	for _, r := range its {
		if !w.rows[r.ID] {
			fresh[r.ID] = r.OrderID
			w.rows[r.ID] = true
		}
	}
	got := map[string]int{}
	seen := map[string]bool{}
	lenient = lenient || len(may) > 0
	for _, e := range sent {
		var key, sender string
		switch e.Type {
		case "order_created":
			var v payload
			_ = json.Unmarshal(e.Payload, &v)
			key, sender = "created "+v.OrderID, v.OrderID
		case "order_deleted":
			var v payload
			_ = json.Unmarshal(e.Payload, &v)
			key, sender = "deleted "+v.OrderID, v.OrderID
		case "order_sale_item_added":
			var v payload
			_ = json.Unmarshal(e.Payload, &v)
			key, sender = "item "+v.OrderID, v.OrderID
			if v.SaleItemID == "" && want["coupon "+v.CouponID+" "+v.OrderID]+may["coupon "+v.CouponID+" "+v.OrderID]+may["coupon "+v.CouponID+" "] > 0 {
				o.Finding("C32", "coupon-event-type", "the event of a coupon has the type %q", e.Type)
				key = "coupon " + v.CouponID + " " + v.OrderID
				break
			}
			if seen[v.SaleItemID] || fresh[v.SaleItemID] != v.OrderID && !lenient {
				o.Failf("an event tells of item %s of order %s; rows added are %v", v.SaleItemID, v.OrderID, fresh)
			}
			seen[v.SaleItemID] = true
		case "order_coupon_added":
			var v payload
			_ = json.Unmarshal(e.Payload, &v)
			key, sender = "coupon "+v.CouponID+" "+v.OrderID, v.OrderID
		default:
			o.Failf("an event of type %q", e.Type)
			return
		}
		if e.Sender != sender {
			o.Failf("event %s has the sender %q", e.Payload, e.Sender)
		}
		if want[key] == 0 && may[key] == 0 && w.live[sender] == nil && !w.gone[sender] { // of a failed creation
			key = strings.TrimSuffix(key, sender)
		}
		got[key]++
		if err := cb(context.Background(), e); err != nil {
			o.Failf("the delivery of event %s fails: %v", e.Payload, err)
		}
	}
	for k, n := range got {
		if n > want[k]+may[k] {
			o.Failf("%d events %q sent, %d expected", n, k, want[k]+may[k])
		}
	}
	for k, n := range want {
		if got[k] < n {
			o.Failf("%d events %q sent, %d expected", got[k], k, n)
		}
	}
	if len(sent) > 1 {
		o.Class("events")
	}
}

func init() {
	kit.Register(kit.Spec[Scenario]{ID: "C32", Quick: 6000, Thorough: 200000, Shards: 6, Gen: gen, Run: run,
		Rule: "an order with at least two items or coupons was read back, or several successful requests changed one order concurrently, or a request failed by an injected fault",
		Assumptions: []string{
			"SQLite instead of MySQL; a database step is atomic and steps of concurrent requests interleave",
			"the engine is wired as in the example's main, with a lock and a bus of the harness instead of the database ones (C20-C27, C31 check those)",
			"row ID of an item is what its event names; rows of removed orders' items may stay",
		}})
}
