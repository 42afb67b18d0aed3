// Package redislock checks the Redis lock (C30): several clients use a simulated Redis server
// in simulated time.
package redislock

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	ddd "github.com/bytedance/dddfirework"
	lockredis "github.com/bytedance/dddfirework/lock/redis"
	goredis "github.com/redis/go-redis/v9"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

const (
	opLock    = iota
	opAbandon // lock and forget
	opDelete  // an administrator deletes the key
	opTake    // an administrator sets the key
)

type Op struct {
	Wait    int  `json:"w,omitempty"` // ms
	Kind    int  `json:"k,omitempty"`
	Key     int  `json:"key,omitempty"`
	Hold    int  `json:"h,omitempty"`     // ms
	Again   bool `json:"again,omitempty"` // unlocks a second time
	Timeout int  `json:"to,omitempty"`    // ms, the caller's deadline
	Cancel  int  `json:"c,omitempty"`     // ms, the caller cancels
	Late    bool `json:"late,omitempty"`  // unlocks with the caller's context, which may have ended
}

type FaultAt struct {
	Client int `json:"c"`
	Cmd    int `json:"cmd"` // 0 any, 1 SET, 2 EVALSHA, 3 EVAL
	Nth    int `json:"n"`
	Kind   int `json:"k"`
}

type Scenario struct {
	TTL     []int     `json:"ttl"` // ms, per client
	Retries []int     `json:"retries,omitempty"`
	Clients [][]Op    `json:"clients"`
	Lat     []int     `json:"lat,omitempty"` // µs
	Faults  []FaultAt `json:"faults,omitempty"`
}

var cmds = []string{"", "SET", "EVALSHA", "EVAL"}
var keys = []string{"order-1", "o'rder\"\r\n2", "заказ 50%", "order-1 ", strings.Repeat("k", 300)}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

type grant struct {
	client   int
	key      string
	value    string
	from     time.Duration
	expires  time.Time
	released bool // its release has begun
	lost     bool // an administrator or somebody else took it
}

type world struct {
	s      Scenario
	srv    *server
	mu     sync.Mutex
	o      *kit.Outcome
	t0     time.Time
	locks  []*lockredis.RedisLock
	grants []*grant
	counts map[string]int
	fcount map[int]int
	stop   bool
}

func (w *world) now() time.Duration { return time.Since(w.t0) }

func (w *world) tracef(format string, args ...any) {
	if os.Getenv("VERIF_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s "+format+"\n", append([]any{w.now()}, args...)...)
	}
}

// fault is called with srv.mu held.
func (w *world) fault(client, n int, cmd string) int {
	if w.stop {
		return faultNone
	}
	res := faultNone
	for k, f := range w.s.Faults {
		if f.Client%len(w.s.Clients) != client || f.Cmd > 0 && cmds[f.Cmd%len(cmds)] != cmd {
			continue
		}
		if w.fcount[k] == f.Nth && res == faultNone {
			res = f.Kind
		}
		w.fcount[k]++
	}
	return res
}

// look is the server's entry of a key.
func (w *world) look(key string) (e entry, ok bool) {
	w.srv.mu.Lock()
	defer w.srv.mu.Unlock()
	if p := w.srv.get(key); p != nil {
		return *p, true
	}
	return
}

func (w *world) valid(g *grant) bool {
	return !g.released && !g.lost && time.Now().Before(g.expires)
}

// check looks for every valid grant on the server; w.mu is held.
func (w *world) check() {
	for _, g := range w.grants {
		if !w.valid(g) {
			continue
		}
		if e, ok := w.look(g.key); !ok || e.value != g.value {
			w.o.Failf("client %d holds %q since %v, but the server has %q (set by client %d)", g.client, g.key, g.from, e.value, e.client)
		}
	}
}

func (w *world) simulate() {
	w.srv = newServer()
	w.srv.trace = w.tracef
	w.srv.fault = w.fault
	w.srv.latency = func(client, n int) time.Duration {
		jit := time.Duration(client+1)*101 + time.Duration(n%97)*11
		if len(w.s.Lat) == 0 {
			return jit
		}
		return time.Duration(w.s.Lat[(n*7+client*13)%len(w.s.Lat)])*time.Microsecond + jit
	}
	var clis []*goredis.Client
	for c := range w.s.Clients {
		retries := -1
		if len(w.s.Retries) > 0 {
			retries = w.s.Retries[c%len(w.s.Retries)]
		}
		cli := goredis.NewClient(&goredis.Options{Addr: "sim", MaxRetries: retries, MinRetryBackoff: -1, MaxRetryBackoff: -1, PoolSize: 4,
			Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
				a, b := net.Pipe()
				w.srv.wg.Add(1)
				go w.srv.serve(c, b)
				return a, nil
			}})
		clis = append(clis, cli)
		w.locks = append(w.locks, lockredis.NewRedisLock(cli, ms(w.s.TTL[c])))
	}
	w.t0 = time.Now()
	var wg sync.WaitGroup
	for c, ops := range w.s.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(c) * 3 * time.Microsecond)
			for _, op := range ops {
				time.Sleep(ms(op.Wait))
				w.mu.Lock()
				bad := w.o.Fail != ""
				w.mu.Unlock()
				if bad {
					return
				}
				if op.Kind == opDelete || op.Kind == opTake {
					w.admin(op)
				} else {
					w.lock(c, op)
				}
			}
		}()
	}
	wg.Wait()
	w.srv.mu.Lock()
	w.stop = true
	w.srv.mu.Unlock()
	longest := 0
	for _, t := range w.s.TTL {
		longest = max(longest, t)
	}
	time.Sleep(ms(longest) + time.Second)
	// whatever was forgotten has expired
	for _, key := range keys {
		if e, ok := w.look(key); ok && e.client >= 0 {
			w.o.Failf("%q is still held by client %d, %v after it was last locked", key, e.client, time.Since(e.set))
		}
	}
	for _, cli := range clis {
		_ = cli.Close()
	}
	w.srv.wg.Wait()
	for _, k := range []string{"granted", "refused", "expired", "lost", "taken-over", "cancelled", "server-error", "again", "late"} {
		if w.counts[k] > 0 {
			w.o.Class("%s", k)
		}
	}
	w.o.Nontrivial = w.counts["granted"] > 1 && w.counts["refused"]+w.counts["expired"]+w.counts["lost"] > 0
}

func (w *world) admin(op Op) {
	key := keys[op.Key%len(keys)]
	w.mu.Lock()
	defer w.mu.Unlock()
	w.srv.mu.Lock()
	had := w.srv.get(key) != nil
	if op.Kind == opTake {
		w.srv.data[key] = &entry{value: "somebody", client: -1, set: time.Now(), expires: time.Now().Add(ms(w.s.TTL[0]))}
	} else {
		delete(w.srv.data, key)
	}
	w.srv.mu.Unlock()
	w.tracef("administrator: %d %q", op.Kind, key)
	if !had && op.Kind == opDelete {
		return
	}
	for _, g := range w.grants {
		if g.key == key && !g.lost {
			g.lost = true
		}
	}
}

func (w *world) hurt(c int) int {
	w.srv.mu.Lock()
	defer w.srv.mu.Unlock()
	return w.srv.hurt[c]
}

func (w *world) lock(c int, op Op) {
	key := keys[op.Key%len(keys)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if op.Timeout > 0 {
		ctx, cancel = context.WithTimeout(ctx, ms(op.Timeout))
		defer cancel()
	}
	if op.Cancel > 0 {
		tm := time.AfterFunc(ms(op.Cancel), cancel)
		defer tm.Stop()
	}
	w.srv.mu.Lock()
	w.srv.refused[c], w.srv.lastErr[c] = 0, false
	hurt := w.srv.hurt[c]
	w.srv.mu.Unlock()
	start := w.now()
	kl, err := w.locks[c].Lock(ctx, key)
	w.srv.mu.Lock()
	refused, serverErr := w.srv.refused[c], w.srv.lastErr[c]
	w.srv.mu.Unlock()
	well := w.hurt(c) == hurt && ctx.Err() == nil
	w.mu.Lock()
	w.tracef("client %d: lock %q: %v", c, key, err)
	if err != nil {
		switch {
		case errors.Is(err, ddd.ErrEntityLocked):
			w.counts["refused"]++
			if refused == 0 {
				w.o.Failf("client %d is told that %q is locked, but the server never said so", c, key)
			}
			if serverErr && well {
				w.o.Failf("client %d is told that %q is locked, but the server's last answer was an error", c, key)
			}
			if well && w.now()-start < time.Second {
				w.o.Failf("client %d is refused %q after only %v", c, key, w.now()-start)
			}
		case ctx.Err() != nil:
			w.counts["cancelled"]++
		case well:
			w.o.Failf("client %d (time-to-live %v): locking %q, which stays held, fails after %v with %v instead of the locked error", c, ms(w.s.TTL[c]), key, w.now()-start, err)
		default:
			w.counts["server-error"]++
		}
		w.mu.Unlock()
		return
	}
	e, ok := w.look(key)
	g := &grant{client: c, key: key, from: w.now()}
	w.counts["granted"]++
	for _, h := range w.grants {
		if h.key != key {
			continue
		}
		switch {
		case w.valid(h):
			w.o.Failf("client %d gets %q while client %d holds it since %v until %v", c, key, h.client, h.from, h.expires.Sub(w.t0))
		case !h.released && !h.lost:
			h.lost = true
			w.counts["taken-over"]++
		}
	}
	took := w.now() - start
	switch {
	case !ok || e.client != c || e.set.Before(w.t0.Add(start)): // already expired or taken away
		g.lost = true
		if took < ms(w.s.TTL[c]) && well && !w.interfered(key) {
			w.o.Failf("client %d is told that it holds %q, but it never set it", c, key)
		}
	case e.expires.IsZero():
		w.o.Failf("client %d locks %q for ever: the key has no time-to-live", c, key)
	default:
		if d := e.expires.Sub(e.set); d != ms(w.s.TTL[c]) {
			w.o.Failf("client %d locks %q for %v instead of %v", c, key, d, ms(w.s.TTL[c]))
		}
		g.value, g.expires = e.value, e.expires
		for _, h := range w.grants {
			if h.value == g.value {
				w.o.Failf("clients %d and %d hold %q by the same value", h.client, c, key)
			}
		}
	}
	w.grants = append(w.grants, g)
	w.check()
	w.mu.Unlock()
	if op.Kind == opAbandon {
		return
	}
	time.Sleep(ms(op.Hold))
	w.mu.Lock()
	w.check()
	w.mu.Unlock()
	tries := 1
	if op.Again {
		tries = 2
		w.counts["again"]++
	}
	for try := 0; try < tries; try++ {
		uctx := context.Background()
		if op.Late {
			uctx = ctx
		}
		hurt := w.hurt(c)
		w.mu.Lock()
		was, lost := w.valid(g), g.lost
		expired := !time.Now().Before(g.expires)
		g.released = true
		w.mu.Unlock()
		err := w.locks[c].UnLock(uctx, kl)
		w.mu.Lock()
		w.tracef("client %d: unlock %q: %v", c, key, err)
		well := w.hurt(c) == hurt && uctx.Err() == nil
		e, ok := w.look(key)
		switch {
		case try > 0 && err == nil && well && hurt == 0:
			w.o.Failf("client %d releases %q a second time without an error", c, key)
		case (lost || expired) && err == nil:
			w.o.Failf("client %d releases %q without an error although it had lost it (taken %v, expired %v)", c, key, lost, expired)
		case try == 0 && was && well && err != nil && time.Now().Before(g.expires) && !g.lost:
			w.o.Failf("client %d cannot release %q: %v", c, key, err)
		case err == nil && ok && e.value == g.value:
			w.o.Failf("client %d released %q, but it is still held", c, key)
		}
		if lost {
			w.counts["lost"]++
		}
		if expired {
			w.counts["expired"]++
		}
		if uctx.Err() != nil {
			w.counts["late"]++
		}
		w.check()
		w.mu.Unlock()
	}
}

// interfered tells whether an administrator touches a key in this scenario.
func (w *world) interfered(key string) bool {
	for _, ops := range w.s.Clients {
		for _, op := range ops {
			if op.Kind >= opDelete && keys[op.Key%len(keys)] == key {
				return true
			}
		}
	}
	return false
}

func simulate(t *testing.T, s Scenario) (o kit.Outcome) {
	synctest.Test(t, func(t *testing.T) {
		w := &world{s: s, o: &o, counts: map[string]int{}, fcount: map[int]int{}}
		w.simulate()
	})
	return o
}

func gen(t *rapid.T) Scenario {
	var s Scenario
	n := kit.Range(t, 1, 4, "clients")
	ttl := kit.Pick(t, []int{1000, 400, 2000, 3000, 5000, 100, 10000, 1500}, "ttl")
	nkeys := kit.Pick(t, []int{1, 1, 2, 3, 5}, "keys")
	disturbed := kit.Pct(t, 40, "disturbed")
	s.Lat = kit.List(t, 0, 6, "latency", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 5000, 50000}, "us") })
	s.Retries = kit.List(t, 0, 3, "retries", func(t *rapid.T) int { return kit.Pick(t, []int{-1, 1, 3}, "retries") })
	for c := 0; c < n; c++ {
		l := ttl
		if kit.Pct(t, 25, "own ttl") {
			l = kit.Pick(t, []int{500, 1001, 4000, 60000}, "ttl")
		}
		s.TTL = append(s.TTL, l)
		s.Clients = append(s.Clients, kit.List(t, 1, 6, "ops", func(t *rapid.T) Op {
			op := Op{Wait: kit.Pick(t, []int{0, 1, 20, 150, 500, l / 2, l, l + 10}, "wait"), Key: kit.N(t, nkeys, "key")}
			if disturbed && kit.Pct(t, 12, "admin") {
				op.Kind = kit.Pick(t, []int{opDelete, opTake}, "how")
				return op
			}
			op.Kind = kit.Pick(t, []int{opLock, opLock, opLock, opAbandon}, "kind")
			op.Hold = kit.Pick(t, []int{0, 1, 50, 300, l / 2, l - 1, l, l + 50, 2 * l, 4000}, "hold")
			op.Again = kit.Pct(t, 15, "again")
			switch kit.N(t, 10, "caller") {
			case 9:
				op.Timeout = kit.Pick(t, []int{1, 50, 500, 3000, 10000}, "timeout")
			case 8:
				op.Cancel = kit.Pick(t, []int{1, 50, 500, 2500}, "cancel")
			}
			op.Late = kit.Pct(t, 20, "late")
			return op
		}))
	}
	if disturbed && kit.Pct(t, 70, "faults") {
		s.Faults = kit.List(t, 1, 4, "faults", func(t *rapid.T) FaultAt {
			return FaultAt{Client: kit.N(t, n, "client"), Cmd: kit.N(t, len(cmds), "cmd"), Nth: kit.N(t, 8, "nth"), Kind: 1 + kit.N(t, nFaults-1, "kind")}
		})
	}
	return s
}

func init() {
	kit.Register(kit.Spec[Scenario]{ID: "C30", Quick: 60000, Thorough: 1500000, Shards: 8, Rule: "several locks were granted and one was refused, expired or lost",
		Assumptions: []string{"the Redis server is simulated: the commands and scripts the lock library uses, with expiry, on one node", "time is simulated (testing/synctest)"},
		Gen:         gen, Run: simulate})
}
