package sqlexec

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	ddd "github.com/bytedance/dddfirework"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/gorm"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

var storesOnce sync.Once
var stores [2]*simdb.Store
var ref *simdb.Store
var refDB *gorm.DB

func setup() {
	storesOnce.Do(func() {
		all := []any{&Flat{}, &Nullable{}, &Embedded{}, &Line{}, &Tri{}, &Num{}, &Anon{}}
		stores[0], stores[1], ref = simdb.NewStore(all...), simdb.NewStore(all...), simdb.NewStore(all...)
		refDB = ref.Gorm()
		exec.RegisterConverter(&made{}, conv{10})
		exec.RegisterEntity2Model(&made2{}, conv{20}.Entity2Model, conv{20}.Model2Entity)
	})
}

type model1 = interface{ GetID() string }

var tables = []string{"m_flat", "m_nullable", "m_embedded", "m_line", "m_tri", "m_num", "m_anon"}
var keyCols = [][]string{{"id"}, {"uid"}, {"id"}, {"order_id", "no"}, {"a", "b", "c"}, {"num_id"}, {"id"}}

type row map[string]string

// dump reads a table as it is stored, keyed by primary key.
func dump(s *simdb.Store, kind int) map[string]row {
	rows, err := s.DB.Query("SELECT * FROM " + tables[kind])
	if err != nil {
		panic(err)
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	res := map[string]row{}
	for rows.Next() {
		vals := make([]any, len(cols))
		for i := range vals {
			vals[i] = new(any)
		}
		if err := rows.Scan(vals...); err != nil {
			panic(err)
		}
		r := row{}
		for i, c := range cols {
			v := *(vals[i].(*any))
			if b, ok := v.([]byte); ok {
				v = string(b)
			}
			r[c] = fmt.Sprintf("%T:%v", v, v)
		}
		k := ""
		for _, c := range keyCols[kind] {
			k += r[c] + "|"
		}
		if res[k] != nil {
			panic("key twice: " + k)
		}
		res[k] = r
	}
	return res
}

// stored is the row a model is stored as (by gorm alone, in a database of its own).
func stored(kind int, m model1) (key string, r row) {
	if err := refDB.Create(m).Error; err != nil {
		kit.Harness("store %T %+v: %v", m, m, err)
	}
	for key, r = range dump(ref, kind) {
	}
	ref.Exec("DELETE FROM " + tables[kind])
	return key, r
}

func show(m map[string]row) string {
	var l []string
	for k, r := range m {
		var c []string
		for n, v := range r {
			c = append(c, n+"="+v)
		}
		sort.Strings(c)
		l = append(l, k+" {"+strings.Join(c, " ")+"}")
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func equal(a, b map[string]row) bool { return reflect.DeepEqual(a, b) }

// ---- C17 ----

type Row struct {
	Key    int   `json:"k"`
	Prev   []int `json:"p"`
	Change []int `json:"c,omitempty"` // pairs field, new value
	Other  []int `json:"o,omitempty"` // pairs field, value somebody else stored meanwhile
	Absent bool  `json:"absent,omitempty"`
}

type UpdateScenario struct {
	Kind   int   `json:"kind"`
	Rows   []Row `json:"rows"`
	Bystd  []Row `json:"by,omitempty"` // rows not in the batch
	Tx     bool  `json:"tx,omitempty"`
	NoPrev bool  `json:"noprev,omitempty"` // without previous models every column is written
	Share  bool  `json:"share,omitempty"`  // previous and current model share what did not change (pointers, slices)
}

func with(f []int, pairs []int) []int {
	g := append([]int(nil), f...)
	for i := 0; i+1 < len(pairs); i += 2 {
		g[pairs[i]%len(g)] = pairs[i+1]
	}
	return g
}

func runUpdate(t *testing.T, s UpdateScenario) (o kit.Outcome) {
	setup()
	if s.Kind == 3 || s.Kind == 4 {
		s.NoPrev = false // gorm's Save takes a zero key part for a new row
	}
	st := stores[0]
	sim := simdb.NewSim(st)
	var log []string
	a := sim.Actor(0)
	db := a.Gorm()
	ex := exec.NewExecutor(db)
	log = nil
	sim.Fault = func(a *simdb.Actor, n int, op string) simdb.Fault {
		log = append(log, op)
		return simdb.None
	}
	plain := st.Gorm()
	want := map[string]row{}
	used := map[int]bool{}
	var batch, prev []ddd.IModel
	changed, updates := 0, 0
	for i, r := range append(append([]Row(nil), s.Rows...), s.Bystd...) {
		k := r.Key % keys[s.Kind]
		if used[k] {
			continue
		}
		used[k] = true
		if s.NoPrev {
			r.Other = nil
		}
		now := model(s.Kind, k, with(r.Prev, r.Other))
		key, cols := stored(s.Kind, now)
		absent := r.Absent && i < len(s.Rows) && !s.NoPrev
		if !absent {
			if err := plain.Create(model(s.Kind, k, with(r.Prev, r.Other))).Error; err != nil {
				kit.Harness("create: %v", err)
			}
			want[key] = cols
		}
		if i >= len(s.Rows) {
			continue
		}
		p := model(s.Kind, k, r.Prev)
		c := model(s.Kind, k, with(r.Prev, r.Change))
		if s.Share {
			share(reflect.ValueOf(c).Elem(), reflect.ValueOf(p).Elem())
		}
		_, pr := stored(s.Kind, model(s.Kind, k, r.Prev))
		_, cr := stored(s.Kind, model(s.Kind, k, with(r.Prev, r.Change)))
		batch, prev = append(batch, c), append(prev, p)
		any := false
		for col := range cr {
			if s.NoPrev || cr[col] != pr[col] {
				if !absent {
					want[key][col] = cr[col]
				}
				if cr[col] != pr[col] {
					changed++
					o.Class("changed-%s.%s", tables[s.Kind], col)
				}
				any = true
			}
		}
		if any {
			updates++
		}
	}
	if len(batch) == 0 {
		return o
	}
	ctx := context.Background()
	var err error
	if s.Tx {
		if ctx, err = ex.Begin(ctx); err != nil {
			o.Failf("begin: %v", err)
			return o
		}
	}
	act := &ddd.Action{Op: ddd.OpUpdate, Models: batch, PrevModels: prev}
	if s.NoPrev {
		act.PrevModels = nil
	}
	log = nil
	if err := ex.Exec(ctx, act); err != nil {
		o.Failf("update fails: %v", err)
		return o
	}
	sent := 0
	for _, q := range log {
		switch strings.ToUpper(strings.Fields(q)[0]) {
		case "UPDATE", "INSERT", "DELETE", "REPLACE":
			sent++
		}
	}
	if s.Tx {
		if err := ex.Commit(ctx); err != nil {
			o.Failf("commit: %v", err)
			return o
		}
	}
	got := dump(st, s.Kind)
	if !equal(got, want) {
		o.Failf("stored rows are wrong\nwant\n%s\ngot\n%s\nstatements %q", show(want), show(got), log)
		return o
	}
	if updates == 0 && sent > 0 {
		o.Failf("nothing differs but %d statements are sent: %q", sent, log)
	}
	o.Class("kind-%s", tables[s.Kind])
	o.Nontrivial = changed > 0
	return o
}

// share lets the current model use the previous one's pointers, slices and maps where the values are equal,
// as models made from one entity do.
func share(c, p reflect.Value) {
	for i := 0; i < c.NumField(); i++ {
		f, g := c.Field(i), p.Field(i)
		if !f.CanSet() {
			continue
		}
		switch f.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			if reflect.DeepEqual(f.Interface(), g.Interface()) {
				f.Set(g)
			}
		}
	}
}

func genPairs(t *rapid.T, kind int, name string) []int {
	n := fields[kind]
	var l []int
	for i, k := 0, kit.N(t, 4, name); i < k; i++ {
		l = append(l, kit.N(t, n, "which"), kit.N(t, span, "to"))
	}
	return l
}

func genUpdate(t *rapid.T) UpdateScenario {
	s := UpdateScenario{Kind: kit.N(t, kinds, "kind"), Tx: kit.Pct(t, 40, "tx"), NoPrev: kit.Pct(t, 6, "noprev"), Share: kit.Pct(t, 30, "share")}
	r := func(t *rapid.T) Row {
		return Row{Key: kit.N(t, keys[s.Kind], "key"), Prev: genFields(t, s.Kind), Change: genPairs(t, s.Kind, "changes"), Other: genPairs(t, s.Kind, "others"), Absent: kit.Pct(t, 8, "absent")}
	}
	s.Rows = kit.List(t, 1, 4, "rows", r)
	s.Bystd = kit.List(t, 0, 3, "bystanders", r)
	return s
}

func init() {
	kit.Register(kit.Spec[UpdateScenario]{ID: "C17", Quick: 12000, Thorough: 300000, Shards: 6,
		Rule: "some column of some model in the batch differs between the previous and the current model",
		Assumptions: []string{"SQLite stands in for MySQL", "whether a column differs is judged by what gorm alone stores for the two models in a database of its own",
			"models without gorm's automatic update time, defaults, associations or pointers to embedded structs"},
		Gen: genUpdate, Run: runUpdate})
}
