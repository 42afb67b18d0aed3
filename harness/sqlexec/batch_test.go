package sqlexec

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"testing"

	ddd "github.com/bytedance/dddfirework"
	exec "github.com/bytedance/dddfirework/executor/mysql"
	"gorm.io/gorm/schema"
	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

// ---- C18 ----

type BatchRow struct {
	Key int   `json:"k"`
	F   []int `json:"f"`
}

type Op struct {
	Do   string     `json:"do"` // insert delete query begin commit rollback odd
	Ex   int        `json:"ex"`
	Ctx  int        `json:"ctx"` // which of the contexts made so far
	Kind int        `json:"kind,omitempty"`
	Rows []BatchRow `json:"rows,omitempty"`
	Big  int        `json:"big,omitempty"`  // that many more rows
	From int        `json:"from,omitempty"` // number of the first of them
	Mask int        `json:"mask,omitempty"` // query: which fields of the first row make the example
	Fail bool       `json:"fail,omitempty"` // the first step of it fails
}

type BatchScenario struct {
	Ops []Op `json:"ops"`
}

type table = map[string]row

type modelTx struct {
	own   map[int]table // since its first write
	wrote bool
	done  bool
}

type modelStore struct {
	rows map[int]table
	open []*modelTx
}

func cloneTables(m map[int]table) map[int]table {
	res := map[int]table{}
	for k, t := range m {
		c := table{}
		for id, r := range t {
			c[id] = r
		}
		res[k] = c
	}
	return res
}

func (s *modelStore) writer(except *modelTx) bool {
	for _, t := range s.open {
		if t != except && t.wrote && !t.done {
			return true
		}
	}
	return false
}

func slicePtr(kind int) any {
	return reflect.New(reflect.SliceOf(reflect.TypeOf(model(kind, 0, make([]int, fields[kind]))))).Interface()
}

// storedAll is how gorm alone stores the models, or ok=false if keys repeat.
func storedAll(kind int, ms []model1) (table, bool) {
	if len(ms) == 0 {
		return table{}, true
	}
	sl := reflect.ValueOf(slicePtr(kind)).Elem()
	for _, m := range ms {
		sl = reflect.Append(sl, reflect.ValueOf(m))
	}
	err := refDB.Create(sl.Interface()).Error
	if err != nil {
		ref.Exec("DELETE FROM " + tables[kind])
		return nil, false
	}
	res := dump(ref, kind)
	ref.Exec("DELETE FROM " + tables[kind])
	return res, true
}

// example keeps the masked fields of a model and tells which columns it asks for.
func example(kind int, m model1, mask int) (cols table) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		if mask>>i&1 == 0 {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	sch, err := schema.Parse(m, ref.Schemas, refDB.NamingStrategy)
	if err != nil {
		kit.Harness("schema: %v", err)
	}
	cols = table{"": row{}}
	for _, f := range sch.Fields {
		if f.DBName == "" {
			continue
		}
		if _, zero := f.ValueOf(context.Background(), v); !zero {
			cols[""][f.DBName] = ""
		}
	}
	return cols
}

func clone(kind int, r BatchRow) model1 { return model(kind, r.Key%keys[kind], r.F) }

func (p Op) models() (ms []model1) {
	for _, r := range p.Rows {
		ms = append(ms, clone(p.Kind, r))
	}
	big := p.Big
	if p.Kind == 3 || p.Kind == 4 {
		big = 0
	}
	for i := 0; i < big; i++ {
		f := make([]int, fields[p.Kind])
		f[0] = i
		ms = append(ms, model(p.Kind, 1000+p.From+i, f))
	}
	return ms
}

func runBatch(t *testing.T, s BatchScenario) (o kit.Outcome) {
	setup()
	var sims [2]*simdb.Sim
	var exs [2]*exec.Executor
	var actors [2]*simdb.Actor
	var failAt [2]int
	var ms [2]*modelStore
	for i := range sims {
		i := i
		sims[i] = simdb.NewSim(stores[i])
		failAt[i] = -1
		sims[i].Fault = func(a *simdb.Actor, n int, op string) simdb.Fault {
			if n == failAt[i] {
				return simdb.ErrBefore
			}
			return simdb.None
		}
		actors[i] = sims[i].Actor(i)
		exs[i] = exec.NewExecutor(actors[i].Gorm())
		ms[i] = &modelStore{rows: map[int]table{}}
		for k := 0; k < kinds; k++ {
			ms[i].rows[k] = table{}
		}
	}
	type ctxTx struct {
		ctx context.Context
		tx  [2]*modelTx
	}
	ctxs := []ctxTx{{ctx: context.Background()}}
	kindsUsed := map[int]bool{}
	inTx, hits, both := 0, 0, map[int]bool{}
	for n, p := range s.Ops {
		c := ctxs[p.Ctx%len(ctxs)]
		e, m := exs[p.Ex], ms[p.Ex]
		tx := c.tx[p.Ex]
		fail := func(format string, args ...any) {
			o.Failf("operation %d (%s on executor %d): %s", n, p.Do, p.Ex, fmt.Sprintf(format, args...))
		}
		// fails when the store refuses the first step of the operation
		failAt[p.Ex] = -1
		if p.Fail {
			failAt[p.Ex] = actors[p.Ex].Ops()
			failAt[1-p.Ex] = -1
		}
		view := m.rows
		if tx != nil && tx.wrote {
			view = tx.own
		}
		switch p.Do {
		case "begin":
			ctx, err := e.Begin(c.ctx)
			if p.Fail {
				if err == nil {
					fail("no error although the store cannot begin")
				}
				break
			}
			if err != nil {
				fail("%v", err)
				break
			}
			nc := ctxTx{ctx: ctx, tx: c.tx}
			nc.tx[p.Ex] = &modelTx{}
			m.open = append(m.open, nc.tx[p.Ex])
			ctxs = append(ctxs, nc)
			if nc.tx[1-p.Ex] != nil && !nc.tx[1-p.Ex].done {
				o.Class("nested-transactions-of-both")
			}
		case "commit", "rollback":
			var err error
			if p.Do == "rollback" {
				p.Fail = false
				failAt[p.Ex] = -1
				err = e.RollBack(c.ctx)
			} else {
				err = e.Commit(c.ctx)
			}
			switch {
			case tx == nil:
				if !errors.Is(err, exec.ErrNoTransaction) {
					fail("got %v without a transaction", err)
				}
			case tx.done:
				if err == nil {
					fail("no error although the transaction has ended")
				}
			case p.Fail:
				if err == nil {
					fail("no error although the commit failed")
				}
				tx.done = true
			default:
				if err != nil {
					fail("%v", err)
				}
				tx.done = true
				if p.Do == "commit" && tx.wrote {
					m.rows = tx.own
				}
				o.Class("%s-written-%v", p.Do, tx.wrote)
			}
		case "insert", "delete":
			if m.writer(tx) {
				break // would have to wait for it
			}
			models := p.models()
			if len(models) == 0 {
				break
			}
			var act ddd.Action
			act.Op = ddd.OpInsert
			if p.Do == "delete" {
				act.Op = ddd.OpDelete
			}
			for _, x := range models {
				act.Models = append(act.Models, x)
			}
			err := e.Exec(c.ctx, &act)
			if tx != nil && tx.done {
				if err == nil {
					fail("no error although its transaction has ended")
				}
				break
			}
			if p.Fail {
				if err == nil {
					fail("no error although the store refused it")
				}
				break
			}
			next := cloneTables(view)
			tab := next[p.Kind]
			if p.Do == "insert" {
				rows, ok := storedAll(p.Kind, p.models())
				for id, r := range rows {
					if tab[id] != nil {
						ok = false
					}
					tab[id] = r
				}
				if tx != nil && !tx.wrote {
					tx.wrote, tx.own = true, cloneTables(view)
				}
				if ok != (err == nil) {
					fail("got error %v, wanted success=%v", err, ok)
				}
				if !ok {
					o.Class("insert-existing")
					break
				}
			} else {
				seen := map[string]bool{}
				for _, x := range models {
					k := keyOf(p.Kind, x)
					if tab[k] != nil {
						hits++
					}
					seen[k] = true
					delete(tab, k)
				}
				if err != nil {
					fail("%v", err)
				}
				if len(tab) > 0 {
					o.Class("delete-some-of-%s", tables[p.Kind])
				}
			}
			if tx != nil {
				tx.wrote, tx.own = true, next
				inTx++
			} else {
				m.rows = next
			}
			kindsUsed[p.Kind] = true
			both[p.Ex] = true
			if len(models) > 100 {
				o.Class("%s-over-100", p.Do)
			}
		case "odd":
			if msg := odd(c.ctx, e, p.Kind); msg != "" {
				fail("%s", msg)
			}
			o.Class("odd")
		case "query":
			if len(p.Rows) == 0 {
				break
			}
			ex := clone(p.Kind, p.Rows[0])
			cols := example(p.Kind, ex, p.Mask)
			res := slicePtr(p.Kind)
			err := e.Exec(c.ctx, &ddd.Action{Op: ddd.OpQuery, Query: ex, QueryResult: res})
			if p.Fail || tx != nil && tx.done {
				if err == nil {
					fail("no error although it cannot be answered")
				}
				break
			}
			if err != nil {
				fail("%v", err)
				break
			}
			_, asked := stored(p.Kind, clone(p.Kind, p.Rows[0]))
			want := table{}
			for id, r := range view[p.Kind] {
				match := true
				for col := range cols[""] {
					match = match && r[col] == asked[col]
				}
				if match {
					want[id] = r
				}
			}
			var got []model1
			rv := reflect.ValueOf(res).Elem()
			for i := 0; i < rv.Len(); i++ {
				got = append(got, rv.Index(i).Interface().(model1))
			}
			gotRows, ok := storedAll(p.Kind, got)
			if !ok || !equal(gotRows, want) {
				fail("result is wrong (columns %v asked)\nwant\n%s\ngot\n%s", cols[""], show(want), show(gotRows))
			}
			if len(want) > 0 && len(want) < len(view[p.Kind]) {
				o.Class("query-selects-some")
				hits++
			}
		}
		if o.Fail == "" {
			for i := range ms {
				for k := 0; k < kinds; k++ {
					if got := dump(stores[i], k); !equal(got, ms[i].rows[k]) {
						o.Failf("after operation %d (%s on executor %d) the committed rows of store %d are wrong\nwant\n%s\ngot\n%s", n, p.Do, p.Ex, i, show(ms[i].rows[k]), show(got))
					}
				}
			}
		}
		if o.Fail != "" {
			return o
		}
	}
	for k := range kindsUsed {
		o.Class("kind-%s", tables[k])
	}
	if inTx > 0 {
		o.Class("writes-in-transaction")
	}
	if len(both) == 2 {
		o.Class("both-executors-write")
	}
	o.Nontrivial = len(kindsUsed) > 0 && hits > 0
	return o
}

type made struct {
	ddd.BaseEntity
	Name string
}
type made2 struct{ made }
type strange struct{ ddd.BaseEntity }

type conv struct{ plus int64 }

func (c conv) Entity2Model(e, parent ddd.IEntity, op ddd.OpType) (exec.IModel, error) {
	n, err := strconv.ParseInt(e.GetID(), 10, 64)
	name := ""
	switch x := e.(type) {
	case *made:
		name = x.Name
	case *made2:
		name = x.Name
	}
	return &Num{ID: n + c.plus, Name: fmt.Sprintf("%s of %s for %d", name, parent.GetID(), op)}, err
}

func (c conv) Model2Entity(po exec.IModel, e ddd.IEntity) error {
	if po.(*Num).ID == 0 {
		return errors.New("no such number")
	}
	e.SetID(fmt.Sprint(po.(*Num).ID - c.plus))
	return nil
}

// noTable is not a model of a table.
type noTable struct{}

func (noTable) GetID() string { return "x" }

// odd uses the executor in ways that have to be refused, or refused only just.
func odd(ctx context.Context, e *exec.Executor, which int) string {
	switch which {
	case 0:
		for _, op := range []ddd.OpType{0, 99} {
			if err := e.Exec(ctx, &ddd.Action{Op: op, Models: []ddd.IModel{&Num{ID: 1}}, Query: &Num{}, QueryResult: &[]*Num{}}); err == nil {
				return fmt.Sprintf("the unknown operation %d succeeds", op)
			}
		}
	case 1:
		n := exec.NewExecutor(nil)
		c, err := n.Begin(ctx)
		if err == nil || n.Commit(ctx) == nil || n.RollBack(ctx) == nil {
			return "without a database a transaction succeeds"
		}
		if c == nil {
			return "without a database there is no context"
		}
	case 2:
		if _, err := e.Entity2Model(&strange{}, &strange{}, ddd.OpInsert); !errors.Is(err, ddd.ErrEntityNotRegister) {
			return fmt.Sprintf("converting an unregistered entity: %v", err)
		}
		if err := e.Model2Entity(&Num{ID: 1}, &strange{}); !errors.Is(err, ddd.ErrEntityNotRegister) {
			return fmt.Sprintf("converting to an unregistered entity: %v", err)
		}
	case 3:
		parent := &strange{}
		parent.SetID("p")
		for plus, x := range map[int64]ddd.IEntity{10: &made{Name: "m"}, 20: &made2{made{Name: "m"}}} {
			x.SetID("7")
			for _, op := range []ddd.OpType{ddd.OpInsert, ddd.OpUpdate, ddd.OpDelete, ddd.OpQuery} {
				po, err := e.Entity2Model(x, parent, op)
				if err != nil || !reflect.DeepEqual(po, &Num{ID: 7 + plus, Name: fmt.Sprintf("m of p for %d", op)}) {
					return fmt.Sprintf("%T is converted to %+v (%v)", x, po, err)
				}
				if err := e.Model2Entity(&Num{ID: 40}, x); err != nil || x.GetID() != fmt.Sprint(40-plus) {
					return fmt.Sprintf("%T is made of a model wrongly: %s (%v)", x, x.GetID(), err)
				}
				x.SetID("7")
			}
			if e.Model2Entity(&Num{}, x) == nil {
				return "the error of a conversion is lost"
			}
			if e.Model2Entity(noTable{}, x) == nil {
				return "a model without table is converted"
			}
			x.SetID("none")
			if _, err := e.Entity2Model(x, parent, ddd.OpInsert); err == nil {
				return "the error of a conversion is lost"
			}
		}
	case 4:
		//nolint:staticcheck // a missing context is allowed
		c, err := e.Begin(nil)
		if err != nil {
			return fmt.Sprintf("begin without context: %v", err)
		}
		if err := e.RollBack(c); err != nil {
			return fmt.Sprintf("rollback without context: %v", err)
		}
	}
	return ""
}

// keyOf is the key dump gives the model's row.
func keyOf(kind int, m model1) string {
	switch x := m.(type) {
	case *Line:
		return fmt.Sprintf("string:%s|int64:%d|", x.OrderID, x.No)
	case *Tri:
		c := 0
		if x.C {
			c = 1
		}
		return fmt.Sprintf("string:%s|string:%s|%s|", x.A, x.B, boolKey[c])
	case *Num:
		return fmt.Sprintf("int64:%d|", x.ID)
	}
	return "string:" + m.GetID() + "|"
}

var boolKey = [2]string{"int64:0", "int64:1"}

func genBatch(t *rapid.T) BatchScenario {
	// few kinds and keys per scenario, so that operations meet
	ks := []int{kit.N(t, kinds, "kind1")}
	if kit.Pct(t, 40, "two kinds") {
		ks = append(ks, kit.N(t, kinds, "kind2"))
	}
	nk := kit.Pick(t, []int{4, 9, 18}, "keys")
	pools := [][]int{}
	for i := 0; i < 3; i++ {
		f := make([]int, 19)
		for j := range f {
			f[j] = kit.N(t, span, "field")
		}
		pools = append(pools, f)
	}
	twoEx := kit.Pct(t, 50, "two")
	round := 0
	if kit.Pct(t, 5, "large") {
		round = kit.Pick(t, []int{100, 200, 500, 1000, 1024}, "round")
	}
	return BatchScenario{Ops: kit.List(t, 6, 24, "ops", func(t *rapid.T) Op {
		p := Op{Do: kit.Pick(t, []string{"insert", "insert", "insert", "delete", "delete", "query", "query", "begin", "begin", "commit", "rollback"}, "do"), Kind: kit.Pick(t, ks, "kind"), Fail: kit.Pct(t, 4, "fail")}
		if twoEx {
			p.Ex = kit.N(t, 2, "ex")
		}
		if kit.Pct(t, 60, "ctx") {
			p.Ctx = kit.N(t, 5, "which")
		}
		if kit.Pct(t, 2, "odd") {
			return Op{Do: "odd", Ex: p.Ex, Ctx: p.Ctx, Kind: kit.N(t, 5, "which")}
		}
		switch p.Do {
		case "insert", "delete", "query":
			hi := 5
			if p.Do == "query" {
				hi = 1
			}
			p.Rows = kit.List(t, 1, hi, "rows", func(t *rapid.T) BatchRow {
				r := BatchRow{Key: kit.N(t, nk, "key"), F: append([]int(nil), kit.Pick(t, pools, "pool")[:fields[p.Kind]]...)}
				for i := range r.F {
					if kit.Pct(t, 15, "other") {
						r.F[i] = kit.N(t, span, "field")
					}
				}
				return r
			})
			if p.Do == "query" {
				n := reflect.TypeOf(model(p.Kind, 0, make([]int, fields[p.Kind]))).Elem().NumField()
				for i, k := 0, kit.N(t, 4, "asked"); i < k; i++ {
					p.Mask |= 1 << kit.N(t, n, "field")
				}
			} else if kit.Pct(t, 3, "big") {
				p.Big, p.From = kit.N(t, 1600, "rows"), kit.N(t, 2, "from")*700
			} else if round > 0 && kit.Pct(t, 50, "round") {
				// batches are likely to be cut at round numbers
				p.Big = round + 2
				if p.Do == "delete" {
					p.Big = round + kit.Pick(t, []int{1, 0, -1, 2}, "more") - len(p.Rows)
				}
			}
		}
		if p.Do == "insert" && !kit.Pct(t, 15, "keys twice") {
			seen := map[int]bool{}
			rows := p.Rows
			p.Rows = nil
			for _, r := range rows {
				if !seen[r.Key] {
					p.Rows = append(p.Rows, r)
				}
				seen[r.Key] = true
			}
		}
		return p
	})}
}

func init() {
	kit.Register(kit.Spec[BatchScenario]{ID: "C18", Quick: 5000, Thorough: 120000, Shards: 8,
		Rule: "some batch was stored or removed, and some deletion hit a row or some query selected part of the rows",
		Assumptions: []string{"SQLite stands in for MySQL (its limits on placeholders and its collations are not covered)",
			"at most one transaction of a store writes at a time", "what gorm alone stores for a model is how it has to be stored"},
		Gen: genBatch, Run: runBatch})
}
