// Package engine checks the engine (unit of work, transactions, locks, hooks, events)
// against a reference model, over generated commands run on an in-memory executor.
package engine

import (
	"context"
	"fmt"

	ddd "github.com/bytedance/dddfirework"
)

// Kinds of entities. KU has no stored form.
const (
	KA = iota
	KB
	KC
	KD
	KU
	nKinds
)

var kindName = []string{"A", "B", "C", "D", "U"}

type node interface {
	ddd.IEntity
	core() *Core
	slots() []slot
	kind() int
}

type slot struct {
	name    string
	accepts func(kind int) bool
	single  bool
	ordered bool // a list
	list    func() []node
	add     func(n node)
	del     func(n node, inPlace bool)
}

// Core is what all generated entities share.
type Core struct {
	ddd.BaseEntity
	Name string
	Num  int

	w *World
	h int
	// behaviour of the hooks of this entity
	Flags int
	omit  bool
}

const (
	flagStamp   = 1 << iota // before-hooks change Num
	flagSetID               // BeforeCreate sets an ID
	flagEvt                 // after-hooks raise an event
	flagBefore              // before-hooks raise an event
	nFlagValues = 1 << 4
)

func (c *Core) core() *Core { return c }

// Hooked adds the six lifecycle hooks.
type Hooked struct{ Core }

func (c *Hooked) BeforeCreate(ctx context.Context) error { return c.w.hook("BeforeCreate", &c.Core) }
func (c *Hooked) AfterCreate(ctx context.Context) error  { return c.w.hook("AfterCreate", &c.Core) }
func (c *Hooked) BeforeUpdate(ctx context.Context) error { return c.w.hook("BeforeUpdate", &c.Core) }
func (c *Hooked) AfterUpdate(ctx context.Context) error  { return c.w.hook("AfterUpdate", &c.Core) }
func (c *Hooked) BeforeDelete(ctx context.Context) error { return c.w.hook("BeforeDelete", &c.Core) }
func (c *Hooked) AfterDelete(ctx context.Context) error  { return c.w.hook("AfterDelete", &c.Core) }

// EA: single, list, map, interface-typed children.
type EA struct {
	Hooked
	hidden *ED             // unexported: never a child
	past   []*ED           // neither
	Base   *ddd.BaseEntity // what entities are made of, not an entity of its own
	Tags   []string
	Attr   map[string]string
	One    *EB
	List   []*EB
	Map    map[string]*EC
	Leaves []*ED
	Any    []ddd.IEntity
	OneAny node // an interface of its own
	Ghosts []*EU
	Label  string // a plain field among the children
}

// EB: nested children.
type EB struct {
	Hooked
	owner node // unexported: never a child
	Times map[string]int
	Kids  []*EC
	First *EC
	ByKey map[int]*ED
	Mix   map[[2]int8]ddd.IEntity
	Same  []*EB
}

// EC: custom children.
type EC struct {
	Hooked
	Ref  *ED // a field its GetChildren leaves out
	kids []*ED
	solo *EB
}

// ED: leaf without hooks.
type ED struct {
	Core
	Note string
}

// EU: not registered, has stored children.
type EU struct {
	Hooked
	Base  *ddd.BaseEntity
	Under []*ED
}

func (e *EA) kind() int { return KA }
func (e *EB) kind() int { return KB }
func (e *EC) kind() int { return KC }
func (e *ED) kind() int { return KD }
func (e *EU) kind() int { return KU }

func (e *EC) GetChildren() map[string][]ddd.IEntity {
	res := map[string][]ddd.IEntity{}
	if len(e.kids) > 0 || !e.omit {
		l := make([]ddd.IEntity, 0)
		for _, k := range e.kids {
			l = append(l, k)
		}
		res["kids"] = l
	}
	if e.solo != nil {
		res["solo"] = []ddd.IEntity{e.solo}
	} else if !e.omit {
		res["solo"] = []ddd.IEntity{}
	}
	return res
}

func (e *EA) slots() []slot {
	return []slot{
		oneSlot("One", KB, &e.One), listSlot("List", KB, &e.List), mapSlot("Map", only(KC), strKey, &e.Map),
		listSlot("Leaves", KD, &e.Leaves), anySlot("Any", &e.Any), oneAnySlot("OneAny", &e.OneAny),
		listSlot("Ghosts", KU, &e.Ghosts),
	}
}

func (e *EB) slots() []slot {
	return []slot{listSlot("Kids", KC, &e.Kids), oneSlot("First", KC, &e.First), mapSlot("ByKey", only(KD), intKey, &e.ByKey), mapSlot("Mix", func(k int) bool { return k == KC || k == KD }, arrKey, &e.Mix), listSlot("Same", KB, &e.Same)}
}

func (e *EC) slots() []slot {
	return []slot{listSlot("kids", KD, &e.kids), oneSlot("solo", KB, &e.solo)}
}
func (e *ED) slots() []slot { return nil }
func (e *EU) slots() []slot { return []slot{listSlot("Under", KD, &e.Under)} }

func only(k int) func(int) bool { return func(x int) bool { return x == k } }

func oneSlot[E any, P interface {
	*E
	node
}](name string, k int, p *P) slot {
	return slot{name: name, accepts: only(k), single: true,
		list: func() []node {
			if *p == nil {
				return nil
			}
			return []node{*p}
		},
		add: func(n node) { *p = n.(P) },
		del: func(n node, _ bool) { *p = nil },
	}
}

func listSlot[P interface {
	comparable
	node
}](name string, k int, p *[]P) slot {
	return slot{name: name, accepts: only(k), ordered: true,
		list: func() []node {
			var r []node
			for _, e := range *p {
				r = append(r, e)
			}
			return r
		},
		add: func(n node) { *p = append(*p, n.(P)) },
		del: func(n node, inPlace bool) {
			var out []P
			if inPlace {
				out = (*p)[:0]
			}
			for _, e := range *p {
				if node(e) != n {
					out = append(out, e)
				}
			}
			*p = out
		},
	}
}

func strKey(i int) string  { return fmt.Sprintf("k%d", i) }
func intKey(i int) int     { return i - 1 }
func arrKey(i int) [2]int8 { return [2]int8{int8(i >> 4), int8(i)} }

func mapSlot[K comparable, P ddd.IEntity](name string, accepts func(int) bool, key func(int) K, p *map[K]P) slot {
	return slot{name: name, accepts: accepts,
		list: func() []node {
			var r []node
			for i := 0; i < 4096 && len(r) < len(*p); i++ { // deterministic order
				if e, ok := (*p)[key(i)]; ok {
					r = append(r, any(e).(node))
				}
			}
			return r
		},
		add: func(n node) {
			if *p == nil {
				*p = map[K]P{}
			}
			for i := 0; ; i++ {
				if _, in := (*p)[key(i)]; !in {
					(*p)[key(i)] = n.(P)
					return
				}
			}
		},
		del: func(n node, inPlace bool) {
			m := map[K]P{}
			for key, e := range *p {
				if any(e).(node) != n {
					m[key] = e
				} else if inPlace {
					delete(*p, key)
				}
			}
			if !inPlace {
				*p = m
			}
		},
	}
}

func anyKind(k int) bool { return k == KB || k == KC || k == KD || k == KU }

// decorate fills the fields of an entity that must never be taken for children.
func decorate(n node) {
	switch x := n.(type) {
	case *EA:
		b := ddd.NewBase("")
		x.Base = &b
		x.hidden = &ED{}
		x.past = []*ED{{}, {}}
		x.Tags, x.Attr = []string{"t"}, map[string]string{"a": "b"}
	case *EB:
		x.owner = &ED{}
		x.Times = map[string]int{"x": 1}
	case *EC:
		x.Ref = &ED{}
	case *EU:
		b := ddd.NewBase("")
		x.Base = &b
	}
}

func anySlot(name string, p *[]ddd.IEntity) slot {
	return slot{name: name, accepts: anyKind, ordered: true,
		list: func() []node {
			var r []node
			for _, e := range *p {
				r = append(r, e.(node))
			}
			return r
		},
		add: func(n node) { *p = append(*p, n) },
		del: func(n node, inPlace bool) {
			var out []ddd.IEntity
			if inPlace {
				out = (*p)[:0]
			}
			for _, e := range *p {
				if e.(node) != n {
					out = append(out, e)
				}
			}
			*p = out
		},
	}
}

func oneAnySlot(name string, p *node) slot {
	return slot{name: name, accepts: anyKind, single: true,
		list: func() []node {
			if *p == nil {
				return nil
			}
			return []node{*p}
		},
		add: func(n node) { *p = n },
		del: func(n node, _ bool) { *p = nil },
	}
}

func newNode(kind int) node {
	switch kind {
	case KA:
		return &EA{}
	case KB:
		return &EB{}
	case KC:
		return &EC{}
	case KD:
		return &ED{}
	}
	return &EU{}
}

// Row is the stored form of an entity; each kind has its own model type.
type Row struct {
	ID     string
	Parent string
	Name   string
	Num    int
}

func (r *Row) GetID() string { return r.ID }

type (
	MA struct{ Row }
	MC struct{ Row }
	MD struct{ Row }
	ME struct{ Row } // event record: ID = event id, Name = payload
)

// The model of B is of another type of the same name as the model of A.
var newB, asB = func() (func(Row) ddd.IModel, func(ddd.IModel) (Row, bool)) {
	type MA struct{ Row }
	return func(r Row) ddd.IModel { return &MA{r} }, func(m ddd.IModel) (Row, bool) {
		x, ok := m.(*MA)
		if !ok {
			return Row{}, false
		}
		return x.Row, true
	}
}()

func newModel(table string, r Row) ddd.IModel {
	switch table {
	case "A":
		return &MA{r}
	case "B":
		return newB(r)
	case "C":
		return &MC{r}
	case "D":
		return &MD{r}
	}
	return &ME{r}
}

func rowOf(m ddd.IModel) (table string, r Row) {
	switch x := m.(type) {
	case *MA:
		return "A", x.Row
	case *MC:
		return "C", x.Row
	case *MD:
		return "D", x.Row
	case *ME:
		return "E", x.Row
	}
	if r, ok := asB(m); ok {
		return "B", r
	}
	return fmt.Sprintf("%T", m), Row{}
}
