package engine

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// ctl is how the generated program talks to the unit of work.
type ctl struct {
	add       func(n node)
	remove    func(n node)
	get       func(ctx context.Context, n node, kids ...interface{}) error
	customGet func(ctx context.Context, fill func(), roots ...ddd.IEntity) error
	handed    []ddd.IEntity // the roots a Build/Act command was handed
	loaded    []node        // the roots it built
	save      func(ctx context.Context) error
	noSave    bool // the command cannot save by itself
	container bool // Add/Remove go through the root container of a Build/Act command
}

func newWorld(sc *Scenario) *World {
	w := &World{sc: sc, exp: map[string]map[string]Row{}, persisted: map[node]prevInfo{}, dead: map[node]bool{}, dirty: map[node]bool{},
		loaded: map[string]bool{}, issued: map[string]int{}, nodeTree: map[node]*Tree{}, feat: map[string]int{}}
	for _, k := range []string{"A", "B", "C", "D", "E"} {
		w.exp[k] = map[string]Row{}
	}
	// stored rows
	for i := range sc.Init {
		t := sc.Init[i]
		forceIDs(&t)
		if t.Kind%2 == 1 {
			t.Kind = KB
		} else {
			t.Kind = KA
		}
		n := w.newTree(&t, "s")
		walkNodes(n, nil, func(x, p node) {
			if x.kind() != KU {
				w.exp[kindName[x.kind()]][x.GetID()] = w.rowFor(x, p)
			}
		})
		w.rootsRows = append(w.rootsRows, n.GetID())
		w.templates = append(w.templates, n)
	}
	w.init = cloneTables(w.exp)
	w.store = &memStore{w: w, tables: cloneTables(w.exp)}
	return w
}

func forceIDs(t *Tree) {
	t.ID = true
	kids := append([]Tree(nil), t.Kids...)
	for i := range kids {
		forceIDs(&kids[i])
	}
	t.Kids = kids
}

func (w *World) rowFor(x, p node) Row {
	r := Row{ID: x.GetID(), Name: x.core().Name, Num: x.core().Num}
	if p != nil {
		r.Parent = p.GetID()
	}
	return r
}

func cloneNode(w *World, t node) node {
	n := newNode(t.kind())
	n.SetID(t.GetID())
	n.core().Name, n.core().Num = t.core().Name, t.core().Num
	w.register(n, &Tree{Flags: t.core().Flags, Omit: t.core().omit})
	ts, ns := t.slots(), n.slots()
	for i := range ts {
		for _, k := range ts[i].list() {
			ns[i].add(cloneNode(w, k))
		}
	}
	return n
}

func (w *World) live() []node {
	var r []node
	seen := map[node]bool{}
	for _, root := range w.roots {
		walkNodes(root, nil, func(n, _ node) {
			if !seen[n] {
				seen[n] = true
				r = append(r, n)
			}
		})
	}
	return r
}

func pick(l []node, sel int) node {
	if len(l) == 0 {
		return nil
	}
	return l[abs(sel)%len(l)]
}

// remember makes n's tree known to the shadow model as stored.
func (w *World) remember(root node) {
	walkNodes(root, nil, func(n, p node) {
		w.persisted[n] = w.prevOf(n, p)
	})
}

func (w *World) prevOf(n, p node) prevInfo {
	pi := prevInfo{name: n.core().Name, num: n.core().Num, holder: p}
	if p != nil {
		pi.parentID = p.GetID()
		pi.slot = slotOf(p, n)
	}
	return pi
}

func slotOf(p, n node) string {
	for _, s := range p.slots() {
		if has(s.list(), n) {
			return s.name
		}
	}
	return ""
}

var errProgram = errors.New("program stops on a repository error")

func (w *World) runOps(ctx context.Context, c *ctl, ops []Op, phase int) error {
	for i, op := range ops {
		if w.dup && op.K != "save" || w.fired != "" || w.misuse && (op.K != "save" || c.container) {
			continue
		}
		loadOp := op.K == "get" || op.K == "load" || op.K == "getmissing" || op.K == "badget"
		if phase == 1 && !loadOp || phase == 2 && loadOp {
			continue
		}
		if err := w.op(ctx, c, op); err != nil {
			return fmt.Errorf("op %d: %w", i, err)
		}
	}
	return nil
}

func (w *World) op(ctx context.Context, c *ctl, op Op) error {
	w.feat["op:"+op.K]++
	switch op.K {
	case "get", "load":
		var cand []int
		for i, id := range w.rootsRows {
			if !w.loaded[id] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return nil
		}
		i := cand[abs(op.A)%len(cand)]
		if op.K == "get" {
			return w.doGet(ctx, c, i, op)
		}
		idx := []int{i}
		if op.B%3 == 1 {
			for _, j := range cand {
				if j != i {
					idx = append(idx, j)
					break
				}
			}
		}
		var roots []ddd.IEntity
		var ns []node
		for _, j := range idx {
			n := newNode(w.templates[j].kind())
			n.SetID(w.templates[j].GetID())
			roots = append(roots, n)
			ns = append(ns, n)
		}
		err := c.customGet(ctx, func() {
			for x, j := range idx {
				t := w.templates[j]
				n := ns[x]
				n.core().Name, n.core().Num = t.core().Name, t.core().Num
				w.register(n, &Tree{Flags: t.core().Flags, Omit: t.core().omit})
				ts, nsl := t.slots(), n.slots()
				for si := range ts {
					for _, k := range ts[si].list() {
						nsl[si].add(cloneNode(w, k))
					}
				}
				w.loaded[t.GetID()] = true
			}
		}, roots...)
		if err != nil {
			return err
		}
		for _, n := range ns {
			w.roots = append(w.roots, n)
			w.remember(n)
		}
	case "getmissing":
		n := newNode(abs(op.A) % 2)
		n.SetID("nosuchid")
		var err error
		if a, ok := n.(*EA); ok {
			err = c.get(ctx, n, &a.List)
		} else {
			err = c.get(ctx, n)
		}
		if err == nil {
			w.bug("load", "loading a root that does not exist succeeded")
		} else if w.fired != "" {
			return err
		} else if !errors.Is(err, ddd.ErrEntityNotFound) {
			w.bug("load", "loading a root that does not exist gives %v", err)
		}
	case "badget":
		return w.badGet(ctx, c, op)
	case "add":
		t := op.T
		if t == nil {
			t = &Tree{}
		}
		tt := *t
		tt.Kind = abs(tt.Kind) % 2
		n := w.newTree(&tt, "c")
		if abs(op.C)%8 == 7 && len(w.rootsRows) > 0 { // clash with a stored row
			i := abs(op.A) % len(w.rootsRows)
			if w.templates[i].kind() == n.kind() {
				n.SetID(w.rootsRows[i])
			}
		}
		c.add(n)
		w.roots = append(w.roots, n)
	case "remove":
		if op.B%3 == 1 {
			var cand []int
			for i, id := range w.rootsRows {
				if !w.loaded[id] {
					cand = append(cand, i)
				}
			}
			if len(cand) > 0 {
				i := cand[abs(op.A)%len(cand)]
				n := newNode(w.templates[i].kind())
				n.SetID(w.templates[i].GetID())
				n.core().Name = "stub"
				w.register(n, &Tree{Flags: w.templates[i].core().Flags})
				w.loaded[n.GetID()] = true
				c.remove(n)
				if c.container {
					w.misuse = true // the container only removes roots it holds
					return nil
				}
				w.persisted[n] = w.prevOf(n, nil)
				w.removed = append(w.removed, n)
				return nil
			}
		}
		n := pick(w.roots, op.A)
		if n == nil {
			return nil
		}
		c.remove(n)
		w.roots = without(w.roots, n)
		if _, in := w.persisted[n]; in {
			w.removed = append(w.removed, n)
		} else {
			walkNodes(n, nil, func(x, _ node) {
				if _, in := w.persisted[x]; !in {
					w.dead[x] = true
				}
			})
			// stored entities moved into a new root that is dropped again
			w.newDropped = append(w.newDropped, n)
		}
	case "purge": // every root the command was handed goes
		if !c.container {
			return nil
		}
		for _, r := range c.handed {
			if n, ok := r.(node); ok && has(w.roots, n) && !has(w.removed, n) {
				c.remove(n)
			}
		}
		for _, n := range c.loaded {
			if has(w.roots, n) {
				w.roots = without(w.roots, n)
				w.removed = append(w.removed, n)
			}
		}
	case "child":
		p := pick(w.live(), op.A)
		if p == nil || op.T == nil {
			return nil
		}
		n := w.newTree(op.T, "c")
		d, ok := place(p, n, op.B)
		if ok && d != nil {
			w.tookOut(d)
		}
	case "detach":
		var cand []node
		for _, n := range w.live() {
			if !has(w.roots, n) {
				cand = append(cand, n)
			}
		}
		n := pick(cand, op.A)
		if n == nil {
			return nil
		}
		for _, r := range w.roots {
			if h, s := holderOf(r, n); h != nil {
				s.del(n, op.C%2 == 1)
				break
			}
		}
		w.tookOut(n)
	case "move":
		var cand []node
		gone := map[node]bool{}
		for _, n := range w.live() {
			if !has(w.roots, n) {
				cand = append(cand, n)
			}
		}
		heads := append(append([]node{}, w.removed...), w.detached...)
		for _, h := range heads {
			walkNodes(h, nil, func(n, _ node) {
				if has(w.removed, n) || w.dead[n] || has(w.roots, n) {
					return
				}
				if !has(cand, n) {
					cand = append(cand, n)
					gone[n] = true
				}
			})
		}
		n := pick(cand, op.A)
		if n == nil {
			return nil
		}
		var targets []node
		for _, p := range w.live() {
			inside := false
			walkNodes(n, nil, func(x, _ node) {
				if x == p {
					inside = true
				}
			})
			if inside {
				continue
			}
			for _, s := range p.slots() {
				if s.accepts(n.kind()) {
					targets = append(targets, p)
					break
				}
			}
		}
		p := pick(targets, op.B)
		if p == nil {
			return nil
		}
		for _, top := range append(append([]node{}, w.roots...), heads...) {
			if h, s := holderOf(top, n); h != nil {
				s.del(n, op.C%2 == 1)
				break
			}
		}
		w.detached = without(w.detached, n)
		d, ok := place(p, n, op.C)
		if !ok {
			w.tookOut(n)
		}
		if ok && d != nil {
			w.tookOut(d)
		}
		if gone[n] {
			w.feat["move-out-of-removed"]++
		}
	case "bulk": // the children of one slot are scattered: some stay, some leave, some move
		var cand []slot
		for _, p := range w.live() {
			for _, s := range p.slots() {
				if len(s.list()) >= 2 {
					cand = append(cand, s)
				}
			}
		}
		if len(cand) == 0 {
			return nil
		}
		s := cand[abs(op.A)%len(cand)]
		plan := abs(op.C)*16 + abs(op.B)
		w.feat["bulk-op"]++
		for i, n := range s.list() {
			what := plan >> (2 * (i % 4)) & 3
			if what == 0 {
				continue
			}
			s.del(n, op.B%2 == 1)
			w.tookOut(n)
			if what == 1 {
				continue
			}
			var targets []node
			for _, p := range w.live() {
				inside := false
				walkNodes(n, nil, func(x, _ node) { inside = inside || x == p })
				if inside {
					continue
				}
				for _, ps := range p.slots() {
					if ps.accepts(n.kind()) {
						targets = append(targets, p)
						break
					}
				}
			}
			if p := pick(targets, op.B+what+i); p != nil {
				d, ok := place(p, n, op.C+i)
				if ok {
					w.detached, w.newDropped = without(w.detached, n), without(w.newDropped, n)
				}
				if ok && d != nil {
					w.tookOut(d)
				}
			}
		}
	case "edit", "touch":
		n := pick(w.live(), op.A)
		if n == nil {
			return nil
		}
		if op.K == "edit" {
			if op.C%4 == 3 {
				n.core().Num = 0 // to the zero value
				n.core().Name = ""
			} else {
				n.core().Num = 1000 + op.B
				if op.C%2 == 0 {
					n.core().Name = fmt.Sprintf("e%d", op.B)
				}
			}
		}
		n.core().Dirty()
		w.dirty[n] = true
	case "evt":
		cand := w.live()
		for _, g := range append(append([]node{}, w.allGone...), w.removed...) {
			if !has(cand, g) {
				cand = append(cand, g)
			}
		}
		if n := pick(cand, op.A); n != nil {
			w.raise(n, op.B)
		}
	case "save":
		if c.noSave {
			return nil
		}
		w.prepareSave()
		if err := c.save(ctx); err != nil {
			return err
		}
		w.commitShadow()
	case "dup":
		var cand []node
		for _, n := range w.live() {
			if _, in := w.persisted[n]; !in && !has(w.roots, n) {
				cand = append(cand, n)
			}
		}
		n := pick(cand, op.A)
		if n == nil {
			return nil
		}
		var targets []slot
		for _, p := range w.live() {
			inside := false
			walkNodes(n, nil, func(x, _ node) { inside = inside || x == p })
			if inside {
				continue
			}
			for _, s := range p.slots() {
				if s.accepts(n.kind()) && !has(s.list(), n) && (!s.single || len(s.list()) == 0) {
					targets = append(targets, s)
				}
			}
		}
		if len(targets) == 0 {
			return nil
		}
		targets[abs(op.B)%len(targets)].add(n)
		w.dup = true
	case "misuse":
		return w.misuseOp(ctx, c, op)
	case "fail":
		switch op.A % 3 {
		case 0:
			w.endReq = "error"
			return errMain
		case 1:
			w.endReq = "break"
			if op.B%2 == 0 {
				return ddd.ErrBreak
			}
			return fmt.Errorf("stop here: %w", ddd.ErrBreak)
		default:
			w.endReq = "panic"
			panic("program panic")
		}
	}
	return nil
}

func (w *World) tookOut(n node) {
	if _, in := w.persisted[n]; in {
		if !has(w.detached, n) {
			w.detached = append(w.detached, n)
		}
	} else {
		w.newDropped = append(w.newDropped, n)
	}
}

func (w *World) misuseOp(ctx context.Context, c *ctl, op Op) error {
	var stored, fresh []node
	for _, r := range w.roots {
		if _, in := w.persisted[r]; in {
			stored = append(stored, r)
		} else {
			fresh = append(fresh, r)
		}
	}
	switch abs(op.A) % 7 {
	case 4: // take over an entity that is already loaded
		if n := pick(stored, op.B); n != nil && !c.container {
			w.misuse = true
			if err := c.customGet(ctx, func() {}, n); err != nil {
				return err
			}
			w.bug("misuse", "taking over an already loaded entity succeeded")
		}
	case 5: // load or take over an entity that was removed
		if n := pick(w.removed, op.B); n != nil && !c.container && n.GetID() != "" {
			w.misuse = true
			var err error
			if op.C%2 == 0 {
				err = c.get(ctx, n)
			} else {
				err = c.customGet(ctx, func() {}, n)
			}
			if err != nil {
				return err
			}
			w.bug("misuse", "loading a removed entity succeeded")
		}
	case 6: // load or take over an entity that was added
		if c.container || len(w.rootsRows) == 0 {
			return nil
		}
		i := abs(op.B) % len(w.rootsRows)
		n := newNode(w.templates[i].kind())
		n.SetID(w.rootsRows[i])
		w.register(n, nil)
		w.misuse = true
		c.add(n)
		w.roots = append(w.roots, n)
		var err error
		if op.C%2 == 0 {
			err = c.get(ctx, n)
		} else {
			err = c.customGet(ctx, func() {}, n)
		}
		if err != nil {
			return err
		}
		w.bug("misuse", "loading an entity that was added as new succeeded")
	case 0: // add a root that is already part of the unit of work
		if n := pick(stored, op.B); n != nil {
			w.misuse = true
			c.add(n)
		}
	case 1: // add the same new root twice
		if n := pick(fresh, op.B); n != nil {
			w.misuse = true
			c.add(n)
		}
	case 2: // remove twice
		if n := pick(stored, op.B); n != nil {
			c.remove(n)
			c.remove(n)
			w.misuse = true
		}
	case 3: // load into an object that is already loaded
		if n := pick(stored, op.B); n != nil && !c.container && n.GetID() != "" {
			w.misuse = true
			if err := c.get(ctx, n); err != nil {
				return err
			}
			w.bug("misuse", "loading an already loaded entity succeeded")
		}
	}
	return nil
}

// badGet loads with arguments that cannot be loaded into: an error, and nothing else, must come of it.
func (w *World) badGet(ctx context.Context, c *ctl, op Op) error {
	a := &EA{}
	a.SetID("nosuchid")
	for i, t := range w.templates {
		if t.kind() == KA {
			a.SetID(w.rootsRows[i])
		}
	}
	w.register(a, nil)
	var kids []interface{}
	what := abs(op.C) % 9
	switch what {
	case 0:
		a.SetID("")
	case 1:
		kids = append(kids, a.List)
	case 2:
		kids = append(kids, &a.Label)
	case 3:
		kids = append(kids, &a.Tags)
	case 4:
		kids = append(kids, &[]int{1})
	case 5:
		kids = append(kids, EB{})
	case 6:
		kids = append(kids, &a.Map)
	case 7:
		kids = append(kids, &struct{ ID string }{"x"})
	case 8:
		kids = append(kids, "List")
	}
	if op.A%3 == 0 && what != 0 {
		kids = append([]interface{}{&a.List}, kids...)
	}
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.HasPrefix(w.fired, "panic:") {
					panic(r)
				}
				w.bug("load", "loading into an invalid argument (%d) panics: %v", what, r)
				err = errors.New("panic")
			}
		}()
		err = c.get(ctx, a, kids...)
	}()
	if w.fired != "" {
		return err
	}
	if err == nil {
		w.bug("load", "loading into an invalid argument (%d) reports no error", what)
	}
	return nil
}

func (w *World) doGet(ctx context.Context, c *ctl, i int, op Op) error {
	t := w.templates[i]
	n := newNode(t.kind())
	n.SetID(t.GetID())
	w.register(n, &Tree{Flags: t.core().Flags, Omit: t.core().omit})
	var kids []interface{}
	type want struct {
		table string
		list  func() []node
		one   bool
		id    string
	}
	var wants []want
	byParent := func(table string) []string {
		var r []string
		for id, row := range w.exp[table] {
			if row.Parent == n.GetID() {
				r = append(r, id)
			}
		}
		sort.Slice(r, func(i, j int) bool { return len(r[i]) < len(r[j]) || len(r[i]) == len(r[j]) && r[i] < r[j] })
		return r
	}
	switch x := n.(type) {
	case *EA:
		switch op.B % 6 {
		case 4: // into an object of the caller
			if l := byParent("B"); len(l) > 0 {
				x.One = &EB{}
				if op.C%4 >= 2 {
					x.One.SetID(l[abs(op.C)%len(l)])
				}
				kids = append(kids, x.One)
				wants = append(wants, want{"B", n.slots()[0].list, true, x.One.GetID()})
			}
		case 5: // into an object of the caller, without success
			stub := &EB{}
			stub.SetID("nosuchid")
			stub.Name = "untouched"
			kids = append(kids, stub, &x.List)
			wants = append(wants, want{"B", n.slots()[1].list, false, ""})
			defer func() {
				if stub.Name != "untouched" || stub.GetID() != "nosuchid" {
					w.bug("load", "a child that does not exist was loaded")
				}
			}()
		case 1:
			kids = append(kids, &x.List)
			wants = append(wants, want{"B", n.slots()[1].list, false, ""})
		case 2:
			kids = append(kids, &x.One)
			wants = append(wants, want{"B", n.slots()[0].list, true, ""})
		case 3: // a particular child, by id
			if l := byParent("B"); len(l) > 0 {
				x.One = &EB{}
				x.One.SetID(l[abs(op.C)%len(l)])
				kids = append(kids, &x.One)
				wants = append(wants, want{"B", n.slots()[0].list, true, x.One.GetID()})
			}
		}
		if op.C%2 == 1 {
			kids = append(kids, &x.Leaves)
			wants = append(wants, want{"D", n.slots()[3].list, false, ""})
		}
	case *EB:
		switch op.B % 3 {
		case 1:
			kids = append(kids, &x.Kids)
			wants = append(wants, want{"C", n.slots()[0].list, false, ""})
		case 2:
			kids = append(kids, &x.First)
			wants = append(wants, want{"C", n.slots()[1].list, true, ""})
		}
	}
	w.loaded[n.GetID()] = true
	if err := c.get(ctx, n, kids...); err != nil {
		return err
	}
	w.roots = append(w.roots, n)
	row := w.exp[kindName[n.kind()]][n.GetID()]
	if n.core().Name != row.Name || n.core().Num != row.Num {
		w.bug("load", "root %s loaded as %q/%d, stored %+v", n.GetID(), n.core().Name, n.core().Num, row)
	}
	for _, wt := range wants {
		ids := byParent(wt.table)
		if wt.id != "" {
			ids = []string{wt.id}
		}
		got := wt.list()
		if wt.one {
			if len(ids) == 0 {
				if len(got) != 0 {
					w.bug("load", "a child appeared out of nothing in %s", n.GetID())
				}
				continue
			}
			if len(got) != 1 || !contains(ids, got[0].GetID()) {
				w.bug("load", "the single child of %s is not one of %v", n.GetID(), ids)
				continue
			}
		} else {
			var g []string
			for _, k := range got {
				g = append(g, k.GetID())
			}
			sort.Strings(g)
			e := append([]string(nil), ids...)
			sort.Strings(e)
			if strings.Join(g, ",") != strings.Join(e, ",") {
				w.bug("load", "children of %s loaded as %v, stored %v", n.GetID(), g, e)
			}
		}
		w.feat["get-children"] += len(got)
		for _, k := range got {
			r := w.exp[wt.table][k.GetID()]
			if k.core().Name != r.Name || k.core().Num != r.Num {
				w.bug("load", "child %s loaded as %q/%d, stored %+v", k.GetID(), k.core().Name, k.core().Num, r)
			}
		}
	}
	walkNodes(n, nil, func(x, _ node) {
		if x.core().w == nil {
			w.register(x, &Tree{Flags: len(w.nodes) % nFlagValues})
		}
	})
	w.remember(n)
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// prepareSave computes what the coming save has to do.
func (w *World) prepareSave() {
	ch := change{inserted: map[node]bool{}, updated: map[node]bool{}, deleted: map[node]bool{}, optional: map[node]bool{}, preID: map[node]string{}, prev: map[node]prevInfo{}}
	for n, p := range w.persisted {
		ch.prev[n] = p
	}
	newIDs := map[string]bool{}
	count := map[node]int{}
	holder := map[node]node{}
	for _, r := range w.roots {
		walkNodes(r, nil, func(n, p node) {
			count[n]++
			holder[n] = p
			for _, s := range n.slots() {
				if s.ordered {
					ch.lists = append(ch.lists, s.list())
				}
			}
		})
	}
	ch.lists = append(ch.lists, append([]node(nil), w.roots...))
	for n, k := range count {
		prev, in := w.persisted[n]
		switch {
		case !in:
			ch.inserted[n] = true
			if k > 1 {
				ch.dup = true
			}
			ch.preID[n] = n.GetID()
			if n.GetID() != "" && n.kind() != KU {
				if newIDs[kindName[n.kind()]+n.GetID()] {
					ch.conflict = true
				}
				newIDs[kindName[n.kind()]+n.GetID()] = true
				if _, taken := w.exp[kindName[n.kind()]][n.GetID()]; taken {
					ch.conflict = true
				}
			}
		case prev.holder != holder[n]:
			ch.updated[n] = true
			w.feat["moved"]++
		case w.dirty[n]:
			ch.updated[n] = true
		case holder[n] != nil && slotOf(holder[n], n) != prev.slot:
			ch.optional[n] = true // a slot change under the same parent may be written as an empty update
		}
	}
	removedRoot := map[node]bool{}
	for _, r := range w.removed {
		removedRoot[r] = true
	}
	for n, prev := range w.persisted {
		if count[n] > 0 {
			continue
		}
		if removedRoot[n] || prev.holder != nil && !has(children(prev.holder), n) {
			ch.deleted[n] = true
		}
	}
	// an entity that moved within removed sub-trees may be left behind like its siblings
	for n := range ch.deleted {
		prev := w.persisted[n]
		if removedRoot[n] || prev.holder == nil || count[prev.holder] > 0 {
			continue
		}
		for h := range ch.deleted {
			walkNodes(h, nil, func(x, _ node) {
				if x != h && x == n {
					ch.optional[n] = true
				}
			})
		}
	}
	for n := range ch.optional {
		if ch.deleted[n] {
			delete(ch.deleted, n)
			w.feat["moved-within-removed"]++
		}
	}
	if w.sc.Cfg.Recursive {
		var heads []node
		for n := range ch.deleted {
			heads = append(heads, n)
		}
		for _, h := range heads {
			walkNodes(h, nil, func(n, _ node) {
				if count[n] > 0 {
					return
				}
				if _, in := w.persisted[n]; in {
					ch.deleted[n] = true
					delete(ch.optional, n)
				}
			})
		}
	}
	ch.holder = holder
	w.changes = append(w.changes, ch)
	w.save = len(w.changes)
	w.trace = append(w.trace, Ev{K: "save", Save: w.save})
	if ch.dup {
		w.feat["dup"]++
	}
	if ch.conflict && !w.sc.Cfg.DryRun {
		w.conflict = true
	}
	w.feat["inserted"] += len(ch.inserted)
	w.feat["updated"] += len(ch.updated)
	w.feat["deleted"] += len(ch.deleted)
}

// commitShadow applies the last prepared save to the expected store.
func (w *World) commitShadow() {
	ch := &w.changes[len(w.changes)-1]
	ch.done = true
	// an optional update that did take place counts as one
	for _, e := range w.trace {
		if e.K == "hook" && e.Name == "BeforeUpdate" && e.Save == w.save && ch.optional[w.nodes[e.H]] {
			delete(ch.optional, w.nodes[e.H])
			ch.updated[w.nodes[e.H]] = true
		}
		if e.K == "exec" && e.Op == ddd.OpDelete && e.Save == w.save {
			for n := range ch.optional {
				for _, r := range e.Acts {
					if kindName[n.kind()] == e.Tab && r.ID == n.GetID() {
						delete(ch.optional, n)
						ch.deleted[n] = true
					}
				}
			}
		}
	}
	holder := map[node]node{}
	for _, r := range w.roots {
		walkNodes(r, nil, func(n, p node) { holder[n] = p })
	}
	if !w.sc.Cfg.DryRun {
		for n := range ch.inserted {
			if n.kind() != KU {
				w.exp[kindName[n.kind()]][n.GetID()] = w.rowFor(n, holder[n])
			}
		}
		for n := range ch.updated {
			if n.kind() != KU {
				r := w.rowFor(n, holder[n])
				if has(w.roots, n) {
					r.Parent = w.exp[kindName[n.kind()]][n.GetID()].Parent
				}
				if _, in := w.exp[kindName[n.kind()]][n.GetID()]; in {
					w.exp[kindName[n.kind()]][n.GetID()] = r
				}
			}
		}
		for n := range ch.deleted {
			if n.kind() != KU {
				delete(w.exp[kindName[n.kind()]], n.GetID())
			}
		}
	}
	var del []node
	for n := range ch.deleted {
		del = append(del, n)
	}
	sort.Slice(del, func(i, j int) bool { return del[i].core().h < del[j].core().h })
	for _, n := range del {
		w.allGone = append(w.allGone, n)
	}
	for _, n := range w.nodes {
		if n == nil {
			continue
		}
		if _, isLive := holder[n]; !isLive {
			if _, in := w.persisted[n]; in {
				w.dead[n] = true
			}
		}
	}
	w.persisted = map[node]prevInfo{}
	for n, p := range holder {
		w.persisted[n] = w.prevOf(n, p)
		delete(w.dirty, n)
	}
	w.removed, w.detached = nil, nil
}

// ---- commands ----

type mainCmd struct {
	w    *World
	main func(ctx context.Context, repo *ddd.Repository) error
	keys []string
}

func (c *mainCmd) Init(ctx context.Context) ([]string, error) {
	if err := c.w.step("init"); err != nil {
		return nil, err
	}
	c.w.initOK = true
	return c.keys, nil
}
func (c *mainCmd) Main(ctx context.Context, repo *ddd.Repository) error { return c.main(ctx, repo) }
func (c *mainCmd) PostSave(ctx context.Context, res *ddd.Result)        { c.w.post("cmd", res) }

// command forms without the optional methods
type mainOnly struct{ c *mainCmd }

func (c *mainOnly) Main(ctx context.Context, repo *ddd.Repository) error { return c.c.main(ctx, repo) }

type mainInit struct{ mainOnly }

func (c *mainInit) Init(ctx context.Context) ([]string, error) { return c.c.Init(ctx) }

type mainPost struct{ mainOnly }

func (c *mainPost) PostSave(ctx context.Context, res *ddd.Result) { c.c.PostSave(ctx, res) }

func (w *World) mainForm(c *mainCmd) interface{} {
	if !w.hasInit() {
		w.initOK = true
	}
	switch {
	case w.hasInit() && w.hasPost():
		return c
	case w.hasInit():
		return &mainInit{mainOnly{c}}
	case w.hasPost():
		return &mainPost{mainOnly{c}}
	}
	return &mainOnly{c}
}

func (w *World) hasInit() bool { return w.sc.Cfg.Kind != 2 || w.sc.Cfg.Form&1 == 0 }
func (w *World) hasPost() bool { return w.sc.Cfg.Kind != 2 || w.sc.Cfg.Form&2 == 0 }

// bareCmd implements ICommand without embedding ddd.Command.
type bareCmd struct{ a *actCmd }

func (c *bareCmd) Init(ctx context.Context) ([]string, error) { return c.a.Init(ctx) }
func (c *bareCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	return c.a.Build(ctx, b)
}
func (c *bareCmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	return c.a.Act(ctx, cont, roots...)
}
func (c *bareCmd) PostSave(ctx context.Context, res *ddd.Result) { c.a.PostSave(ctx, res) }

func (w *World) actForm() ddd.ICommand {
	c := &actCmd{w: w, keys: w.lockKeys()}
	if w.bare() {
		return &bareCmd{c}
	}
	return c
}

func (w *World) bare() bool { return (w.sc.Cfg.Kind == 3 || w.sc.Cfg.Kind == 5) && w.sc.Cfg.Form == 3 }

type actCmd struct {
	ddd.Command
	w    *World
	keys []string
}

func (c *actCmd) Init(ctx context.Context) ([]string, error) {
	if err := c.w.step("init"); err != nil {
		return nil, err
	}
	c.w.initOK = true
	return c.keys, nil
}

func (c *actCmd) Build(ctx context.Context, b ddd.DomainBuilder) ([]ddd.IEntity, error) {
	w := c.w
	w.mainRan++
	w.trace = append(w.trace, Ev{K: "main"})
	cc := &ctl{container: true,
		get: func(ctx context.Context, n node, kids ...interface{}) error { return b.Build(ctx, n, kids...) },
		customGet: func(ctx context.Context, fill func(), roots ...ddd.IEntity) error {
			fill()
			return nil
		},
	}
	if err := w.runOps(ctx, cc, w.sc.Ops, 1); err != nil {
		return nil, err
	}
	var roots []ddd.IEntity
	for _, r := range w.roots {
		roots = append(roots, r)
	}
	if w.sc.Cfg.NoIDRoot {
		w.endReq = "noid"
		i := len(roots) * w.sc.Cfg.Form / 4
		roots = append(roots[:i:i], append([]ddd.IEntity{&ED{}}, roots[i:]...)...)
	}
	return roots, nil
}

func (c *actCmd) Act(ctx context.Context, cont ddd.RootContainer, roots ...ddd.IEntity) error {
	w := c.w
	cc := &ctl{container: true,
		add:    func(n node) { cont.Add(n) },
		remove: func(n node) { cont.Remove(n) },
		save:   func(ctx context.Context) error { return c.Commit(ctx) },
		noSave: w.bare(),
		handed: roots,
		loaded: append([]node(nil), w.roots...),
	}
	if w.endReq == "noid" {
		w.bug("outcome", "Act ran although Build returned a root without ID")
		return nil
	}
	for i, r := range roots {
		if i >= len(w.roots) || r != ddd.IEntity(w.roots[i]) {
			w.bug("load", "Act got other roots than Build returned")
		}
	}
	if err := w.runOps(ctx, cc, w.sc.Ops, 2); err != nil {
		return err
	}
	if w.sc.Cfg.Output && !w.bare() {
		c.Output("out")
	}
	w.prepareSave()
	return nil
}

func (c *actCmd) PostSave(ctx context.Context, res *ddd.Result) { c.w.post("cmd", res) }

func (w *World) post(who string, res *ddd.Result) {
	w.trace = append(w.trace, Ev{K: "postsave", Name: who})
	w.postRes = append(w.postRes, who)
	w.postPtr = append(w.postPtr, res)
	if res == nil || res.Error != nil {
		w.bug("outcome", "after-save callback got a result with an error")
	}
}

func (w *World) lockKeys() []string {
	var keys []string
	for _, k := range w.sc.Cfg.Locks {
		keys = append(keys, fmt.Sprintf("key%d", k))
	}
	return keys
}

func (w *World) run() {
	sc := w.sc
	opts := []ddd.Option{ddd.WithLogger(discard), ddd.WithIDGenerator(&seqIDs{w})}
	var per []ddd.Option
	if sc.Cfg.NoTx {
		per = append(per, ddd.WithoutTransaction)
	}
	if sc.Cfg.Recursive {
		per = append(per, ddd.WithRecursiveDelete)
	}
	if sc.Cfg.DryRun {
		per = append(per, ddd.WithDryRun)
	}
	switch sc.Cfg.Bus {
	case 1:
		per = append(per, ddd.WithEventBus(&plainBus{w}))
	case 2:
		per = append(per, ddd.WithEventBus(&txBus{plainBus{w}}))
	}
	if sc.Cfg.Persist {
		per = append(per, ddd.WithEventPersist(func(e *ddd.DomainEvent) (ddd.IModel, error) {
			if err := w.step("persist"); err != nil {
				return nil, err
			}
			return &ME{Row{ID: e.ID, Name: string(e.Payload)}}, nil
		}))
	}
	for i := 0; i < sc.Cfg.Hooks; i++ {
		name := fmt.Sprintf("engine%d", i)
		opts = append(opts, ddd.WithPostSave(func(ctx context.Context, res *ddd.Result) { w.post(name, res) }))
	}
	var runOpts []ddd.Option
	if sc.Cfg.RunOpt && sc.Cfg.Kind < 6 {
		runOpts = per
	} else {
		opts = append(opts, per...)
	}
	e := ddd.NewEngine(&traceLock{w}, w.store, opts...)
	w.eng, w.runOpts = e, runOpts
	mainFn := func(ctx context.Context, repo *ddd.Repository) error {
		w.mainRan++
		w.trace = append(w.trace, Ev{K: "main"})
		cc := &ctl{
			add:    func(n node) { repo.Add(n) },
			remove: func(n node) { repo.Remove(n) },
			get: func(ctx context.Context, n node, kids ...interface{}) error {
				return repo.Get(ctx, n, kids...)
			},
			customGet: func(ctx context.Context, fill func(), roots ...ddd.IEntity) error {
				return repo.CustomGet(ctx, func(ctx context.Context, r ...ddd.IEntity) { fill() }, roots...)
			},
			save: func(ctx context.Context) error { return repo.Save(ctx) },
		}
		if len(w.reused) > 0 {
			if err := repo.CustomGet(ctx, func(context.Context, ...ddd.IEntity) {}, w.reused...); err != nil {
				return err
			}
		}
		if err := w.runOps(ctx, cc, w.sc.Ops, 0); err != nil {
			return err
		}
		w.prepareSave()
		return nil
	}
	w.mainFn = mainFn
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	w.cancel = cancel
	defer func() { w.panicked = recover() }()
	switch sc.Cfg.Kind {
	case 1:
		w.initOK = true
		w.res = e.Run(ctx, mainFn, runOpts...)
	case 2:
		w.res = e.Run(ctx, w.mainForm(&mainCmd{w: w, main: mainFn, keys: w.lockKeys()}), runOpts...)
	case 3:
		w.res = e.Run(ctx, w.actForm(), runOpts...)
	case 4:
		w.initOK = true
		w.res = e.NewStage().WithOption(runOpts...).Lock(w.lockKeys()...).Main(mainFn).Save(ctx)
	case 5:
		w.res = e.RunCommand(ctx, w.actForm(), runOpts...)
	case 6, 7: // Create and Delete of the engine
		w.createKind, w.initOK = true, true
		cc := &ctl{add: func(node) {}, remove: func(node) {}}
		w.trace = append(w.trace, Ev{K: "main"})
		var arg []ddd.IEntity
		if sc.Cfg.Kind == 6 {
			for _, op := range sc.Ops {
				if op.K == "add" {
					_ = w.op(ctx, cc, op)
				}
			}
			for _, r := range w.roots {
				arg = append(arg, r)
			}
		} else {
			for _, op := range sc.Ops {
				if op.K == "add" || op.K == "remove" {
					op.B = 1
					op.K = "remove"
					_ = w.op(ctx, cc, op)
				}
			}
			for _, r := range w.removed {
				arg = append(arg, r)
			}
		}
		w.trace = nil
		w.prepareSave()
		if sc.Cfg.Kind == 6 {
			w.res = e.Create(ctx, arg...)
		} else {
			w.res = e.Delete(ctx, arg...)
		}
	default:
		w.initOK = true
		w.res = e.Run(ctx, ddd.MainFunc(mainFn), runOpts...)
	}
}

// rerun takes the entities of the finished, successful run into another command of the
// same engine: what the first command left in them is what the second one starts from.
func (w *World) rerun(a Again) bool {
	if !w.succeeded() || len(w.errs) > 0 || w.sc.Cfg.DryRun || len(w.events) > 0 || w.eng == nil || w.mainFn == nil {
		return false
	}
	var keep []node
	for i, r := range w.roots {
		if a.Keep>>(i%8)&1 == 1 {
			keep = append(keep, r)
		}
	}
	if len(keep) == 0 {
		return false
	}
	cfg := w.sc.Cfg
	cfg.Kind, cfg.Locks, cfg.CancelAt, cfg.Output, cfg.NoIDRoot, cfg.Form = 0, nil, 0, false, false, 0
	w.sc = &Scenario{Init: w.sc.Init, Cfg: cfg, Ops: a.Ops}
	w.init = cloneTables(w.store.tables)
	w.trace, w.changes, w.save, w.steps, w.mainRan, w.unlocks, w.eventMark = nil, nil, 0, 0, 0, 0, 0
	w.res, w.panicked, w.postRes, w.postPtr, w.issued = nil, nil, nil, nil, map[string]int{}
	w.store.begins = 0
	w.removed, w.detached, w.newDropped, w.allGone = nil, nil, nil, nil
	w.persisted, w.dirty = map[node]prevInfo{}, map[node]bool{}
	w.createKind, w.initOK = false, true
	w.roots, w.reused = keep, nil
	for _, n := range keep {
		w.remember(n)
		walkNodes(n, nil, func(x, _ node) { x.UnDirty() }) // whether a finished command does is left open
		w.reused = append(w.reused, n)
	}
	w.feat["again"]++
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	func() {
		defer func() { w.panicked = recover() }()
		w.res = w.eng.Run(ctx, ddd.MainFunc(w.mainFn), w.runOpts...)
	}()
	w.check()
	return true
}
