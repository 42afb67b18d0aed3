package engine

import (
	"context"
	"fmt"
	"os"
	"strings"
	"testing"
	"testing/synctest"

	ddd "github.com/bytedance/dddfirework"
	"pgregory.net/rapid"

	"verif/harness/kit"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

// play interprets a scenario once and applies the oracles.
func play(s Scenario) *World {
	w := newWorld(&s)
	w.run()
	w.check()
	for _, a := range s.Again {
		if !w.rerun(a) {
			break
		}
	}
	return w
}

func outcome(w *World, tags ...string) kit.Outcome {
	var o kit.Outcome
	if f := w.failures(tags...); len(f) > 0 {
		o.Failf("%s", f[0])
		for _, m := range f[1:] {
			o.Fail += "\n  also " + m
		}
		o.Fail += "\ntrace:\n" + w.traceString()
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, o.Fail)
		}
	}
	for k, n := range w.feat {
		if n > 0 {
			o.Class("%s", k)
		}
	}
	switch {
	case w.panicked != nil:
		o.Class("run:panic")
	case w.res != nil && w.res.Error != nil:
		o.Class("run:error")
	case w.res != nil && w.res.Break:
		o.Class("run:break")
	default:
		o.Class("run:success")
	}
	if strings.HasPrefix(w.fired, "panic:") {
		o.Class("fault:panic")
	} else if w.fired != "" {
		o.Class("fault:%s", w.fired)
	}
	return o
}

func (w *World) succeeded() bool {
	return w.panicked == nil && w.res != nil && w.res.Error == nil && !w.res.Break
}

func ops(base []weight, more ...weight) []weight {
	res := append([]weight{}, base...)
	for _, m := range more {
		found := false
		for i := range res {
			if res[i].k == m.k {
				res[i].n = m.n
				found = true
			}
		}
		if !found {
			res = append(res, m)
		}
	}
	return res
}

var assume = []string{
	"executor, lock, ID generator and event bus are generated stand-ins in memory; the engine, repository, stage and entities are the real code",
	"entities are only changed through the documented ways (fields, Dirty, Add/Remove); one entity object belongs to one run",
}

// simple registers a property decided on single runs.
func simple(id string, quick, thorough int, p profile, rule string, nontrivial func(w *World) bool, tags ...string) {
	kit.Register(kit.Spec[Scenario]{
		ID: id, Quick: quick * 3, Thorough: thorough, Shards: 8, Rule: rule, Assumptions: assume,
		Gen: func(t *rapid.T) Scenario { return p.draw(t) },
		Run: func(t *testing.T, s Scenario) kit.Outcome {
			var w *World
			if s.Cfg.Frozen {
				synctest.Test(t, func(*testing.T) { w = play(s) })
			} else {
				w = play(s)
			}
			o := outcome(w, tags...)
			o.Nontrivial = nontrivial(w)
			return o
		},
	})
}

type multiOrSingle struct {
	Single *Scenario      `json:"single,omitempty"`
	Multi  *MultiScenario `json:"multi,omitempty"`
}

func runMulti(t *testing.T, s multiOrSingle, nontrivial func(w *World) bool, tags ...string) kit.Outcome {
	if s.Single != nil {
		w := play(*s.Single)
		o := outcome(w, tags...)
		o.Nontrivial = nontrivial(w)
		return o
	}
	var o kit.Outcome
	o.Class("multi:%d", len(s.Multi.Runs))
	o.Nontrivial = len(s.Multi.Runs) >= 2
	for _, b := range playMulti(t, *s.Multi) {
		for _, tag := range tags {
			if strings.HasPrefix(b, tag+":") {
				o.Failf("%s", b)
			}
		}
	}
	return o
}

func plainTx(t *rapid.T, c *Cfg) { c.NoTx, c.FailSoft = false, false }

// onlyEvents makes sure a missing bus does not turn runs into failures too often.
func noBusFailures(t *rapid.T, c *Cfg) {
	if c.Bus == 0 {
		c.Bus = 1
	}
}

func init() {
	all := ops(defaultOps, weight{"getmissing", 1}, weight{"badget", 1}, weight{"dup", 1}, weight{"misuse", 1}, weight{"fail", 1})
	simple("ALL", 4000, 0, profile{ops: all, maxOps: 14, hooky: 40, fault: 25, again: 30}, "every case", func(w *World) bool { return true })

	simple("C01", 40000, 1500000, profile{ops: ops(defaultOps, weight{"save", 1}, weight{"bulk", 4}, weight{"evt", 0}), maxOps: 14, hooky: 25, maxInit: 4, again: 30,
		kinds: []int{0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7}, cfg: noBusFailures},
		"the run succeeded and one save mixed at least two of insert, update and delete", func(w *World) bool { return w.succeeded() && w.mixed() }, "store", "write", "outcome")

	simple("C02", 40000, 1500000, profile{ops: ops(defaultOps, weight{"load", 5}, weight{"get", 5}, weight{"add", 5}, weight{"remove", 5}, weight{"save", 5}, weight{"misuse", 2}, weight{"getmissing", 1}, weight{"evt", 0}), maxOps: 18, hooky: 15, maxInit: 5, again: 30, cfg: noBusFailures},
		"at least two of load/get, add, remove and save took place, one of them after another change", func(w *World) bool { return w.interleaved() }, "store", "write", "outcome", "misuse", "atomic", "load")

	simple("C03", 40000, 1500000, profile{again: 15, ops: ops(defaultOps, weight{"move", 8}, weight{"bulk", 10}, weight{"remove", 3}, weight{"save", 2}, weight{"dup", 1}, weight{"evt", 0}, weight{"get", 1}), maxOps: 12, hooky: 20, maxInit: 5, cfg: noBusFailures},
		"an entity really changed its parent within a save, or a new one was attached twice", func(w *World) bool { return w.feat["moved"] > 0 || w.feat["dup"] > 0 }, "store", "write", "outcome", "atomic", "batch")

	simple("C04", 40000, 1200000, profile{again: 15, ops: ops(defaultOps, weight{"add", 8}, weight{"child", 8}, weight{"save", 3}, weight{"evt", 0}), maxOps: 12, hooky: 40, fault: 20, cfg: noBusFailures,
		kinds: []int{0, 0, 1, 2, 3, 3, 4, 5, 6}},
		"at least two entities were inserted", func(w *World) bool { return w.feat["inserted"] >= 2 }, "id", "store", "atomic", "outcome")

	simple("C05", 40000, 1500000, profile{again: 15, ops: ops(defaultOps, weight{"remove", 6}, weight{"detach", 8}, weight{"child", 5}, weight{"move", 5}, weight{"bulk", 4}, weight{"evt", 0}, weight{"save", 2}), maxOps: 10, hooky: 25, maxInit: 4,
		cfg: func(t *rapid.T, c *Cfg) { c.Recursive = !kit.Pct(t, 15, "flat"); noBusFailures(t, c) }},
		"an entity with children was deleted, or several in one save", func(w *World) bool { return w.feat["deleted"] >= 2 }, "store", "write", "outcome", "hook")

	simple("C06", 40000, 1500000, profile{again: 15, ops: ops(defaultOps, weight{"save", 4}), maxOps: 12, hooky: 90, fault: 30, maxInit: 3, cfg: noBusFailures},
		"at least one before-hook and one after-hook ran, or a hook failed", func(w *World) bool { return w.hooksRan() }, "hook", "store", "atomic", "outcome")

	simple("C10", 40000, 1500000, profile{ops: ops(defaultOps, weight{"evt", 10}, weight{"save", 4}, weight{"fail", 1}), maxOps: 14, hooky: 40, fault: 15, maxInit: 3,
		cfg: func(t *rapid.T, c *Cfg) { noBusFailures(t, c); c.Frozen = kit.Pct(t, 40, "frozen") }},
		"at least two events were raised", func(w *World) bool { return len(w.events) >= 2 }, "events", "outcome")

	simple("C11", 40000, 1500000, profile{ops: ops(defaultOps, weight{"evt", 12}, weight{"fail", 1}), maxOps: 10, hooky: 30, fault: 50, maxInit: 2},
		"a transactional event was raised", func(w *World) bool { return w.txEvents() }, "tx-events", "outcome", "events")

	simple("C12", 40000, 1200000, profile{ops: ops(defaultOps, weight{"evt", 4}, weight{"save", 4}, weight{"fail", 1}, weight{"misuse", 1}), maxOps: 12, hooky: 40, fault: 20,
		cfg: func(t *rapid.T, c *Cfg) { c.DryRun = true }, kinds: []int{0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7}},
		"the command had at least one change to make or an event to send", func(w *World) bool {
			return w.feat["inserted"]+w.feat["updated"]+w.feat["deleted"]+len(w.events) > 0
		}, "dry", "outcome", "id", "hook", "load", "atomic")

	simple("C16", 40000, 1500000, profile{again: 15, ops: ops(defaultOps, weight{"move", 6}, weight{"bulk", 5}, weight{"edit", 8}, weight{"save", 4}), maxOps: 14, hooky: 40, maxInit: 4, cfg: noBusFailures},
		"a save issued at least two batches", func(w *World) bool { return w.batches() >= 2 }, "batch", "result", "write")

	// C13: loading; each successful run is followed by a second one that reloads what is stored
	load := profile{ops: ops(defaultOps, weight{"get", 12}, weight{"load", 2}, weight{"save", 2}, weight{"getmissing", 1}, weight{"badget", 3}, weight{"misuse", 1}, weight{"evt", 0}), maxOps: 8, hooky: 20, maxInit: 5, cfg: noBusFailures}
	kit.Register(kit.Spec[Scenario]{
		ID: "C13", Shards: 8, Quick: 100000, Thorough: 1200000, Assumptions: assume, Rule: "at least one root was loaded together with children, in the run or in the reload after it",
		Gen: func(t *rapid.T) Scenario { return load.draw(t) },
		Run: func(t *testing.T, s Scenario) kit.Outcome {
			w := play(s)
			n := 0
			if w.succeeded() {
				n = w.reload()
			}
			o := outcome(w, "load", "outcome", "misuse")
			o.Nontrivial = n > 0 || w.feat["get-children"] > 0
			return o
		},
	})

	// C07: every fallible call of a run, one after another, fails or panics
	atomic := profile{ops: ops(all, weight{"save", 4}, weight{"evt", 5}), maxOps: 8, hooky: 50, maxInit: 2, cfg: plainTx}
	kit.Register(kit.Spec[Scenario]{
		ID: "C07", Level: "fault_enumeration", Shards: 8, Quick: 4500, Thorough: 60000, Assumptions: assume,
		Rule: "the fault-free run has at least five fallible calls; each of them is failed once with an error and once with a panic",
		Gen:  func(t *rapid.T) Scenario { return atomic.draw(t) },
		Run: func(t *testing.T, s Scenario) kit.Outcome {
			s.Fault = Fault{}
			base := play(s)
			o := outcome(base, "tx", "atomic", "outcome")
			o.Nontrivial = base.steps >= 5
			if o.Fail != "" {
				return o
			}
			for at := 1; at <= base.steps; at++ {
				for _, pan := range []bool{false, true} {
					sf := s
					sf.Fault = Fault{At: at, Panic: pan}
					w := play(sf)
					x := outcome(w, "tx", "atomic", "outcome")
					for _, c := range x.Classes {
						if strings.HasPrefix(c, "fault:") {
							o.Classes = append(o.Classes, c)
						}
					}
					if x.Fail != "" {
						o.Fail = fmt.Sprintf("with fault %+v: %s", sf.Fault, x.Fail)
						return o
					}
				}
			}
			return o
		},
	})

	// C08, C09: single runs and several overlapping ones
	lockP := profile{ops: ops(all, weight{"fail", 2}), maxOps: 5, hooky: 10, maxInit: 2, fault: 50, kinds: []int{2, 3, 4, 5},
		cfg: func(t *rapid.T, c *Cfg) {
			if kit.Pct(t, 10, "dupkeys") && len(c.Locks) > 0 {
				c.Locks = append(c.Locks, c.Locks[0])
			}
		}}
	kit.Register(kit.Spec[multiOrSingle]{
		ID: "C08", Shards: 8, Quick: 60000, Thorough: 800000, Assumptions: assume, Rule: "at least two keys, or at least two commands on one engine",
		Gen: func(t *rapid.T) multiOrSingle {
			if kit.Pct(t, 50, "multi") {
				m := genMulti(t, true)
				return multiOrSingle{Multi: &m}
			}
			s := lockP.draw(t)
			if kit.Pct(t, 25, "cancel") {
				s.Cfg.CancelAt = 1 + kit.N(t, 12, "cancel at")
			}
			return multiOrSingle{Single: &s}
		},
		Run: func(t *testing.T, s multiOrSingle) kit.Outcome {
			return runMulti(t, s, func(w *World) bool { return len(w.sc.Cfg.Locks) >= 2 }, "lock")
		},
	})
	resP := profile{ops: ops(all, weight{"fail", 4}, weight{"save", 3}), maxOps: 6, hooky: 20, maxInit: 2, fault: 40}
	kit.Register(kit.Spec[multiOrSingle]{
		ID: "C09", Shards: 8, Quick: 60000, Thorough: 800000, Assumptions: assume, Rule: "the run failed, broke off or has at least two callbacks, or there are at least two runs on one engine",
		Gen: func(t *rapid.T) multiOrSingle {
			if kit.Pct(t, 50, "multi") {
				m := genMulti(t, false)
				return multiOrSingle{Multi: &m}
			}
			s := resP.draw(t)
			return multiOrSingle{Single: &s}
		},
		Run: func(t *testing.T, s multiOrSingle) kit.Outcome {
			return runMulti(t, s, func(w *World) bool { return !w.succeeded() || len(w.postRes) >= 2 }, "outcome", "post")
		},
	})
}

func (w *World) mixed() bool {
	for _, ch := range w.changes {
		n := 0
		for _, m := range []map[node]bool{ch.inserted, ch.updated, ch.deleted} {
			if len(m) > 0 {
				n++
			}
		}
		if n >= 2 {
			return true
		}
	}
	return false
}

func (w *World) interleaved() bool {
	n := 0
	for _, k := range []string{"op:load", "op:get", "op:add", "op:remove", "op:save"} {
		if w.feat[k] > 0 {
			n++
		}
	}
	return n >= 3 && len(w.changes) > 0
}

func (w *World) hooksRan() bool {
	return strings.Contains(w.fired, "hook") || len(w.idx("hook")) >= 2
}

func (w *World) txEvents() bool {
	for _, e := range w.events {
		if e.sendType == ddd.SendTypeTransaction {
			return true
		}
	}
	return false
}

func (w *World) batches() int {
	n, best, save := 0, 0, -1
	for _, e := range w.trace {
		if e.K == "exec" {
			if e.Save != save {
				n, save = 0, e.Save
			}
			n++
			if n > best {
				best = n
			}
		}
	}
	return best
}

// reload loads every stored root of kind A and B with its list children in a fresh run
// of the same store, compares them and requires that saving writes nothing.
func (w *World) reload() int {
	sc := &Scenario{Cfg: Cfg{Bus: 1}}
	w2 := newWorld(sc)
	w2.store.tables = w.store.tables
	before := cloneTables(w.store.tables)
	children := 0
	e := ddd.NewEngine(&traceLock{w2}, w2.store, ddd.WithLogger(discard), ddd.WithIDGenerator(&seqIDs{w2}))
	res := e.Run(context.Background(), func(ctx context.Context, repo *ddd.Repository) error {
		for _, k := range []string{"A", "B"} {
			for id, row := range before[k] {
				var n node
				var kids []interface{}
				var tab string
				var got func() []node
				if k == "A" {
					a := &EA{}
					n, kids, tab, got = a, []interface{}{&a.List, &a.Leaves}, "B", func() []node { return a.slots()[1].list() }
				} else {
					b := &EB{}
					n, kids, tab, got = b, []interface{}{&b.Kids}, "C", func() []node { return b.slots()[0].list() }
				}
				n.SetID(id)
				if err := repo.Get(ctx, n, kids...); err != nil {
					return err
				}
				walkNodes(n, nil, func(x, p node) {
					if x.core().w == nil {
						w2.register(x, nil)
					}
				})
				if n.core().Name != row.Name || n.core().Num != row.Num {
					w.bug("load", "%s %s reloaded as %q/%d, stored %+v", k, id, n.core().Name, n.core().Num, row)
				}
				want := map[string]Row{}
				for cid, r := range before[tab] {
					if r.Parent == id {
						want[cid] = r
					}
				}
				for _, c := range got() {
					children++
					r, ok := want[c.GetID()]
					if !ok || c.core().Name != r.Name || c.core().Num != r.Num {
						w.bug("load", "child %s of %s %s reloaded as %q/%d, stored %+v", c.GetID(), k, id, c.core().Name, c.core().Num, r)
					}
					delete(want, c.GetID())
				}
				if len(want) > 0 {
					w.bug("load", "children of %s %s not reloaded: %v", k, id, want)
				}
			}
		}
		return nil
	})
	if res.Error != nil {
		w.bug("load", "reloading what was stored fails: %v", res.Error)
	}
	if len(w2.idx("exec")) > 0 || len(res.Actions) > 0 {
		w.bug("load", "loading and saving without edits wrote something: %s", w2.traceString())
	}
	if d := diffTables(w2.store.tables, before); d != "" {
		w.bug("load", "loading and saving without edits changed the store: %s", d)
	}
	return children
}
