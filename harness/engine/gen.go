package engine

import (
	"verif/harness/kit"

	"pgregory.net/rapid"
)

type weight struct {
	k string
	n int
}

// profile steers the generator towards one property.
type profile struct {
	ops     []weight
	maxOps  int
	maxInit int
	hooky   int // percentage of entities with hook behaviour
	cfg     func(t *rapid.T, c *Cfg)
	again   int // percentage of scenarios with further commands on the same entities
	fault   int // percentage of scenarios with an injected fault
	kinds   []int
}

var defaultOps = []weight{{"load", 5}, {"get", 3}, {"add", 4}, {"remove", 2}, {"child", 5}, {"detach", 4}, {"move", 4}, {"bulk", 3}, {"edit", 5}, {"touch", 1}, {"evt", 2}, {"save", 3}, {"purge", 1}}

var genTree = rapid.Custom(func(t *rapid.T) Tree { return drawTree(t, 0, 40) })

func chance(t *rapid.T, pct int, name string) bool {
	return kit.Pct(t, pct, name)
}

func drawTree(t *rapid.T, depth, hooky int) Tree {
	tr := Tree{Kind: kit.Range(t, 0, nKinds-1, "kind"), Name: kit.Range(t, 0, 9, "name"), Slot: kit.Range(t, 0, 7, "slot")}
	if chance(t, 25, "hasid") {
		tr.ID = true
	}
	if chance(t, hooky, "hooky") {
		tr.Flags = kit.Range(t, 0, nFlagValues-1, "flags")
	}
	if tr.Kind == KC && chance(t, 30, "omit") {
		tr.Omit = true
	}
	if depth < 3 {
		max := 3 - depth
		if depth == 0 {
			max = 4
		}
		n := kit.Range(t, 0, max, "nkids")
		for i := 0; i < n; i++ {
			tr.Kids = append(tr.Kids, drawTree(t, depth+1, hooky))
		}
	}
	return tr
}

func (p profile) draw(t *rapid.T) Scenario {
	var s Scenario
	maxInit := p.maxInit
	if maxInit == 0 {
		maxInit = 3
	}
	for i, n := 0, kit.Range(t, 0, maxInit, "ninit"); i < n; i++ {
		s.Init = append(s.Init, drawTree(t, 0, p.hooky))
	}
	var bag []string
	for _, w := range p.ops {
		for i := 0; i < w.n; i++ {
			bag = append(bag, w.k)
		}
	}
	maxOps := p.maxOps
	if maxOps == 0 {
		maxOps = 12
	}
	genOp := rapid.Custom(func(t *rapid.T) Op {
		op := Op{K: bag[kit.Range(t, 0, len(bag)-1, "op")], A: kit.Range(t, 0, 15, "a"), B: kit.Range(t, 0, 15, "b"), C: kit.Range(t, 0, 15, "c")}
		if op.K == "add" && op.C == 7 && !chance(t, 25, "clash") {
			op.C = 6
		}
		if op.K == "add" && op.C == 15 {
			op.C = 14
		}
		if op.K == "add" || op.K == "child" {
			tr := drawTree(t, 1, p.hooky)
			op.T = &tr
		}
		return op
	})
	for i, n := 0, kit.Range(t, 0, 3, "preload"); i < n && i < len(s.Init); i++ {
		s.Ops = append(s.Ops, Op{K: "load", B: kit.N(t, 2, "pair")})
	}
	s.Ops = append(s.Ops, rapid.SliceOfN(genOp, 1, maxOps).Draw(t, "ops")...)
	c := &s.Cfg
	kinds := p.kinds
	if kinds == nil {
		kinds = []int{0, 0, 0, 1, 2, 3, 3, 4, 5}
	}
	c.Kind = kinds[kit.Range(t, 0, len(kinds)-1, "cmd")]
	c.Recursive = chance(t, 30, "recursive")
	c.NoTx = chance(t, 15, "notx")
	c.Bus = 2
	if chance(t, 30, "bus") {
		c.Bus = kit.Range(t, 0, 1, "busKind")
	}
	c.Persist = chance(t, 40, "persist")
	c.Wrap = chance(t, 20, "wrap")
	c.RunOpt = chance(t, 30, "runopt")
	c.Hooks = kit.Range(t, 0, 2, "hooks")
	c.Output = chance(t, 40, "output")
	if chance(t, 30, "form") {
		c.Form = kit.Range(t, 0, 3, "which form")
	}
	c.NoIDRoot = (c.Kind == 3 || c.Kind == 5) && chance(t, 4, "noid")
	c.FailSoft = chance(t, 15, "soft")
	if c.Kind >= 2 && c.Kind <= 5 {
		c.Locks = rapid.SliceOfNDistinct(rapid.IntRange(0, 5), 0, 4, rapid.ID[int]).Draw(t, "locks")
	}
	if p.cfg != nil {
		p.cfg(t, c)
	}
	if p.fault > 0 && chance(t, p.fault, "faulty") {
		s.Fault = Fault{At: kit.Range(t, 1, 60, "at"), Panic: chance(t, 25, "panic")}
	}
	if p.again > 0 && chance(t, p.again, "again") {
		for i, n := 0, kit.Range(t, 1, 2, "nagain"); i < n; i++ {
			s.Again = append(s.Again, Again{Keep: kit.Pick(t, []int{255, 255, 85, 170, 1}, "keep"), Ops: rapid.SliceOfN(genOp, 0, 5).Draw(t, "again ops")})
		}
	}
	return s
}
