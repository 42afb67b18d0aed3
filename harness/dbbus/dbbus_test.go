package dbbus

import (
	"testing"

	"pgregory.net/rapid"

	"verif/harness/kit"
	"verif/harness/simdb"
)

func TestMain(m *testing.M)     { kit.Main(m) }
func TestProperty(t *testing.T) { kit.TestProperty(t) }

var assume = []string{"SQLite with row locks emulated stands in for MySQL; a transaction reads committed data until it first writes, then writes exclusively",
	"time is simulated (testing/synctest); clocks of the instances agree", "events are not older than the 24 hours the bus looks back"}

func genSvc(t *rapid.T, maxInst int) Svc {
	v := Svc{Run: kit.Pick(t, []int{100, 20, 50, 300, 1000}, "run"), Limit: kit.Pick(t, []int{100, 1, 2, 3, 5}, "limit"), Conc: kit.Pick(t, []int{1, 2, 4}, "conc"),
		Retry: kit.N(t, 5, "retry"), Interval: kit.Pick(t, []int{10, 1, 100, 500, 3000}, "interval"), RetryLimit: kit.N(t, 4, "limit") - 1}
	n := kit.Range(t, 1, maxInst, "instances")
	for i := 0; i < n; i++ {
		at := 0
		if kit.Pct(t, 60, "offset") {
			at = kit.N(t, 200, "at")
		}
		v.Inst = append(v.Inst, at)
	}
	if v.Retry == 3 && v.Run < 300 {
		v.Run = 300 // its waits are long
	}
	if v.Retry == 1 {
		v.Custom = kit.List(t, 1, 4, "custom", func(t *rapid.T) int { return kit.Pick(t, []int{0, 1, 10, 50, 200, 2000}, "wait") })
	}
	return v
}

func genLat(t *rapid.T) []int {
	return kit.List(t, 0, 8, "latency", func(t *rapid.T) int { return kit.Pick(t, []int{0, 100, 1000, 5000, 20000}, "us") })
}

type genOpts struct {
	senders, types  bool
	fails, big, dur bool
	age             bool
	svcs            int
}

func genEv(t *rapid.T, g genOpts) Ev {
	e := Ev{}
	if g.senders {
		e.Sender = kit.N(t, len(senderNames), "sender")
		if g.types {
			e.Type = kit.Pick(t, []int{1, 2, 1, 2, 0}, "type")
			if e.Sender == 0 {
				e.Type = 0
			}
		}
	}
	if kit.Pct(t, 30, "payload") {
		e.Payload = kit.N(t, 300, "bytes")
	}
	if g.big && kit.Pct(t, 6, "big") {
		e.Payload = kit.Pick(t, []int{60000, 30000}, "bytes")
	}
	if g.age {
		e.Age = kit.Pick(t, []int{0, 500, 1500, 5000, 60000, 3600000}, "age")
	}
	if g.dur && kit.Pct(t, 40, "slow") {
		e.Dur = kit.Pick(t, []int{1, 10, 50, 150, 400}, "ms")
	}
	if g.fails && kit.Pct(t, 40, "fails") {
		e.Fails = kit.List(t, 1, g.svcs, "fails", func(t *rapid.T) int { return kit.Pick(t, []int{0, 1, 2, 3, 9}, "n") })
		e.How = kit.N(t, 2*len(failTexts), "how")
	}
	return e
}

func genSends(t *rapid.T, lo, hi, evHi int, g genOpts) []Send {
	at := 0
	return kit.List(t, lo, hi, "sends", func(t *rapid.T) Send {
		if kit.Pct(t, 60, "pause") {
			at += kit.Pick(t, []int{1, 20, 100, 350}, "ms")
		}
		return Send{At: at, From: kit.N(t, 6, "from"), Hook: kit.Pct(t, 25, "hook"), Wait: kit.Pct(t, 30, "wait"),
			Evs: kit.List(t, 1, evHi, "events", func(t *rapid.T) Ev { return genEv(t, g) })}
	})
}

func genSvcs(t *rapid.T, hi, inst int) (l []Svc) {
	n := kit.Range(t, 1, hi, "services")
	for i := 0; i < n; i++ {
		l = append(l, genSvc(t, inst))
	}
	return l
}

// within keeps the failures of each event within the retries of each service.
func within(s *Scenario) {
	for i := range s.Sends {
		for j := range s.Sends[i].Evs {
			e := &s.Sends[i].Evs[j]
			for k := range e.Fails {
				if k < len(s.Svcs) {
					e.Fails[k] = min(e.Fails[k], len(s.Svcs[k].plan()))
				}
			}
		}
	}
}

func genC20(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 3, 3), Lat: genLat(t)}
	s.Sends = genSends(t, 1, 8, 5, genOpts{senders: true, fails: true, dur: true, svcs: len(s.Svcs)})
	if len(s.Svcs) > 1 && kit.Pct(t, 15, "mute") {
		s.Svcs[len(s.Svcs)-1].Mute = true
	}
	if n := len(s.Svcs); n > 1 && !s.Svcs[n-1].Mute && kit.Pct(t, 20, "late") {
		s.Svcs[n-1].Late = kit.Pick(t, []int{50, 200, 500}, "joins at")
	}
	if kit.Pct(t, 25, "outage") {
		s.InitFail = kit.List(t, 1, 3, "instances", func(t *rapid.T) int { return kit.N(t, 5, "which") })
	}
	within(&s)
	return s
}

func genC21(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 2, 2), Lat: genLat(t)}
	s.Sends = genSends(t, 1, 6, 4, genOpts{senders: true, dur: true, big: true, svcs: len(s.Svcs)})
	if kit.Pct(t, 60, "kills") {
		s.Kills = kit.List(t, 1, 3, "kills", func(t *rapid.T) Kill {
			k := Kill{Inst: kit.N(t, 4, "inst"), At: kit.N(t, 1500, "at")}
			if kit.Pct(t, 50, "restart") {
				k.Restart = 1 + kit.N(t, 500, "after")
			}
			return k
		})
	}
	if len(s.Kills) == 0 || kit.Pct(t, 50, "faults") {
		s.Faults = kit.List(t, 1, 4, "faults", func(t *rapid.T) FaultAt {
			return FaultAt{Inst: kit.N(t, 4, "inst"), Op: kit.N(t, len(faultOps), "op"), Nth: kit.N(t, 12, "nth"), Kind: 1 + kit.N(t, 4, "kind")}
		})
	}
	return s
}

func genC22(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 2, 2), Lat: genLat(t)}
	s.Sends = genSends(t, 1, 4, 3, genOpts{fails: true, dur: true, svcs: len(s.Svcs)})
	return s
}

func genC23(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 2, 3), Lat: genLat(t)}
	s.Sends = genSends(t, 2, 10, 3, genOpts{senders: true, types: true, fails: true, dur: true, svcs: len(s.Svcs)})
	// a minority of permanent failures
	for i := range s.Sends {
		for j := range s.Sends[i].Evs {
			if e := &s.Sends[i].Evs[j]; len(e.Fails) > 0 && !kit.Pct(t, 25, "for good") {
				for k := range e.Fails {
					if k < len(s.Svcs) {
						e.Fails[k] = min(e.Fails[k], len(s.Svcs[k].plan()))
					}
				}
			}
		}
	}
	return s
}

func genC24(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 2, 3), Lat: genLat(t)}
	for i := range s.Svcs {
		s.Svcs[i].TXTimeout = kit.Pick(t, []int{200, 50, 1000, 3000}, "timeout")
	}
	s.Sends = genSends(t, 1, 6, 3, genOpts{senders: true, dur: true, svcs: len(s.Svcs)})
	for i := range s.Sends {
		if kit.Pct(t, 15, "plain") {
			continue
		}
		to := 3000
		if kit.Pct(t, 75, "near") {
			to = 400
		}
		s.Sends[i].TX = &TX{Commit: !kit.Pct(t, 40, "rollback"), Decide: kit.N(t, to, "decide"), Silent: kit.Pct(t, 30, "silent"), Report: kit.N(t, to, "report"),
			Unknown: kit.Pick(t, []int{0, 0, 1, 3}, "unknown"), Panic: kit.Pct(t, 25, "panic"), AskDur: kit.Pick(t, []int{0, 0, 10, 200}, "askdur"), Again: kit.Pick(t, []int{0, 0, 0, 1, 2}, "again")}
		if kit.Pct(t, 8, "never") {
			x := s.Sends[i].TX
			x.Never, x.Silent, x.AskDur = true, true, 0
		}
	}
	if kit.Pct(t, 35, "kills") {
		s.Kills = kit.List(t, 1, 3, "kills", func(t *rapid.T) Kill {
			k := Kill{Inst: kit.N(t, 4, "inst"), At: kit.N(t, 1500, "at")}
			if kit.Pct(t, 50, "restart") {
				k.Restart = 1 + kit.N(t, 500, "after")
			}
			return k
		})
	}
	if kit.Pct(t, 35, "faults") {
		s.Faults = kit.List(t, 1, 3, "faults", func(t *rapid.T) FaultAt {
			return FaultAt{Inst: kit.N(t, 4, "inst"), Op: kit.N(t, len(faultOps), "op"), Nth: kit.N(t, 12, "nth"), Kind: 1 + kit.N(t, 4, "kind")}
		})
	}
	return s
}

func genC25(t *rapid.T) Scenario {
	s := Scenario{Svcs: genSvcs(t, 3, 2), Lat: genLat(t)}
	for i := range s.Svcs {
		v := &s.Svcs[i]
		if kit.Pct(t, 75, "cleans") {
			v.Clean = kit.Pick(t, []int{1, 2, 5}, "every")
			v.Retention = kit.Pick(t, []int{2000, 0, 500, 4000, 3000000, 30000}, "retention")
		}
		if i > 0 && kit.Pct(t, 15, "mute") {
			v.Mute, v.Clean = true, 0
		}
		if v.Limit < 5 {
			v.Limit = 10
		}
		v.Run = max(v.Run, 300) // much time passes
	}
	hi := 4
	if kit.Pct(t, 50, "many") {
		hi = 14
	}
	s.Sends = genSends(t, 1, 4, hi, genOpts{fails: true, age: true, svcs: len(s.Svcs)})
	return s
}

func init() {
	run := func(id string) func(t *testing.T, s Scenario) kit.Outcome {
		return func(t *testing.T, s Scenario) kit.Outcome { return simulate(t, id, s) }
	}
	spec := func(id string, quick, thorough int, rule string, gen func(t *rapid.T) Scenario) {
		kit.Register(kit.Spec[Scenario]{ID: id, Quick: quick, Thorough: thorough, Shards: 8, Rule: rule, Assumptions: assume, Gen: gen, Run: run(id)})
	}
	spec("C20", 1500, 40000, "a service with several instances, several events, and two processes met at a lock", genC20)
	spec("C21", 4000, 40000, "a process died or a database step failed", genC21)
	spec("C22", 3000, 40000, "some event was retried", genC22)
	spec("C23", 1500, 40000, "several ordered events were handled", genC23)
	spec("C24", 4000, 40000, "some bus transaction was begun", genC24)
	spec("C25", 1600, 40000, "some event was removed", genC25)
	_ = simdb.None
}
