package dbbus

import (
	"fmt"
	"sort"
	"strings"
	"time"

	ddd "github.com/bytedance/dddfirework"

	"verif/harness/kit"
)

// sent tells whether the events of a send have to be delivered: yes, no, or unknown (its reply was lost).
func (w *world) sent(s *send) (yes, unknown bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if s.s.TX != nil {
		return s.decided && s.commit && s.ended && s.err == nil, false
	}
	if s.ended && s.err == nil {
		return true, false
	}
	if s.ended && s.actor != nil && !w.lost[s.actor.ID] {
		return false, false // failed for sure
	}
	return false, s.began
}

const (
	canSucceed = 1 << iota
	canFail
	canBlock
)

// outcomes are the possible final states of an event at a service.
func (w *world) outcomes(l []*event, svc int) map[*event]int {
	res := map[*event]int{}
	waits := w.s.Svcs[svc].plan()
	for k, e := range l {
		plan := canSucceed
		if e.fails(svc) > len(waits) {
			plan = canFail
		}
		must, may := false, false
		if e.ev.Type > 0 && e.ev.Sender > 0 {
			for _, p := range l[:k] {
				if p.ev.Sender != e.ev.Sender {
					continue
				}
				r := res[p]
				bad := r &^ canSucceed
				if e.ev.Type == 2 {
					bad = r & canBlock
				}
				if bad == 0 {
					continue
				}
				may = true
				if p.ev.Type > 0 && bad == r {
					must = true
				}
			}
		}
		switch {
		case must:
			res[e] = canBlock
		case may:
			res[e] = canBlock | plan
		default:
			res[e] = plan
		}
	}
	return res
}

func names(o int) string {
	var l []string
	for k, n := range []string{"handled successfully", "given up", "held back"} {
		if o>>k&1 == 1 {
			l = append(l, n)
		}
	}
	return strings.Join(l, " or ")
}

// open lists what is still to happen.
func (w *world) open() (l []string) {
	evs, sn := w.sorted(), w.snap()
	for svc, v := range w.s.Svcs {
		if v.Mute {
			continue
		}
		out := w.outcomes(evs, svc)
		for _, e := range evs {
			yes, _ := w.sent(e.send)
			if w.prop == "C21" && !yes {
				yes = sn.rows[e.id] > 0
			}
			if !yes || !w.knew(e.send, svc) {
				continue
			}
			st := sn.of(svc, e.id)
			if w.prop == "C25" && st == -1 && w.oks(e, svc) > 0 {
				if sn.records[e.id] == 0 && sn.rows[e.id] > 0 {
					l = append(l, fmt.Sprintf("event %s is to be removed, no service has a record of it", e.id))
				}
				continue
			}
			want := map[int]int{canSucceed: stSuccess, canFail: stFailed}[out[e]]
			if out[e]&canBlock != 0 {
				continue
			}
			if st != want {
				l = append(l, fmt.Sprintf("%s at %s is to be %s (status %d, %d attempts)", e.id, svcName(svc), names(out[e]), st, w.attempts(e, svc)))
				continue
			}
			if w.prop == "C25" && v.Clean > 0 && st == stSuccess && time.Now().Add(20*time.Second).After(e.copied.CreatedAt.Add(ms(v.Retention))) {
				l = append(l, fmt.Sprintf("the record of %s at %s is to be removed, retention is %v, its age %v", e.id, svcName(svc), ms(v.Retention), time.Since(e.copied.CreatedAt)))
			}
		}
	}
	if w.prop == "C24" {
		if n, hi := w.rows("ddd_event_transaction"), w.undecidable(false); n > hi {
			l = append(l, fmt.Sprintf("%d transactions are to be decided", n-hi))
		}
	}
	return l
}

func (w *world) rows(table string) (n int) {
	if err := w.st.DB.QueryRow("SELECT count(*) FROM " + table).Scan(&n); err != nil {
		kit.Harness("%s: %v", table, err)
	}
	return n
}

// records counts the services' records of an event (by the event's own row, which must exist).
func (w *world) records(id string) (n int) {
	if err := w.st.DB.QueryRow("SELECT count(*) FROM ddd_domain_service_event WHERE event_id IN (SELECT id FROM ddd_domain_event WHERE event_id=?)", id).Scan(&n); err != nil {
		kit.Harness("records: %v", err)
	}
	return n
}

func (w *world) settled() bool { return len(w.open()) == 0 }

func (w *world) finish(done bool) {
	if !done {
		w.failf("not everything happened within %v: %s", w.deadline(), strings.Join(w.open(), "; "))
		return
	}
	faulty := w.crashes > 0 || w.sim.Faults > 0
	evs := w.sorted()
	for _, s := range w.sends {
		w.mu.Lock()
		err, ended, tx := s.err, s.ended, s.s.TX != nil
		w.mu.Unlock()
		if ended && err != nil && !faulty && !s.tooBig() {
			w.failf("send %d (transactional %v) fails: %v", s.idx, tx, err)
		}
		if tx && s.reported && s.reportErr != nil && !faulty {
			w.failf("reporting transaction %d fails: %v", s.idx, s.reportErr)
		}
		yes, unknown := w.sent(s)
		if w.prop == "C21" || w.prop == "C20" {
			w.atomic(s, yes, unknown)
		}
	}
	for svc, v := range w.s.Svcs {
		out := w.outcomes(evs, svc)
		waits := v.plan()
		for _, e := range evs {
			yes, unknown := w.sent(e.send)
			n, oks := w.attempts(e, svc), w.oks(e, svc)
			if v.Mute && n > 0 {
				w.failf("%s is handled by %s, which does not run", e.id, svcName(svc))
			}
			if v.Mute {
				continue
			}
			if !yes && !unknown && n > 0 {
				w.failf("%s handles %s, which was not sent successfully", svcName(svc), e.id)
			}
			if !yes {
				continue
			}
			if !w.knew(e.send, svc) {
				if oks > 1 && !faulty {
					w.failf("%s handles %s successfully %d times", svcName(svc), e.id, oks)
				}
				continue
			}
			if oks > 1 && !faulty {
				w.failf("%s handles %s successfully %d times", svcName(svc), e.id, oks)
			}
			if faulty {
				if oks == 0 && out[e] == canSucceed {
					w.failf("%s never handles %s", svcName(svc), e.id)
				}
				continue
			}
			want := -1
			switch out[e] {
			case canSucceed:
				want = e.fails(svc) + 1
			case canFail:
				want = len(waits) + 1
			case canBlock:
				want = 0
			}
			if want >= 0 && n != want {
				w.failf("%s handles %s %d times, wanted is %d (%s)", svcName(svc), e.id, n, want, names(out[e]))
			}
		}
	}
	if w.prop == "C24" {
		if n, lo := w.rows("ddd_event_transaction"), w.undecidable(true); n < lo {
			w.failf("%d transactions are kept, %d are still unknown to the checker", n, lo)
		}
		for _, e := range evs {
			n := w.count(e.id)
			yes, _ := w.sent(e.send)
			if n > 1 {
				w.failf("%s is stored %d times", e.id, n)
			}
			if e.send.s.TX != nil && !yes && n > 0 {
				w.failf("%s is stored although its transaction was not committed", e.id)
			}
		}
	}
}

// knew tells whether a service was known for sure when a send began.
func (w *world) knew(s *send, svc int) bool {
	if w.s.Svcs[svc].Late == 0 {
		return true
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	at, in := w.joined[svc]
	return in && s.begin > at
}

// undecidable counts the transactions that nobody knows the outcome of: those that were begun for sure, or all.
func (w *world) undecidable(sure bool) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.sends {
		if s.s.TX != nil && s.s.TX.Never && s.began && (!sure || s.ended && s.err == nil) {
			n++
		}
	}
	return n
}

// tooBig tells whether an event of the send does not fit into its column.
func (s *send) tooBig() bool {
	for _, e := range s.s.Evs {
		if e.Payload > 40000 {
			return true
		}
	}
	return false
}

// atomic checks that a dispatch stored all of its events for all services, or none.
func (w *world) atomic(s *send, yes, unknown bool) {
	if s.s.TX != nil {
		return
	}
	events, records := 0, 0
	for _, e := range s.evs {
		n := w.count(e.id)
		if n > 1 {
			w.failf("%s is stored %d times", e.id, n)
		}
		events += n
		records += w.records(e.id)
	}
	svcs, sure := len(w.s.Svcs), 0
	for k := range w.s.Svcs {
		if w.knew(s, k) {
			sure++
		}
	}
	if k := records / max(1, len(s.evs)); k >= sure && k < svcs {
		svcs = k
	}
	all := events == len(s.evs) && records == len(s.evs)*svcs
	none := events == 0 && records == 0
	what := fmt.Sprintf("%d of %d events and %d of %d records of send %d are stored", events, len(s.evs), records, len(s.evs)*svcs, s.idx)
	switch {
	case !all && !none:
		w.failf("%s", what)
	case yes && !all:
		w.failf("%s although it succeeded", what)
	case !yes && !unknown && !none:
		w.failf("%s although it failed: %v", what, s.err)
	}
}

// sample checks what the cleaning has removed so far.
func (w *world) sample() {
	w.mu.Lock()
	var sends []*send
	for _, s := range w.sends {
		if s.ended && s.err == nil {
			sends = append(sends, s)
		}
	}
	w.mu.Unlock()
	sn := w.snap()
	for _, s := range sends {
		for _, e := range s.evs {
			has := sn.rows[e.id] > 0
			if !has && e.row > 0 {
				var n int
				if err := w.st.DB.QueryRow("SELECT count(*) FROM ddd_domain_service_event WHERE event_id=?", e.row).Scan(&n); err != nil {
					kit.Harness("%v", err)
				}
				if n > 0 {
					w.failf("event %s is removed although %d services have a record of it", e.id, n)
				}
			}
			if has && e.row == 0 {
				if err := w.st.DB.QueryRow("SELECT id FROM ddd_domain_event WHERE event_id=?", e.id).Scan(&e.row); err != nil {
					e.row = 0
				}
			}
			for svc, v := range w.s.Svcs {
				if has && sn.of(svc, e.id) != -1 {
					continue
				}
				age := time.Since(e.copied.CreatedAt)
				why := ""
				switch {
				case v.Clean == 0:
					why = "the service never cleans"
				case w.oks(e, svc) == 0:
					why = "it has not succeeded"
				case age <= ms(v.Retention):
					why = fmt.Sprintf("it is %v old and kept for %v", age, ms(v.Retention))
				}
				if why != "" {
					w.failf("the record of %s at %s is gone although %s", e.id, svcName(svc), why)
				}
			}
		}
	}
}

func (w *world) stats() {
	o := w.o
	evs := w.sorted()
	multi, again, ordered, blockedN, commits, rolls, asked, removed := false, 0, 0, 0, 0, 0, 0, 0
	for _, v := range w.s.Svcs {
		multi = multi || len(v.Inst) > 1 && !v.Mute
	}
	for svc := range w.s.Svcs {
		for _, e := range evs {
			if len(e.att[svc]) > 1 {
				again++
			}
			if e.ev.Type > 0 && e.ev.Sender > 0 && len(e.att[svc]) > 0 {
				ordered++
			}
			if e.ev.Type > 0 && e.ev.Sender > 0 && len(e.att[svc]) == 0 {
				blockedN++
			}
		}
	}
	for _, s := range w.sends {
		if s.s.TX != nil {
			if s.commit {
				commits++
			} else {
				rolls++
			}
			for _, a := range s.asks {
				o.Class("answer-%s", map[ddd.TXStatus]string{ddd.TXCommit: "commit", ddd.TXRollBack: "rollback"}[a.answer])
				asked++
			}
		}
	}
	if w.sim.NoWaits > 0 {
		o.Class("row-lock-conflict")
	}
	if w.sim.Waits > 0 {
		o.Class("lock-wait")
	}
	if multi {
		o.Class("several-instances")
	}
	if w.crashes > 0 {
		o.Class("killed")
	}
	if w.sim.Faults > 0 {
		o.Class("faults")
	}
	var whys []string
	for _, s := range w.sends {
		if s.ended && s.err != nil {
			whys = append(whys, "send-failed")
		}
		if s.began && !s.ended {
			whys = append(whys, "died-sending")
		}
	}
	sort.Strings(whys)
	for k, x := range whys {
		if k == 0 || whys[k-1] != x {
			o.Class("%s", x)
		}
	}
	for _, e := range evs {
		if w.count(e.id) == 0 {
			removed++
		}
	}
	switch w.prop {
	case "C20":
		o.Nontrivial = multi && len(evs) > 1 && (w.sim.NoWaits > 0 || w.sim.Waits > 0)
	case "C21":
		o.Nontrivial = w.crashes > 0 || w.sim.Faults > 0
	case "C22":
		o.Nontrivial = again > 0
	case "C23":
		o.Nontrivial = ordered > 1
		if blockedN > 0 {
			o.Class("held-back")
		}
	case "C24":
		o.Nontrivial = commits+rolls > 0
		if asked > 0 {
			o.Class("checker-asked")
		}
	case "C25":
		o.Nontrivial = removed > 0
		if removed > 0 && removed < len(evs) {
			o.Class("some-removed")
		}
		if removed > 10 {
			o.Class("more-than-a-batch-removed")
		}
	}
}
