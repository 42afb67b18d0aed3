package engine

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	ddd "github.com/bytedance/dddfirework"
)

// verdict is what the oracles expect of the run.
type verdict struct {
	panics bool
	err    bool
	brk    bool
	any    bool // both success and failure are acceptable
	cause  string
}

func (w *World) expected() verdict {
	switch {
	case strings.HasPrefix(w.fired, "panic:"):
		return verdict{panics: true, cause: strings.TrimPrefix(w.fired, "panic:")}
	case w.fired != "":
		return verdict{err: true, cause: errFault.Error()}
	case w.dupKeys():
		return verdict{err: true}
	case w.endReq == "noid":
		return verdict{err: true}
	case w.endReq == "panic":
		return verdict{panics: true, cause: "program panic"}
	case w.endReq == "break":
		return verdict{brk: true}
	case w.endReq == "error":
		return verdict{err: true, cause: errMain.Error()}
	case w.misuse, w.dup:
		return verdict{err: true}
	case w.conflict:
		return verdict{err: true, cause: "duplicate key"}
	}
	if w.sc.Cfg.Bus == 0 && !w.sc.Cfg.DryRun && len(w.events) > 0 {
		for _, e := range w.events {
			if e.required {
				return verdict{err: true, cause: ddd.ErrNoEventBusFound.Error()}
			}
		}
		return verdict{any: true}
	}
	return verdict{}
}

func (w *World) locks() bool {
	return w.sc.Cfg.Kind >= 2 && w.sc.Cfg.Kind <= 5 && w.hasInit()
}

func (w *World) dupKeys() bool {
	if !w.locks() {
		return false
	}
	seen := map[int]bool{}
	for _, k := range w.sc.Cfg.Locks {
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

func showTables(t map[string]map[string]Row) string {
	var out []string
	for k, m := range t {
		if k == "E" {
			continue
		}
		for _, r := range m {
			out = append(out, fmt.Sprintf("%s%+v", k, r))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func diffTables(got, want map[string]map[string]Row) string {
	var out []string
	for _, k := range []string{"A", "B", "C", "D"} {
		for id, r := range got[k] {
			if wr, ok := want[k][id]; !ok {
				out = append(out, fmt.Sprintf("unexpected row %s %+v", k, r))
			} else if wr != r {
				out = append(out, fmt.Sprintf("row %s is %+v, should be %+v", k, r, wr))
			}
		}
		for id, r := range want[k] {
			if _, ok := got[k][id]; !ok {
				out = append(out, fmt.Sprintf("missing row %s %+v", k, r))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (w *World) idx(k string) []int {
	var r []int
	for i, e := range w.trace {
		if e.K == k {
			r = append(r, i)
		}
	}
	return r
}

// check applies every oracle to the finished run.
func (w *World) check() {
	w.markRequired()
	v := w.expected()
	success := false
	switch {
	case w.panicked != nil:
		if !v.panics {
			w.bug("outcome", "unexpected panic: %v", w.panicked)
		} else if !strings.Contains(fmt.Sprint(w.panicked), v.cause) {
			w.bug("outcome", "the panic passed on is %v, not the original one (%s)", w.panicked, v.cause)
		}
	case v.panics:
		w.bug("outcome", "the panic was swallowed; result %+v", w.res)
	case w.res == nil:
		w.bug("outcome", "no result")
	case v.brk:
		if w.res.Error != nil || !w.res.Break {
			w.bug("outcome", "a break request gives error %v break %v", w.res.Error, w.res.Break)
		}
	case w.res.Error != nil:
		if !v.err && !v.any {
			w.bug("outcome", "unexpected error %v", w.res.Error)
		} else if v.cause != "" && !strings.Contains(w.res.Error.Error(), v.cause) {
			w.bug("outcome", "the error %q does not tell the cause %q", w.res.Error, v.cause)
		} else if w.endReq == "error" && w.fired == "" && !w.dupKeys() && !errors.Is(w.res.Error, errMain) {
			w.bug("outcome", "the error %v does not wrap the one the command returned", w.res.Error)
		}
		if w.res.Break {
			w.bug("outcome", "a failed run is flagged as a break")
		}
	default:
		if v.err {
			w.bug("outcome", "reported as a success although it failed: %s", w.why())
		}
		if w.res.Break {
			w.bug("outcome", "a successful run is flagged as a break")
		}
		success = true
	}
	if len(w.errs) > 0 && strings.HasPrefix(w.errs[len(w.errs)-1], "outcome") && !success && !v.err && !v.brk && !v.panics {
		return // everything else would follow from it
	}
	if success && v.err {
		// still check that nothing was half done
		w.checkTx(false, v, true)
		return
	}
	if success && w.mainRan > 0 || success && w.createKind {
		w.commitShadow()
	}
	w.checkStore(success)
	w.checkTx(success, v, false)
	w.checkLocks()
	w.checkSaves(success)
	w.checkEventsOut(success, v)
	w.checkPost(success, v)
}

func (w *World) why() string {
	if w.fired != "" {
		return w.fired
	}
	return fmt.Sprintf("end=%s misuse=%v dup=%v conflict=%v dupkeys=%v", w.endReq, w.misuse, w.dup, w.conflict, w.dupKeys())
}

func (w *World) checkStore(success bool) {
	tx := !w.sc.Cfg.NoTx
	if success {
		if d := diffTables(w.store.tables, w.exp); d != "" {
			w.bug("store", "after a successful run: %s", d)
		}
	} else if tx {
		if d := diffTables(w.store.tables, w.init); d != "" {
			w.bug("atomic", "a failed run (%s) left: %s", w.why(), d)
		}
		if len(w.store.tables["E"]) > 0 {
			w.bug("atomic", "a failed run left event records")
		}
	}
	if w.sc.Cfg.DryRun {
		for _, e := range w.trace {
			if e.K == "exec" {
				w.bug("dry", "dry run issued op %d on %s", e.Op, e.Tab)
			}
			if e.K == "dispatch" || e.K == "txbegin" || e.K == "txcommit" || e.K == "txrollback" {
				w.bug("dry", "dry run called the bus: %s", e.K)
			}
		}
		if d := diffTables(w.store.tables, w.init); d != "" {
			w.bug("dry", "dry run changed the store: %s", d)
		}
	}
}

func (w *World) checkTx(success bool, v verdict, wrongSuccess bool) {
	begins, commits, rolls := w.idx("begin"), w.idx("commit"), w.idx("rollback")
	if w.sc.Cfg.NoTx {
		if len(begins)+len(commits)+len(rolls) > 0 {
			w.bug("tx", "transaction used although off")
		}
		return
	}
	if len(begins) > 1 {
		w.bug("tx", "%d transactions begun", len(begins))
		return
	}
	if len(begins) == 0 {
		if w.mainRan > 0 || len(w.idx("exec")) > 0 {
			w.bug("tx", "the command ran without a transaction")
		}
		if len(commits)+len(rolls) > 0 {
			w.bug("tx", "transaction ended that was not begun")
		}
		return
	}
	if wrongSuccess {
		return
	}
	commitErr := len(commits) == 1 && w.trace[commits[0]].Err
	switch {
	case success:
		if len(commits) != 1 || len(rolls) != 0 {
			w.bug("tx", "a successful run made %d commits and %d rollbacks", len(commits), len(rolls))
		}
	case commitErr:
		if len(commits) != 1 || len(rolls) > 1 {
			w.bug("tx", "after a failed commit: %d commits, %d rollbacks", len(commits), len(rolls))
		}
	default:
		if len(commits) != 0 || len(rolls) != 1 {
			w.bug("tx", "a failed run (%s) made %d commits and %d rollbacks", w.why(), len(commits), len(rolls))
		}
	}
	end := len(w.trace)
	if len(commits) > 0 {
		end = commits[0]
	} else if len(rolls) > 0 {
		end = rolls[0]
	}
	for i, e := range w.trace {
		if e.K == "exec" && (i < begins[0] || i > end) {
			w.bug("tx", "statement outside begin..end")
		}
		if e.K == "main" && i < begins[0] {
			w.bug("tx", "command logic ran before the transaction began")
		}
	}
}

func (w *World) checkLocks() {
	locks, unlocks := w.idx("lock"), w.idx("unlock")
	if !w.locks() {
		if len(locks) > 0 {
			w.bug("lock", "a lock was taken that nobody declared")
		}
		return
	}
	held := map[string]int{}
	for _, i := range locks {
		held[w.trace[i].Name]++
		if held[w.trace[i].Name] > 1 {
			w.bug("lock", "key %s locked twice", w.trace[i].Name)
		}
	}
	for _, i := range unlocks {
		held[w.trace[i].Name]--
	}
	for k, n := range held {
		if n != 0 {
			w.bug("lock", "key %s: released %d times too few", k, n)
		}
	}
	first, last := len(w.trace), -1 // of the protected part
	for i, e := range w.trace {
		switch e.K {
		case "begin", "main", "exec", "commit", "rollback", "hook", "dispatch", "txbegin":
			if i < first {
				first = i
			}
			last = i
		}
	}
	for _, i := range locks {
		if i > first {
			w.bug("lock", "a lock is taken after the transaction began")
		}
	}
	for _, i := range unlocks {
		if i < last {
			w.bug("lock", "a lock is released before the transaction ended (%s after it)", w.trace[last].K)
		}
	}
	want := len(w.sc.Cfg.Locks)
	if last >= 0 && len(locks) != want {
		w.bug("lock", "the command ran with %d of %d locks", len(locks), want)
	}
	for n, k := range w.sc.Cfg.Locks {
		if last < 0 || n >= 0 && w.dupKeys() {
			break
		}
		found := false
		for _, i := range locks {
			if strings.HasSuffix(w.trace[i].Name, fmt.Sprintf("key%d", k)) {
				found = true
			}
		}
		if !found {
			w.bug("lock", "key%d was declared but not locked", k)
		}
	}
	if w.dupKeys() && w.mainRan > 0 {
		w.bug("lock", "the command ran although a key was declared twice")
	}
	if w.fired == "lock" && (w.mainRan > 0 || len(w.idx("begin")) > 0) {
		w.bug("lock", "the command ran although a lock failed")
	}
}

func nodesOf(m map[node]bool) []node {
	var r []node
	for n := range m {
		r = append(r, n)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].core().h < r[j].core().h })
	return r
}

func desc(n node) string {
	return fmt.Sprintf("%s(h%d id=%q %s)", kindName[n.kind()], n.core().h, n.GetID(), n.core().Name)
}

var hookKinds = []string{"BeforeCreate", "AfterCreate", "BeforeUpdate", "AfterUpdate", "BeforeDelete", "AfterDelete"}

func (w *World) checkSaves(success bool) {
	var executed []*ddd.Action
	for i := range w.changes {
		ch := &w.changes[i]
		s := i + 1
		full := ch.done
		var execs []Ev
		firstW, lastW := len(w.trace), -1
		hooks := map[int]map[string]int{}
		firstAfter, lastBefore := len(w.trace), -1
		for ti, e := range w.trace {
			if e.Save != s {
				continue
			}
			switch e.K {
			case "exec":
				if e.Tab == "E" {
					continue
				}
				execs = append(execs, e)
				if ti < firstW {
					firstW = ti
				}
				lastW = ti
			case "hook":
				if hooks[e.H] == nil {
					hooks[e.H] = map[string]int{}
				}
				hooks[e.H][e.Name]++
				if strings.HasPrefix(e.Name, "Before") {
					lastBefore = ti
				} else if ti < firstAfter {
					firstAfter = ti
				}
			case "genid":
				if lastW >= 0 {
					w.bug("id", "an ID was generated after rows had been written in save %d", s)
				}
			}
		}
		if lastBefore > firstW {
			w.bug("hook", "a before-hook ran after a write of save %d", s)
		}
		if firstAfter < lastW {
			w.bug("hook", "an after-hook ran before a write of save %d", s)
		}
		if lastBefore > firstAfter {
			w.bug("hook", "a before-hook ran after an after-hook in save %d", s)
		}
		w.checkHooks(s, ch, hooks, full)
		w.checkBatches(s, ch, execs, full)
		if full {
			w.checkIDs(s, ch)
		}
	}
	for _, e := range w.trace {
		if e.K == "exec" {
			executed = append(executed, e.act)
		}
	}
	if success {
		if len(w.res.Actions) != len(executed) {
			w.bug("result", "the result lists %d actions, %d were executed", len(w.res.Actions), len(executed))
		} else {
			for i, a := range w.res.Actions {
				if a == executed[i] {
					continue
				}
				if a == nil || a.Op != executed[i].Op || fmt.Sprint(modelRows(a.Models)) != fmt.Sprint(modelRows(executed[i].Models)) {
					w.bug("result", "action %d of the result is not the one executed", i)
				}
			}
		}
	}
}

func modelRows(ms []ddd.IModel) []string {
	var r []string
	for _, m := range ms {
		t, row := rowOf(m)
		r = append(r, fmt.Sprintf("%s%+v", t, row))
	}
	return r
}

func (w *World) checkHooks(s int, ch *change, hooks map[int]map[string]int, full bool) {
	for _, n := range w.nodes {
		if n == nil || n.kind() == KD || n.kind() == KU {
			continue
		}
		h := n.core().h
		want := ""
		switch {
		case ch.inserted[n]:
			want = "Create"
		case ch.deleted[n]:
			want = "Delete"
		case ch.updated[n]:
			want = "Update"
		}
		for _, k := range hookKinds {
			got := hooks[h][k]
			exp := 0
			if want != "" && strings.HasSuffix(k, want) {
				exp = 1
			}
			if ch.optional[n] {
				if got > 1 || got == 1 && strings.HasSuffix(k, "Create") {
					w.bug("hook", "%s of %s ran %d times in save %d", k, desc(n), got, s)
				}
				continue
			}
			if got > exp || full && got != exp {
				w.bug("hook", "%s of %s ran %d times in save %d, should be %d", k, desc(n), got, s, exp)
			}
		}
	}
}

func (w *World) checkBatches(s int, ch *change, execs []Ev, full bool) {
	type key struct {
		op  ddd.OpType
		tab string
	}
	seen := map[key]bool{}
	last := ddd.OpUnknown
	wrote := map[ddd.OpType]map[string]int{ddd.OpInsert: {}, ddd.OpUpdate: {}, ddd.OpDelete: {}}
	byRow := map[string]node{} // table/id -> node of this save
	for _, set := range []map[node]bool{ch.inserted, ch.updated, ch.deleted, ch.optional} {
		for n := range set {
			if n.kind() != KU && n.GetID() != "" {
				byRow[kindName[n.kind()]+"/"+n.GetID()] = n
			}
		}
	}
	for _, e := range execs {
		k := key{e.Op, e.Tab}
		if seen[k] {
			w.bug("batch", "two batches of op %d on %s in save %d", e.Op, e.Tab, s)
		}
		seen[k] = true
		if e.Op < last {
			w.bug("batch", "op %d after op %d in save %d", e.Op, last, s)
		}
		last = e.Op
		if wrote[e.Op] == nil {
			w.bug("batch", "unknown op %d", e.Op)
			continue
		}
		if e.Op == ddd.OpUpdate && len(e.Prev) != len(e.Acts) {
			w.bug("batch", "%d previous models for %d models in save %d", len(e.Prev), len(e.Acts), s)
		}
		for i, r := range e.Acts {
			wrote[e.Op][e.Tab+"/"+r.ID]++
			if e.Op == ddd.OpUpdate && i < len(e.Prev) {
				pt, pr := rowOf(e.Prev[i])
				if pt != e.Tab || pr.ID != r.ID {
					w.bug("batch", "previous model %s %+v is not of the same entity as %s %+v", pt, pr, e.Tab, r)
					continue
				}
				n := byRow[e.Tab+"/"+r.ID]
				if n == nil {
					continue
				}
				p, ok := ch.prev[n]
				if ok && (pr.Name != p.name || pr.Num != p.num || pr.Parent != p.parentID) {
					w.bug("batch", "previous model of %s is %+v, the last known state is %+v", desc(n), pr, p)
				}
			}
		}
	}
	// the new entities of one collection are inserted in its order
	if full && !ch.conflict && !ch.dup {
		at := map[node][2]int{}
		for b, e := range execs {
			if e.Op == ddd.OpInsert {
				for i, r := range e.Acts {
					if n := byRow[e.Tab+"/"+r.ID]; n != nil && ch.inserted[n] {
						at[n] = [2]int{b, i}
					}
				}
			}
		}
		for _, l := range ch.lists {
			last := map[int]node{}
			for _, n := range l {
				p, ok := at[n]
				if !ok {
					continue
				}
				if m := last[p[0]]; m != nil && at[m][1] > p[1] {
					w.bug("batch", "%s is inserted before %s, which precedes it in its collection, in save %d", desc(n), desc(m), s)
				}
				last[p[0]] = n
			}
		}
	}
	sets := map[ddd.OpType]map[node]bool{ddd.OpInsert: ch.inserted, ddd.OpUpdate: ch.updated, ddd.OpDelete: ch.deleted}
	names := map[ddd.OpType]string{ddd.OpInsert: "inserted", ddd.OpUpdate: "updated", ddd.OpDelete: "deleted"}
	for op, set := range sets {
		want := map[string]bool{}
		for n := range set {
			if n.kind() != KU {
				want[kindName[n.kind()]+"/"+n.GetID()] = true
			}
		}
		opt := map[string]bool{}
		for n := range ch.optional {
			opt[kindName[n.kind()]+"/"+n.GetID()] = true
		}
		for k, c := range wrote[op] {
			if opt[k] && op != ddd.OpInsert && c == 1 {
				continue
			}
			if c > 1 && !ch.conflict {
				w.bug("write", "%s %s %d times in save %d", k, names[op], c, s)
			}
			if !want[k] {
				w.bug("write", "%s was %s in save %d but should not", k, names[op], s)
			}
		}
		if full && !w.sc.Cfg.DryRun {
			for k := range want {
				if wrote[op][k] == 0 {
					w.bug("write", "%s was not %s in save %d", k, names[op], s)
				}
			}
		}
	}
}

func (w *World) checkIDs(s int, ch *change) {
	issued := map[string]bool{}
	for id, save := range w.issued {
		if save == s {
			issued[id] = true
		}
	}
	for _, n := range nodesOf(ch.inserted) {
		pre, id := ch.preID[n], n.GetID()
		switch {
		case pre != "":
			if id != pre {
				w.bug("id", "%s had the ID %q chosen by the caller", desc(n), pre)
			}
		case n.kind() != KD && n.core().Flags&flagSetID != 0:
			if id != fmt.Sprintf("hook%d", n.core().h) {
				w.bug("id", "%s lost the ID its before-hook chose", desc(n))
			}
		default:
			if !issued[id] {
				w.bug("id", "%s was inserted with an ID not freshly generated for it", desc(n))
			}
			delete(issued, id)
		}
	}
	if len(issued) > 0 {
		w.bug("id", "%d IDs were generated that no inserted entity uses", len(issued))
	}
}

// markRequired decides which events have to be sent should the run succeed.
func (w *World) markRequired() {
	req := map[node]bool{}
	add := func(top node) { walkNodes(top, nil, func(n, _ node) { req[n] = true }) }
	for _, r := range w.roots {
		add(r)
	}
	for _, g := range w.allGone {
		add(g)
	}
	if len(w.changes) > 0 {
		ch := w.changes[len(w.changes)-1]
		if !ch.done {
			for n := range ch.deleted {
				add(n)
			}
		}
	}
	for _, e := range w.events {
		e.required = req[e.from]
	}
}

func (w *World) checkEventsOut(success bool, v verdict) {
	byID := map[string]*emitted{}
	for _, e := range w.events {
		byID[e.id] = e
	}
	var announced, sent []*emitted
	seen := map[string]int{}
	announceOK, announceTried := false, false
	for _, e := range w.trace {
		if e.K != "dispatch" && e.K != "txbegin" {
			continue
		}
		if e.K == "txbegin" {
			announceTried = true
			announceOK = announceOK || !e.Err
		}
		for _, id := range e.IDs {
			seen[id]++
			x := byID[id]
			if x == nil {
				continue // reported already
			}
			if e.K == "txbegin" {
				announced = append(announced, x)
			} else {
				sent = append(sent, x)
			}
		}
	}
	if w.sc.Cfg.DryRun {
		return
	}
	for id, n := range seen {
		if n > 1 {
			w.bug("events", "event %s was handed over %d times", id, n)
		}
	}
	for _, l := range [][]*emitted{announced, sent} {
		for i := 1; i < len(l); i++ {
			if a, b := l[i-1], l[i]; b.seq < a.seq && !(a.at.Equal(b.at) && a.id < b.id) { // the counter in the IDs wraps around at some time
				w.bug("events", "event %d is handed over after event %d", l[i-1].seq, l[i].seq)
			}
		}
	}
	twoPhase := w.sc.Cfg.Bus == 2 && !w.sc.Cfg.NoTx
	for _, x := range announced {
		if !twoPhase {
			w.bug("tx-events", "events announced without transaction")
		} else if x.sendType != ddd.SendTypeTransaction {
			w.bug("tx-events", "an ordinary event (%s) was announced as transactional", x.sendType)
		}
	}
	for _, x := range sent {
		if twoPhase && x.sendType == ddd.SendTypeTransaction {
			w.bug("tx-events", "a transactional event was dispatched as an ordinary one")
		}
	}
	if success {
		for _, e := range w.events {
			if e.required && seen[e.id] == 0 {
				w.bug("events", "event %d of %s was not dispatched", e.seq, desc(e.from))
			}
		}
	}
	failedBefore := !success && !strings.HasSuffix(w.fired, "dispatch") && !strings.HasSuffix(w.fired, "txbegin") && w.fired != "commit"
	if failedBefore && len(seen) > 0 {
		w.bug("events", "a command that failed before dispatching (%s) handed over %d events", w.why(), len(seen))
	}
	// event records
	recs := w.store.tables["E"]
	if success {
		if w.sc.Cfg.Persist {
			for id := range seen {
				if r, ok := recs[id]; !ok {
					w.bug("events", "no record of event %s", id)
				} else if byID[id] != nil && r.Name != byID[id].payload {
					w.bug("events", "record of event %s has payload %s", id, r.Name)
				}
			}
			for id := range recs {
				if seen[id] == 0 {
					w.bug("events", "record of an event that was not dispatched")
				}
			}
		} else if len(recs) > 0 {
			w.bug("events", "event records although not configured")
		}
	}
	// two-phase protocol
	confirms, cancels, begins, commits, rolls := w.idx("txcommit"), w.idx("txrollback"), w.idx("txbegin"), w.idx("commit"), w.idx("rollback")
	if len(begins) > 0 && len(commits) > 0 && begins[len(begins)-1] > commits[0] {
		w.bug("tx-events", "announced after the database commit")
	}
	_ = rolls
	switch {
	case !announceTried:
		if len(confirms)+len(cancels) > 0 {
			w.bug("tx-events", "confirmed or cancelled without announcing")
		}
	case success:
		if len(confirms) != 1 || len(cancels) != 0 {
			w.bug("tx-events", "after success: %d confirms, %d cancels", len(confirms), len(cancels))
		} else if len(commits) == 1 && confirms[0] < commits[0] {
			w.bug("tx-events", "confirmed before the database commit")
		}
	case w.fired == "commit":
		if len(confirms)+len(cancels) != 0 {
			w.bug("tx-events", "after a failed commit: %d confirms, %d cancels", len(confirms), len(cancels))
		}
	case w.panicked != nil:
		if len(confirms) != 0 || len(cancels) > 1 {
			w.bug("tx-events", "after a panic: %d confirms, %d cancels", len(confirms), len(cancels))
		}
	case announceOK:
		if len(confirms) != 0 || len(cancels) != 1 {
			w.bug("tx-events", "after a failure behind the announcement: %d confirms, %d cancels", len(confirms), len(cancels))
		}
	default: // the announcement itself failed
		if len(confirms) != 0 || len(cancels) > 1 {
			w.bug("tx-events", "after a failed announcement: %d confirms, %d cancels", len(confirms), len(cancels))
		}
	}
}

func (w *World) checkPost(success bool, v verdict) {
	var want []string
	if success || w.res != nil && w.res.Error == nil && w.panicked == nil {
		for i := 0; i < w.sc.Cfg.Hooks; i++ {
			want = append(want, fmt.Sprintf("engine%d", i))
		}
		k := w.sc.Cfg.Kind
		if (k == 2 || k == 3 || k == 5) && w.initOK && w.hasPost() {
			want = append(want, "cmd")
		}
		if !w.initOK {
			want = nil
		}
	}
	if fmt.Sprint(want) != fmt.Sprint(w.postRes) {
		w.bug("post", "after-save callbacks run: %v, should be %v", w.postRes, want)
	}
	for _, i := range w.idx("postsave") {
		for j, e := range w.trace {
			if j > i && (e.K == "unlock" || e.K == "commit" || e.K == "rollback") {
				w.bug("post", "an after-save callback ran before %s", e.K)
			}
		}
	}
	if success && w.sc.Cfg.Output && (w.sc.Cfg.Kind == 3 || w.sc.Cfg.Kind == 5) && !w.bare() && w.res.Output != "out" {
		w.bug("outcome", "output lost: %v", w.res.Output)
	}
	for _, r := range w.postPtr {
		if r != w.res {
			// a copy is fine as long as it says the same
			if r == nil || w.res == nil || r.Break != w.res.Break || r.Output != w.res.Output || len(r.Actions) != len(w.res.Actions) {
				w.bug("post", "an after-save callback got another result than the caller")
			}
		}
	}
}

// Errors returns the collected failures with one of the given tags (all when none given).
func (w *World) failures(tags ...string) []string {
	var r []string
	for _, e := range w.errs {
		tag := e[:strings.Index(e, ":")]
		if len(tags) == 0 {
			r = append(r, e)
			continue
		}
		for _, t := range tags {
			if t == tag {
				r = append(r, e)
			}
		}
	}
	return r
}

func (w *World) traceString() string {
	var b strings.Builder
	for _, e := range w.trace {
		fmt.Fprintf(&b, "  %s", e.K)
		switch e.K {
		case "exec":
			fmt.Fprintf(&b, " save%d op%d %s %+v", e.Save, e.Op, e.Tab, e.Acts)
			if e.Op == ddd.OpUpdate {
				fmt.Fprintf(&b, " prev %v", modelRows(e.Prev))
			}
		case "hook":
			fmt.Fprintf(&b, " save%d %s %s", e.Save, e.Name, desc(w.nodes[e.H]))
		case "dispatch", "txbegin":
			fmt.Fprintf(&b, " %d events", len(e.IDs))
		default:
			fmt.Fprintf(&b, " %s", e.Name)
		}
		b.WriteString("\n")
	}
	return b.String()
}
