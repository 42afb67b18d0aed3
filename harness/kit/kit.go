// Package kit drives the property checks: it turns a generator of plain-data
// scenarios and a pure interpreter of them into a check with sharding, shrinking,
// replay files, regression corpus, known findings and evidence.
package kit

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/go-logr/stdr"
	"pgregory.net/rapid"
)

// Outcome is what one interpretation of a scenario produced.
type Outcome struct {
	Fail       string   // non-empty: the property is violated, and how
	FailKey    string   // short stable identification of the violation (for known findings)
	Nontrivial bool     // by the check's rule
	Classes    []string // labels counted over the run
	hits       []string // known findings met
	known      map[string]Known
}

// Finding records a violation that may be a listed finding: it returns true if key is listed
// (the scenario then goes on as the finding's defect has it), and fails otherwise.
func (o *Outcome) Finding(prop, key, format string, args ...any) bool {
	if o.known == nil {
		o.known = loadKnown(prop)
	}
	if _, ok := o.known[key]; ok {
		o.hits = append(o.hits, key)
		return true
	}
	if o.Fail == "" {
		o.FailKey = key
	}
	o.Failf(format, args...)
	return false
}

func (o *Outcome) Class(format string, args ...any) {
	o.Classes = append(o.Classes, fmt.Sprintf(format, args...))
}

// Failf records the first violation.
func (o *Outcome) Failf(format string, args ...any) {
	if o.Fail == "" {
		o.Fail = fmt.Sprintf(format, args...)
	}
}

type Spec[S any] struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Quick       int // cases per tier, over all shards
	Thorough    int
	Shards      int           // processes in the quick tier (default 4)
	HangLimit   time.Duration // a single case running longer than this is reported as a hang (default 100s)
	Gen         func(t *rapid.T) S
	Run         func(t *testing.T, s S) Outcome
}

type runner interface {
	id() string
	shards() int
	level() string
	main(t *testing.T)
	info() (rule string, assumptions []string)
}

var registry = map[string]runner{}

func Register[S any](s Spec[S]) {
	if s.Shards == 0 {
		s.Shards = 4
	}
	if s.HangLimit == 0 {
		s.HangLimit = 100 * time.Second
	}
	if s.Level == "" {
		s.Level = "exploration"
	}
	registry[s.ID] = &specRunner[S]{s}
}

type partial struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  []string       `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Corpus      int            `json:"corpus"`
	Known       map[string]int `json:"known"`
	Violation   *violation     `json:"violation"`
}

type violation struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Key      string          `json:"key,omitempty"`
	Scenario json.RawMessage `json:"scenario"`
	Seed     uint64          `json:"seed"`
	Shard    int             `json:"shard"`
	Note     string          `json:"note,omitempty"`
}

// Known is one finding listed in /verif/known-findings.txt. Its lines are
//
//	finding: property=<id> key=<FailKey it covers> <what fails>
//	fixed: property=<id> <commit> <what failed>          (suppresses nothing)
type Known struct {
	Property, Key, What string
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func loadKnown(id string) map[string]Known {
	res := map[string]Known{}
	b, err := os.ReadFile(filepath.Join(root(), "known-findings.txt"))
	if err != nil {
		return res
	}
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(line), " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			k := Known{Property: id, Key: strings.TrimPrefix(f[2], "key="), What: f[3]}
			res[k.Key] = k
		}
	}
	return res
}

type specRunner[S any] struct{ Spec[S] }

func (r *specRunner[S]) id() string               { return r.ID }
func (r *specRunner[S]) shards() int              { return r.Shards }
func (r *specRunner[S]) level() string            { return r.Level }
func (r *specRunner[S]) info() (string, []string) { return r.Rule, r.Assumptions }

// muteTB lets rapid report without touching the real testing.T.
type muteTB struct {
	name   string
	failed bool
	logs   []string
}

type muteStop struct{}

func (m *muteTB) Helper()                   {}
func (m *muteTB) Name() string              { return m.name }
func (m *muteTB) Logf(f string, a ...any)   { m.logs = append(m.logs, fmt.Sprintf(f, a...)) }
func (m *muteTB) Log(a ...any)              { m.logs = append(m.logs, fmt.Sprint(a...)) }
func (m *muteTB) Skipf(f string, a ...any)  { panic("skip") }
func (m *muteTB) Skip(a ...any)             { panic("skip") }
func (m *muteTB) SkipNow()                  { panic("skip") }
func (m *muteTB) Errorf(f string, a ...any) { m.Logf(f, a...); m.failed = true }
func (m *muteTB) Error(a ...any)            { m.Log(a...); m.failed = true }
func (m *muteTB) Fatalf(f string, a ...any) { m.Errorf(f, a...); m.FailNow() }
func (m *muteTB) Fatal(a ...any)            { m.Error(a...); m.FailNow() }
func (m *muteTB) FailNow()                  { m.failed = true; panic(muteStop{}) }
func (m *muteTB) Fail()                     { m.failed = true }
func (m *muteTB) Failed() bool              { return m.failed }

func tier() string {
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		return t
	}
	return "quick"
}

func seed() uint64 {
	n, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func mix(parts ...string) uint64 {
	h := sha256.Sum256([]byte(strings.Join(parts, "|")))
	var v uint64
	for _, b := range h[:8] {
		v = v<<8 | uint64(b)
	}
	if v == 0 {
		v = 1
	}
	return v
}

// safeRun interprets a scenario, turning a panic of the code under test into a violation.
func (r *specRunner[S]) safeRun(t *testing.T, s S) (o Outcome) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(HarnessError); ok {
				fmt.Fprintf(os.Stderr, "HARNESS-ERROR property=%s %v\n%s\n", r.ID, string(he), debug.Stack())
				os.Exit(3)
			}
			o.Fail = fmt.Sprintf("unexpected panic: %v\n%s", p, trimStack(debug.Stack()))
			o.FailKey = "panic"
		}
	}()
	return r.Run(t, s)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// HarnessError marks a defect of the machinery itself: it ends the check as an error, never as a violation.
type HarnessError string

func Harness(format string, args ...any) { panic(HarnessError(fmt.Sprintf(format, args...))) }

func (r *specRunner[S]) main(t *testing.T) {
	known := loadKnown(r.ID)
	var mu sync.Mutex
	p := &partial{Classes: map[string]int{}, Known: map[string]int{}}
	seen := map[string]bool{}
	var current []byte
	var started time.Time
	outPath := os.Getenv("VERIF_PART")
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	var cur *os.File // the running case, for the parent to report should this process crash
	if outPath != "" {
		f, err := os.Create(outPath + ".cur")
		if err != nil {
			panic(err)
		}
		cur = f
	}
	flush := func() {
		if outPath == "" {
			return
		}
		b, err := json.Marshal(p)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(outPath, b, 0o644); err != nil {
			panic(err)
		}
	}
	// watchdog: a case that never returns is a violation (cases take milliseconds)
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if !started.IsZero() && time.Since(started) > r.HangLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				p.Violation = &violation{Property: r.ID, Message: "the case never finished (hang)\n" + string(buf[:n]), Scenario: current, Seed: seed(), Shard: shard, Note: "not shrunk: a hanging case cannot be re-run"}
				flush()
				os.Exit(0)
			}
			mu.Unlock()
		}
	}()
	exec1 := func(s S, count bool) Outcome {
		js, err := json.Marshal(s)
		if err != nil {
			panic(err)
		}
		mu.Lock()
		current, started = js, time.Now()
		mu.Unlock()
		if cur != nil {
			_, _ = cur.WriteAt(js, 0)
			_ = cur.Truncate(int64(len(js)))
		}
		o := r.safeRun(t, s)
		mu.Lock()
		started = time.Time{}
		for _, k := range o.hits {
			p.Known[k]++
		}
		if o.Fail != "" {
			if k, ok := known[o.FailKey]; ok && o.FailKey != "" {
				p.Known[k.Key]++
				o.Fail = ""
			}
		}
		if count {
			p.Evaluations++
			for _, c := range o.Classes {
				p.Classes[c]++
			}
			if o.Nontrivial {
				h := sha256.Sum256(js)
				hs := hex.EncodeToString(h[:8])
				if !seen[hs] {
					seen[hs] = true
					p.Nontrivial = append(p.Nontrivial, hs)
					if len(p.Samples) < 2 {
						p.Samples = append(p.Samples, json.RawMessage(js))
					}
				}
			}
		}
		mu.Unlock()
		return o
	}
	report := func(s S, o Outcome, note string) {
		js, _ := json.Marshal(s)
		p.Violation = &violation{Property: r.ID, Message: o.Fail, Key: o.FailKey, Scenario: js, Seed: seed(), Shard: shard, Note: note}
	}
	defer flush()

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			panic(err)
		}
		var v violation
		if err := json.Unmarshal(b, &v); err != nil {
			panic(err)
		}
		var s S
		if err := json.Unmarshal(v.Scenario, &s); err != nil {
			panic(err)
		}
		if o := exec1(s, true); o.Fail != "" {
			report(s, o, "replay of "+rp)
		}
		return
	}
	// regression corpus (shard 0 only)
	if shard == 0 {
		files, _ := filepath.Glob(filepath.Join(root(), "corpus", r.ID, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			var v violation
			if err := json.Unmarshal(b, &v); err != nil {
				Harness("corpus file %s: %v", f, err)
			}
			var s S
			if err := json.Unmarshal(v.Scenario, &s); err != nil {
				Harness("corpus file %s: %v", f, err)
			}
			p.Corpus++
			if o := exec1(s, true); o.Fail != "" {
				report(s, o, "from corpus file "+f)
				return
			}
		}
	}
	shards, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if shards == 0 {
		shards = 1
	}
	n := r.Quick
	if tier() == "thorough" {
		n = r.Thorough
		if n == 0 {
			n = 10 * r.Quick
		}
	}
	if c, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil && c > 0 {
		n = c
	}
	n = (n + shards - 1) / shards
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.seed", strconv.FormatUint(mix(strconv.FormatUint(seed(), 10), r.ID, strconv.Itoa(shard)), 10))
	_ = flag.Set("rapid.nofailfile", "true")
	shrink := "25s"
	if v := os.Getenv("VERIF_SHRINK"); v != "" {
		shrink = v
	}
	_ = flag.Set("rapid.shrinktime", shrink)
	var first, last *S
	var firstO, lastO Outcome
	tb := &muteTB{name: r.ID}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(muteStop); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(tb, func(rt *rapid.T) {
			s := r.Gen(rt)
			o := exec1(s, first == nil)
			if o.Fail != "" {
				if first == nil {
					first, firstO = &s, o
				}
				last, lastO = &s, o
				rt.Fatalf("violated")
			}
		})
	}()
	if first != nil {
		if o := exec1(*last, false); o.Fail != "" {
			report(*last, o, "shrunk")
		} else {
			ok := false
			for i := 0; i < 5 && !ok; i++ {
				if o := exec1(*first, false); o.Fail != "" {
					report(*first, o, "unshrunk (the shrunk case does not fail every time)")
					ok = true
				}
			}
			if !ok {
				_ = firstO
				report(*last, lastO, "does not fail every time")
			}
		}
	} else if tb.failed {
		Harness("rapid: %s", strings.Join(tb.logs, "\n"))
	}
}

// Main is the entry of every check package: TestMain of the test binary.
func Main(m *testing.M) {
	flag.Parse()
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		fmt.Println("VERIF_PROP not set")
		os.Exit(3)
	}
	r, ok := registry[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(3)
	}
	if os.Getenv("VERIF_PART") != "" {
		os.Exit(m.Run())
	}
	parent(r)
}

func parent(r runner) {
	begin := time.Now()
	shards := r.shards()
	if tier() == "thorough" {
		shards = 8
	}
	if os.Getenv("VERIF_REPLAY") != "" {
		shards = 1
	}
	dir, err := os.MkdirTemp("", "verif-part-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type res struct {
		p   *partial
		err error
		out string
	}
	results := make([]res, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			part := filepath.Join(dir, fmt.Sprintf("%d.json", i))
			scratch := filepath.Join(dir, fmt.Sprintf("s%d", i))
			_ = os.Mkdir(scratch, 0o755)
			cmd := exec.Command(os.Args[0], "-test.run=^TestProperty$", "-test.timeout=0")
			cmd.Env = append(os.Environ(), "VERIF_PART="+part, fmt.Sprintf("VERIF_SHARD=%d", i), fmt.Sprintf("VERIF_SHARDS=%d", shards), "VERIF_SCRATCH="+scratch, "TZ=UTC", "GOMAXPROCS=2")
			out, err := cmd.CombinedOutput()
			if d := os.Getenv("VERIF_DEBUG"); d != "" { // development only
				_ = os.WriteFile(fmt.Sprintf("%s.%d", d, i), out, 0o644)
			}
			if len(out) > 20000 {
				out = append(append(out[:10000:10000], "\n...\n"...), out[len(out)-10000:]...)
			}
			results[i].out, results[i].err = string(out), err
			if err != nil && !strings.Contains(string(out), "HARNESS-ERROR") &&
				(strings.Contains(string(out), "panic: ") || strings.Contains(string(out), "fatal error: ")) &&
				strings.Contains(string(out), "bytedance/dddfirework") && !strings.Contains(string(out), "out of memory") {
				if b, e := os.ReadFile(part + ".cur"); e == nil && json.Valid(b) {
					results[i].p = &partial{Violation: &violation{Property: r.id(), Message: "the process crashed:\n" + string(out), Scenario: b, Seed: seed(), Shard: i, Note: "not shrunk: the case crashes the process"}}
					return
				}
			}
			if b, e := os.ReadFile(part); e == nil {
				var p partial
				if e := json.Unmarshal(b, &p); e == nil {
					results[i].p = &p
				}
			}
		}(i)
	}
	wg.Wait()
	total := &partial{Classes: map[string]int{}, Known: map[string]int{}}
	distinct := map[string]bool{}
	var v *violation
	code := 0
	for i, rs := range results {
		if rs.p == nil || (rs.err != nil && rs.p.Violation == nil) {
			fmt.Printf("CHECK-ERROR property=%s shard=%d err=%v\n%s\n", r.id(), i, rs.err, rs.out)
			code = 3
			continue
		}
		total.Evaluations += rs.p.Evaluations
		total.Corpus += rs.p.Corpus
		for _, h := range rs.p.Nontrivial {
			distinct[h] = true
		}
		for k, n := range rs.p.Classes {
			total.Classes[k] += n
		}
		for k, n := range rs.p.Known {
			total.Known[k] += n
		}
		if len(total.Samples) < 3 {
			total.Samples = append(total.Samples, rs.p.Samples...)
		}
		if v == nil && rs.p.Violation != nil {
			v = rs.p.Violation
		}
	}
	rule, assumptions := r.info()
	violations := 0
	if v != nil {
		violations = 1
	}
	if len(total.Samples) == 0 {
		total.Samples = []any{}
	}
	ev := map[string]any{
		"property": r.id(), "tier": tier(), "seed": seed(), "level": r.level(),
		"coverage": map[string]any{
			"evaluations": total.Evaluations, "distinct_nontrivial": len(distinct), "rule": rule,
			"samples": total.Samples, "classes": total.Classes, "corpus_cases": total.Corpus, "known_finding_hits": total.Known,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(begin).Seconds(), "violations": violations,
	}
	if os.Getenv("VERIF_REPLAY") == "" && os.Getenv("VERIF_NO_EVIDENCE") == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(root(), "evidence", r.id()+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("CHECK-ERROR evidence:", err)
			code = 3
		}
	}
	for _, k := range sortedKnown(r.id()) {
		if total.Known[k.Key] == 0 {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id(), k.What)
	}
	if v != nil {
		path := os.Getenv("VERIF_REPLAY")
		if path == "" {
			rd := filepath.Join(root(), "evidence", "replay")
			_ = os.MkdirAll(rd, 0o755)
			path = filepath.Join(rd, r.id()+".json")
			b, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, append(b, '\n'), 0o644)
		}
		fmt.Printf("%s\nscenario: %s\n", v.Message, v.Scenario)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id(), path)
		_ = os.RemoveAll(dir)
		os.Exit(1)
	}
	if code == 0 {
		fmt.Printf("CHECK-OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", r.id(), total.Evaluations, len(distinct), time.Since(begin).Seconds())
	}
	_ = os.RemoveAll(dir)
	os.Exit(code)
}

func sortedKnown(id string) []Known {
	m := loadKnown(id)
	var ks []Known
	for _, k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Key < ks[j].Key })
	return ks
}

// TestProperty is called by each package's TestProperty.
func TestProperty(t *testing.T) {
	Quiet()
	if os.Getenv("VERIF_PART") != "" && os.Getenv("VERIF_DEBUG") == "" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			_ = syscall.Dup2(int(f.Fd()), 1)
		}
	}
	registry[os.Getenv("VERIF_PROP")].main(t)
}

// Quiet silences the loggers of the code under test.
func Quiet() {
	stdr.SetVerbosity(-1)
	log.SetOutput(io.Discard)
}

// Scratch is a directory private to this process.
func Scratch() string {
	if s := os.Getenv("VERIF_SCRATCH"); s != "" {
		return s
	}
	return os.TempDir()
}

// JSON renders a value compactly for messages.
func JSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}
