// Package pbt runs properties: it generates cases with rapid, runs the oracle
// on each, counts what was generated, and leaves a replay file behind when a
// case fails. A case is run as decoded from its JSON form, so what fails is
// exactly what the replay file holds.
//
// The driver (check.py) controls it through VERIF_* environment variables.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// R is what a property's run function reports about its case.
type R struct {
	T          *testing.T
	nontrivial bool
	labels     []string
	counts     map[string]int
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (r *R) NonTrivial() { r.nontrivial = true }

// NonTrivialIf does so if ok.
func (r *R) NonTrivialIf(ok bool) {
	if ok {
		r.nontrivial = true
	}
}

// Label counts the case in a class.
func (r *R) Label(s string) { r.labels = append(r.labels, s) }

func (r *R) LabelIf(ok bool, s string) {
	if ok {
		r.Label(s)
	}
}

// Count adds to a total over all cases.
func (r *R) Count(what string, n int) {
	if r.counts == nil {
		r.counts = map[string]int{}
	}
	r.counts[what] += n
}

// Harness is panicked with when the harness itself is at fault. The check then
// ends with an error, not a violation.
type Harness string

func (h Harness) Error() string { return "harness: " + string(h) }

// Part is one generator and oracle of a property.
type Part struct {
	Name     string
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier; 20 times Quick if 0
	run      func(t *testing.T, e *env, p *Part)
	replay   func(t *testing.T, raw json.RawMessage) error
}

// Property is a listed property.
type Property struct {
	ID    string
	Rule  string // how cases are made, and what makes one non-trivial
	Parts []*Part
}

var registry = map[string]*Property{}

func Register(p *Property) {
	if registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	registry[p.ID] = p
}

// Case is the content of a replay file.
type Case struct {
	Property string
	Part     string
	Error    string `json:",omitempty"`
	Case     json.RawMessage
}

// BeforeGen is called before each case is generated.
var BeforeGen = func() {}

// NewPart makes a part from a generator of JSON-serialisable cases and an
// oracle, whose error means that the property is violated.
func NewPart[C any](name string, quick int, gen func(*rapid.T) C, run func(*R, C) error) *Part {
	p := &Part{Name: name, Quick: quick}
	exec := func(t *testing.T, raw []byte) (*R, error) {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			panic(Harness(fmt.Sprintf("decoding case: %v", err)))
		}
		r := &R{T: t}
		return r, protect(func() error { return run(r, c) })
	}
	p.replay = func(t *testing.T, raw json.RawMessage) error {
		_, err := exec(t, raw)
		return err
	}
	p.run = func(t *testing.T, e *env, p *Part) {
		rapid.Check(t, func(rt *rapid.T) {
			BeforeGen()
			c := gen(rt)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(Harness(fmt.Sprintf("encoding case: %v", err)))
			}
			if err := e.one(t, p, raw, exec); err != nil {
				rt.Fatalf("%v", err)
			}
		})
	}
	return p
}

// protect turns a panic of the code under test into an error. Harness panics
// go through.
func protect(fn func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			if h, ok := v.(Harness); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", v, debug.Stack())
		}
	}()
	return fn()
}

type env struct {
	prop    *Property
	work    string
	tier    string
	seed    uint64
	shard   int
	shards  int
	isolate bool
	skipTo  map[string]int // in isolate mode: first index to run, by part

	journal *os.File
	index   map[string]int
	failed  bool
	st      stats
	seen    map[uint64]bool
}

type stats struct {
	Rule        string
	Evaluations int
	Nontrivial  []uint64 // distinct hashes
	Parts       map[string]*partStats
	Labels      map[string]int
	Counts      map[string]int
	Samples     []json.RawMessage
}

type partStats struct {
	Evaluations int
	Nontrivial  int
}

var (
	caseStart atomic.Int64 // wall clock, nanoseconds; 0 when idle
	caseCPU   atomic.Int64
)

func cpu() int64 {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		return 0
	}
	return u.Utime.Nano() + u.Stime.Nano()
}

// Exit codes understood by check.py.
const (
	ExitHang    = 71 // the current case does not terminate
	ExitHarness = 72
	ExitSlow    = 73 // inconclusive
)

// watchdog runs outside of all synctest bubbles. A case takes milliseconds: one
// that burns most of a minute of CPU does not terminate, and one during which
// all goroutines are blocked and the process uses no CPU never will.
func watchdog() {
	idleSince, lastCPU := time.Now(), cpu()
	for {
		time.Sleep(time.Second)
		start := caseStart.Load()
		now, c := time.Now(), cpu()
		if c-lastCPU > int64(20*time.Millisecond) {
			idleSince = now
		}
		lastCPU = c
		if start == 0 {
			continue
		}
		wall := now.UnixNano() - start
		used := c - caseCPU.Load()
		if used > int64(60*time.Second) {
			dump("the case does not terminate: it used more than 60 s of CPU")
			os.Exit(ExitHang)
		}
		if wall > int64(20*time.Second) && now.Sub(idleSince) > 10*time.Second && allBlocked() {
			dump("deadlock: all goroutines are blocked")
			os.Exit(ExitHang)
		}
		if wall > int64(5*time.Minute) {
			dump("inconclusive: the case takes too long")
			os.Exit(ExitSlow)
		}
	}
}

func stacks() string {
	buf := make([]byte, 16<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func dump(why string) {
	s := stacks()
	if len(s) > 20000 {
		s = s[:20000]
	}
	fmt.Fprintf(os.Stderr, "VERIF-HANG: %s\n%s\n", why, s)
}

func allBlocked() bool {
	for _, g := range strings.Split(stacks(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(g, "pbt.watchdog") {
			continue
		}
		_, state, ok := strings.Cut(head, "[")
		if !ok {
			continue
		}
		for _, s := range []string{"running", "runnable", "syscall", "IO wait"} {
			if strings.HasPrefix(state, s) {
				return false
			}
		}
	}
	return true
}

func (e *env) one(t *testing.T, p *Part, raw []byte, exec func(*testing.T, []byte) (*R, error)) error {
	i := e.index[p.Name]
	e.index[p.Name]++
	if e.isolate && !e.failed && i < e.skipTo[p.Name] {
		return nil
	}

	e.write(p, raw, i)
	if e.isolate {
		err := e.subprocess(p, raw)
		if err != nil {
			e.fail(p, raw, err)
		}
		return err
	}

	caseCPU.Store(cpu())
	caseStart.Store(time.Now().UnixNano())
	r, err := exec(t, raw)
	caseStart.Store(0)

	if err != nil {
		e.fail(p, raw, err)
		return err
	}
	if !e.failed {
		e.count(p, raw, r)
	}
	return nil
}

func (e *env) count(p *Part, raw []byte, r *R) {
	e.st.Evaluations++
	ps := e.st.Parts[p.Name]
	ps.Evaluations++
	for _, l := range r.labels {
		e.st.Labels[p.Name+": "+l]++
	}
	for k, n := range r.counts {
		e.st.Counts[k] += n
	}
	if !r.nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(p.Name))
	h.Write(raw)
	if len(e.seen) > 200000 || e.seen[h.Sum64()] {
		return
	}
	e.seen[h.Sum64()] = true
	e.st.Nontrivial = append(e.st.Nontrivial, h.Sum64())
	ps.Nontrivial++
	// Samples at 1, 10, 100, ... so that they are not all from the beginning.
	for n := 1; n <= ps.Nontrivial; n *= 10 {
		if n == ps.Nontrivial && len(raw) < 3000 {
			s, _ := json.Marshal(Case{Property: e.prop.ID, Part: p.Name, Case: raw})
			e.st.Samples = append(e.st.Samples, s)
		}
	}
}

func (e *env) caseFile(p *Part, raw []byte, err error) []byte {
	c := Case{Property: e.prop.ID, Part: p.Name, Case: raw}
	if err != nil {
		c.Error = err.Error()
		if len(c.Error) > 4000 {
			c.Error = c.Error[:4000]
		}
	}
	b, jerr := json.Marshal(c)
	if jerr != nil {
		panic(Harness(jerr.Error()))
	}
	return b
}

// write notes the case about to run, for when it takes the process down.
func (e *env) write(p *Part, raw []byte, i int) {
	b := fmt.Appendf(nil, "%s %d\n%s", p.Name, i, e.caseFile(p, raw, nil))
	if err := e.journal.Truncate(0); err != nil {
		panic(Harness(err.Error()))
	}
	if _, err := e.journal.WriteAt(b, 0); err != nil {
		panic(Harness(err.Error()))
	}
}

func (e *env) fail(p *Part, raw []byte, err error) {
	b := e.caseFile(p, raw, err)
	name := "fail.json" // the last one is the smallest
	if !e.failed {
		if err := os.WriteFile(filepath.Join(e.work, "first.json"), b, 0o644); err != nil {
			panic(Harness(err.Error()))
		}
	}
	e.failed = true
	if err := os.WriteFile(filepath.Join(e.work, name), b, 0o644); err != nil {
		panic(Harness(err.Error()))
	}
}

func (e *env) subprocess(p *Part, raw []byte) error {
	f := filepath.Join(e.work, "isolated.json")
	if err := os.WriteFile(f, e.caseFile(p, raw, nil), 0o644); err != nil {
		panic(Harness(err.Error()))
	}
	exe, err := os.Executable()
	if err != nil {
		panic(Harness(err.Error()))
	}
	cmd := exec.Command(exe, "-test.run=^TestVerif$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f)
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	if cmd.ProcessState.ExitCode() == ExitHarness || cmd.ProcessState.ExitCode() == ExitSlow {
		panic(Harness("isolated run: " + string(out)))
	}
	if len(out) > 3000 {
		out = out[:3000]
	}
	return fmt.Errorf("the process ends (%v): %s", err, out)
}

func mustAtoi(s string, def int) int {
	if s == "" {
		return def
	}
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(Harness(err.Error()))
	}
	return n
}

// Main is called by the one test of the checks package.
func Main(t *testing.T) {
	defer func() {
		if v := recover(); v != nil {
			if h, ok := v.(Harness); ok {
				fmt.Fprintln(os.Stderr, h.Error())
				os.Exit(ExitHarness)
			}
			panic(v)
		}
	}()

	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("VERIF_PROP not set")
	}
	prop := registry[id]
	if prop == nil {
		panic(Harness("unknown property " + id))
	}

	go watchdog()

	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		replay(t, prop, f)
		return
	}

	e := &env{
		prop:   prop,
		work:   os.Getenv("VERIF_WORK"),
		tier:   os.Getenv("VERIF_TIER"),
		shards: 1,
		index:  map[string]int{},
		seen:   map[uint64]bool{},
		skipTo: map[string]int{},
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		panic(Harness("VERIF_SEED: " + err.Error()))
	}
	if s := os.Getenv("VERIF_SHARD"); s != "" {
		if _, err := fmt.Sscanf(s, "%d/%d", &e.shard, &e.shards); err != nil {
			panic(Harness("VERIF_SHARD: " + err.Error()))
		}
	}
	// rapid takes 0 for "random"; keep seeds of shards apart.
	e.seed = (seed*1000003 + uint64(e.shard)*7919 + 17) &^ (1 << 63)
	if e.seed == 0 {
		e.seed = 1
	}
	if s := os.Getenv("VERIF_SKIP"); s != "" {
		e.isolate = true
		part, n, _ := strings.Cut(s, ":")
		for _, p := range prop.Parts {
			if p.Name == part {
				break
			}
			e.skipTo[p.Name] = 1 << 62
		}
		e.skipTo[part] = mustAtoi(n, 0)
	}
	if e.work == "" {
		panic(Harness("VERIF_WORK not set"))
	}
	if e.journal, err = os.Create(filepath.Join(e.work, "journal")); err != nil {
		panic(Harness(err.Error()))
	}
	e.st.Rule = prop.Rule
	e.st.Parts = map[string]*partStats{}
	e.st.Labels = map[string]int{}
	e.st.Counts = map[string]int{}

	for k, v := range map[string]string{
		"rapid.seed":       strconv.FormatUint(e.seed, 10),
		"rapid.nofailfile": "true",
		"rapid.shrinktime": "20s",
	} {
		if err := flag.Set(k, v); err != nil {
			panic(Harness(err.Error()))
		}
	}

	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if scale, err = strconv.ParseFloat(s, 64); err != nil {
			panic(Harness(err.Error()))
		}
	}
	budget := time.Duration(mustAtoi(os.Getenv("VERIF_BUDGET"), 1<<30)) * time.Second
	began := time.Now()

	only := os.Getenv("VERIF_PART")
	for _, p := range prop.Parts {
		if p.Quick < 0 || only != "" && p.Name != only {
			continue // negative: replays only
		}
		n := p.Quick
		if e.tier == "thorough" {
			n = p.Thorough
			if n == 0 {
				n = 20 * p.Quick
			}
		}
		n = max(int(float64(n)*scale)/e.shards, 1)
		e.st.Parts[p.Name] = &partStats{}
		// In chunks, so that a budget can end the run between two of them.
		for done, chunk := 0, 0; done < n && !e.failed; chunk++ {
			if time.Since(began) > budget {
				break
			}
			c := min(n-done, max(n/10, 1), 5000)
			flag.Set("rapid.checks", strconv.Itoa(c))
			flag.Set("rapid.seed", strconv.FormatUint(e.seed+uint64(chunk)*1000000007, 10))
			t.Run(p.Name, func(t *testing.T) { p.run(t, e, p) })
			done += c
		}
		if e.failed {
			break
		}
	}

	b, err := json.Marshal(e.st)
	if err != nil {
		panic(Harness(err.Error()))
	}
	if err := os.WriteFile(filepath.Join(e.work, "stats.json"), b, 0o644); err != nil {
		panic(Harness(err.Error()))
	}
	if t.Failed() && !e.failed {
		fmt.Fprintln(os.Stderr, "harness: the run failed without a failing case (generator trouble)")
		os.Exit(ExitHarness)
	}
}

func replay(t *testing.T, prop *Property, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(Harness(err.Error()))
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		panic(Harness(err.Error()))
	}
	for _, p := range prop.Parts {
		if p.Name != c.Part {
			continue
		}
		n := mustAtoi(os.Getenv("VERIF_REPEAT"), 1)
		for i := 0; i < n; i++ {
			caseCPU.Store(cpu())
			caseStart.Store(time.Now().UnixNano())
			err := p.replay(t, c.Case)
			caseStart.Store(0)
			if err != nil {
				fmt.Printf("REPLAY-FAILS: %v\n", err)
				os.Exit(1)
			}
		}
		fmt.Println("REPLAY-PASSES")
		return
	}
	panic(Harness("unknown part " + c.Part))
}

// List prints the registered properties and their parts as JSON.
func List() string {
	type entry struct {
		ID, Rule string
		Parts    []string
	}
	var l []entry
	for _, p := range registry {
		e := entry{ID: p.ID, Rule: p.Rule}
		for _, q := range p.Parts {
			e.Parts = append(e.Parts, q.Name)
		}
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	b, _ := json.MarshalIndent(l, "", " ")
	return string(b)
}
