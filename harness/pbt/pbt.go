// Package pbt is the small property-based-testing layer every check of this
// harness is built on.  A property is a set of "subs"; a sub is a generator of
// a JSON-serialisable plan plus a deterministic interpreter that runs the plan
// against the real code and judges it with an oracle.  Generation and
// shrinking are done by pgregory.net/rapid; the plan is what is written to a
// replay file, so a failure replays without the library.
package pbt

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Opt configures a sub.
type Opt struct {
	Quick    int    // generated cases in the quick tier (over all shards)
	Thorough int    // generated cases in the thorough tier (over all shards)
	Shards   int    // worker processes the cases are spread over (default 1)
	Bubble   bool   // run inside a testing/synctest bubble
	Race     bool   // run the binary built with the race detector
	Rule     string // what a case is and when it counts as non-trivial
	Known    bool   // the sub replays listed findings only
}

// Exit codes of a worker process.
const (
	ExitOK       = 0
	ExitViolated = 1
	ExitHang     = 77
	ExitStuck    = 78 // no progress, but not provably blocked: inconclusive
)

type sub struct {
	ID, Name string
	Opt      Opt
	gen      func(rt *rapid.T) any
	run      func(c *C, plan any)
	decode   func([]byte) (any, error)
}

var subs []*sub

// Reg registers a sub of property id.
func Reg[P any](id, name string, opt Opt, gen func(rt *rapid.T) P, run func(c *C, p P)) {
	if opt.Shards == 0 {
		opt.Shards = 1
	}
	subs = append(subs, &sub{
		ID: id, Name: name, Opt: opt,
		gen: func(rt *rapid.T) any { return gen(rt) },
		run: func(c *C, plan any) { run(c, plan.(P)) },
		decode: func(b []byte) (any, error) {
			var p P
			d := json.NewDecoder(bytes.NewReader(b))
			err := d.Decode(&p)
			return p, err
		},
	})
}

// C is the per-case context handed to an interpreter.
type C struct {
	mu         sync.Mutex
	nontrivial bool
	classes    map[string]int
	failures   []string
	cleanups   []func()
	excuse     func() string
	Bubble     bool
}

type caseFailure struct{ msg string }

// IsFailure says whether a recovered panic is a failure reported with Failf.
func IsFailure(r any) bool {
	_, ok := r.(caseFailure)
	return ok
}

// Failf aborts the case: the property does not hold on it.
func (c *C) Failf(format string, args ...any) {
	panic(caseFailure{fmt.Sprintf(format, args...)})
}

// Report records a failure from any goroutine without aborting it.
func (c *C) Report(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.failures) < 20 {
		c.failures = append(c.failures, fmt.Sprintf(format, args...))
	}
}

// Check aborts the case if some goroutine has called Report.
func (c *C) Check() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.failures) > 0 {
		panic(caseFailure{strings.Join(c.failures, "\n")})
	}
}

// NonTrivial marks the case as non-trivial by the sub's stated rule.
func (c *C) NonTrivial() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// Class counts the case (possibly several times) under a label.
func (c *C) Class(name string) { c.mu.Lock(); c.classes[name]++; c.mu.Unlock() }

// Cleanup runs f at the end of the case, last in first out.
func (c *C) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// Excuse is asked about a case that failed: if f names a reason why the case
// has no verdict, that is counted as a class and the failure is dropped.
func (c *C) Excuse(f func() string) { c.excuse = f }

// Patience is how long to wait for what should have happened at once: long
// the first time, and less while a failure is made smaller.
func Patience(d time.Duration) time.Duration {
	if failing.Load() {
		return d / 10
	}
	return d
}

// Alive says that a case that takes long is not stuck.
func (c *C) Alive() { progress.Add(1) }

// Wait returns when every other goroutine of the case is durably blocked
// (bubble subs only).
func (c *C) Wait() { synctest.Wait() }

// Stats is what a worker process writes for the driver.
type Stats struct {
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	EarlyStop   bool           `json:"early_stop"`
	Wall        float64        `json:"wall"`
}

// Failure is the content of a replay file.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Plan     json.RawMessage `json:"plan"`
}

var (
	progress   atomic.Int64
	stopShrink atomic.Bool
	stopEarly  atomic.Bool
	failing    atomic.Bool
	workDir    string
)

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	n, err := strconv.Atoi(env(k, ""))
	if err != nil {
		return def
	}
	return n
}

// mix derives a non-zero seed from parts.
func mix(parts ...string) uint64 {
	h := sha256.Sum256([]byte(strings.Join(parts, "\x00")))
	v := binary.BigEndian.Uint64(h[:8]) >> 1
	if v == 0 {
		v = 1
	}
	return v
}

// Main is the TestMain of every harness package.
func Main(m *testing.M) {
	if os.Getenv("PBT_MODE") == "list" {
		type l struct {
			ID, Name        string
			Shards          int
			Race, Known     bool
			Quick, Thorough int
			Rule            string
		}
		var out []l
		for _, s := range subs {
			out = append(out, l{s.ID, s.Name, s.Opt.Shards, s.Opt.Race, s.Opt.Known, s.Opt.Quick, s.Opt.Thorough, s.Opt.Rule})
		}
		_ = json.NewEncoder(os.Stdout).Encode(out)
		os.Exit(0)
	}
	flag.Parse()
	// A pending panic exits with 2 by itself.
	os.Exit(m.Run())
}

// tbShim lets rapid run without a *testing.T.
type tbShim struct {
	failed bool
	msgs   []string
}

func (t *tbShim) Helper()                   {}
func (t *tbShim) Name() string              { return "pbt" }
func (t *tbShim) Logf(f string, a ...any)   { t.msgs = append(t.msgs, fmt.Sprintf(f, a...)) }
func (t *tbShim) Log(a ...any)              { t.msgs = append(t.msgs, fmt.Sprint(a...)) }
func (t *tbShim) Skipf(f string, a ...any)  { t.Logf(f, a...) }
func (t *tbShim) Skip(a ...any)             { t.Log(a...) }
func (t *tbShim) SkipNow()                  {}
func (t *tbShim) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tbShim) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tbShim) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(shimStop{}) }
func (t *tbShim) Fatal(a ...any)            { t.Error(a...); panic(shimStop{}) }
func (t *tbShim) FailNow()                  { t.failed = true; panic(shimStop{}) }
func (t *tbShim) Fail()                     { t.failed = true }
func (t *tbShim) Failed() bool              { return t.failed }

type shimStop struct{}

// RunAll is called by the one Test function of a harness package.
func RunAll(t *testing.T) {
	id, name := os.Getenv("PBT_ID"), os.Getenv("PBT_SUB")
	if id == "" {
		t.Skip("PBT_ID not set")
	}
	workDir = env("PBT_WORK", os.TempDir())
	var s *sub
	for _, x := range subs {
		if x.ID == id && x.Name == name {
			s = x
		}
	}
	if s == nil {
		t.Fatalf("no sub %s/%s", id, name)
	}
	start := time.Now()
	startWatchdog()
	code := 0
	body := func() {
		if f := os.Getenv("PBT_REPLAY"); f != "" {
			code = s.replay(f)
		} else {
			code = s.explore(start)
		}
	}
	if s.Opt.Bubble {
		synctest.Test(t, func(t *testing.T) {
			body()
			os.Exit(code) // leaked goroutines of abandoned stores must not end the bubble
		})
	} else {
		body()
		os.Exit(code)
	}
}

// CurrentPlan is where the case being run is noted, for crashes.
func currentFile() string { return filepath.Join(workDir, "current.json") }

var curF *os.File

func noteCurrent(b []byte) {
	if curF == nil {
		f, err := os.OpenFile(currentFile(), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			return
		}
		curF = f
	}
	_ = curF.Truncate(0)
	_, _ = curF.WriteAt(b, 0)
}

func (s *sub) runOne(plan any) (c *C, failure string) {
	c = &C{classes: map[string]int{}, Bubble: s.Opt.Bubble}
	defer func() {
		if failure != "" && c.excuse != nil {
			if why := c.excuse(); why != "" {
				failure = ""
				c.Class("no verdict: " + why)
			}
		}
	}()
	defer func() {
		// Cleanups run with the same protection as the case.
		for i := len(c.cleanups) - 1; i >= 0; i-- {
			func() {
				defer func() {
					if r := recover(); r != nil && failure == "" {
						failure = describe(r)
					}
				}()
				c.cleanups[i]()
			}()
		}
		progress.Add(1)
	}()
	defer func() {
		if r := recover(); r != nil {
			failure = describe(r)
		}
	}()
	s.run(c, plan)
	c.Check()
	return c, ""
}

func describe(r any) string {
	if f, ok := r.(caseFailure); ok {
		return f.msg
	}
	return fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
}

func (s *sub) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	plan, err := s.decode(f.Plan)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	noteCurrent(f.Plan)
	n := envInt("PBT_REPEAT", 1)
	for i := 0; i < n; i++ {
		if _, msg := s.runOne(plan); msg != "" {
			fmt.Printf("REPLAY-FAILED: %s\n", msg)
			return ExitViolated
		}
	}
	fmt.Println("REPLAY-OK")
	return 0
}

func (s *sub) explore(start time.Time) int {
	tier := env("VERIF_TIER", "quick")
	seed := env("VERIF_SEED", "1")
	shard, shards := envInt("PBT_SHARD", 0), envInt("PBT_SHARDS", 1)
	total := s.Opt.Quick
	if tier == "thorough" {
		total = s.Opt.Thorough
		if total == 0 {
			total = 10 * s.Opt.Quick
		}
	}
	n := total / shards
	if shard < total%shards {
		n++
	}
	if n == 0 {
		n = 1
	}
	rseed := mix(seed, s.ID, s.Name, strconv.Itoa(shard))
	_ = flag.Set("rapid.seed", strconv.FormatUint(rseed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	_ = flag.Set("rapid.nofailfile", "true")
	// In a bubble the clock is fake; the watchdog ends shrinking in real time.
	_ = flag.Set("rapid.shrinktime", map[bool]string{false: "60s", true: "23h"}[s.Opt.Bubble])

	st := &Stats{Sub: s.Name, Classes: map[string]int{}, Rule: s.Opt.Rule}
	distinct := map[uint64]bool{}
	var best, first *Failure
	tb := &tbShim{}
	// rapid gives up after a day of the clock it sees, which is fake in a
	// bubble, so it is run again until the cases are used up.
	for round := 0; round < 10000 && !tb.failed && st.Evaluations < n && !st.EarlyStop; round++ {
		if round > 0 {
			_ = flag.Set("rapid.seed", strconv.FormatUint(mix(seed, s.ID, s.Name, strconv.Itoa(shard), strconv.Itoa(round)), 10))
			_ = flag.Set("rapid.checks", strconv.Itoa(n-st.Evaluations))
		}
		s.check(tb, func(rt *rapid.T) {
			plan := s.gen(rt)
			if stopEarly.Load() || (failing.Load() && stopShrink.Load()) {
				st.EarlyStop = st.EarlyStop || !failing.Load()
				return
			}
			b, err := json.Marshal(plan)
			if err != nil {
				panic(fmt.Sprintf("plan is not serialisable: %v", err))
			}
			noteCurrent(b)
			// Run the decoded plan, so that what is judged is what replays.
			plan2, err := s.decode(b)
			if err != nil {
				panic(fmt.Sprintf("plan does not decode: %v", err))
			}
			c, msg := s.runOne(plan2)
			if !failing.Load() {
				st.Evaluations++
				for k, v := range c.classes {
					st.Classes[k] += v
				}
				if c.nontrivial {
					st.NonTrivial++
					h := sha256.Sum256(b)
					distinct[binary.BigEndian.Uint64(h[:8])] = true
					if len(st.Samples) < 3 || (st.NonTrivial%97 == 0 && len(st.Samples) < 6) {
						if len(b) < 6000 {
							var v any
							_ = json.Unmarshal(b, &v)
							st.Samples = append(st.Samples, v)
						}
					}
				}
			}
			if msg != "" {
				f := &Failure{s.ID, s.Name, "failed", msg, rseed, b}
				if first == nil {
					first = f
				}
				if best == nil || len(b) <= len(best.Plan) {
					best = f
					writeJSON(filepath.Join(workDir, "failure.json"), f)
				}
				failing.Store(true)
				rt.Fatalf("property does not hold")
			}
		})
	}
	for h := range distinct {
		st.Distinct = append(st.Distinct, h)
	}
	sort.Slice(st.Distinct, func(i, j int) bool { return st.Distinct[i] < st.Distinct[j] })
	writeJSON(filepath.Join(workDir, "stats.json"), st)
	if best != nil {
		return ExitViolated
	}
	if tb.failed {
		// rapid itself is unhappy (for example too much filtering): a harness error.
		fmt.Fprintln(os.Stderr, strings.Join(tb.msgs, "\n"))
		return 3
	}
	return 0
}

// check runs rapid without a *testing.T.
func (s *sub) check(tb *tbShim, prop func(*rapid.T)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(shimStop); !ok {
				panic(r)
			}
		}
	}()
	rapid.Check(tb, prop)
}

func writeJSON(file string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		tmp := file + ".tmp"
		if os.WriteFile(tmp, b, 0o644) == nil {
			_ = os.Rename(tmp, file)
		}
	}
}

// startWatchdog starts the goroutines that live outside any bubble: one bounds
// the whole run, one notices a case that makes no progress.
func startWatchdog() {
	stuckAfter := time.Duration(envInt("PBT_STUCK_S", 40)) * time.Second
	soft := time.Duration(envInt("PBT_SOFT_S", 240)) * time.Second
	shrink := time.Duration(envInt("PBT_SHRINK_S", 12)) * time.Second
	go func() {
		begin := time.Now()
		last, lastAt := int64(-1), time.Now()
		var failedAt time.Time
		blocked := 0
		for {
			time.Sleep(500 * time.Millisecond)
			now := time.Now()
			if now.Sub(begin) > soft {
				stopEarly.Store(true)
			}
			if failing.Load() {
				if failedAt.IsZero() {
					failedAt = now
				} else if now.Sub(failedAt) > shrink {
					stopShrink.Store(true)
				}
			}
			if p := progress.Load(); p != last {
				last, lastAt, blocked = p, now, 0
				continue
			}
			if now.Sub(lastAt) < stuckAfter {
				continue
			}
			dump := stacks()
			if allBlocked(dump) {
				blocked++
			} else {
				blocked = 0
			}
			if blocked >= 6 {
				fmt.Fprintf(os.Stderr, "HANG: every goroutine of the case is blocked\n%s\n", dump)
				_ = os.WriteFile(filepath.Join(workDir, "hang.txt"), dump, 0o644)
				os.Exit(ExitHang)
			}
			if now.Sub(lastAt) > 6*stuckAfter {
				fmt.Fprintf(os.Stderr, "STUCK: no progress\n%s\n", dump)
				os.Exit(ExitStuck)
			}
		}
	}()
}

func stacks() []byte {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) || len(buf) > 1<<27 {
			return buf[:n]
		}
		buf = make([]byte, 2*len(buf))
	}
}

var gorHead = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ )?(?:m=\S+ )?(?:mp=\S+ )?\[([^\]]*)\]:`)

// allBlocked says whether no goroutine but the watchdog can run by itself.
func allBlocked(dump []byte) bool {
	for _, part := range bytes.Split(dump, []byte("\n\n")) {
		m := gorHead.FindSubmatch(part)
		if m == nil || bytes.Contains(part, []byte("pbt.startWatchdog.func1")) {
			continue
		}
		state := string(m[1])
		for _, live := range []string{"running", "runnable", "syscall", "GC ", "force gc"} {
			if strings.HasPrefix(state, live) {
				return false
			}
		}
	}
	return true
}
