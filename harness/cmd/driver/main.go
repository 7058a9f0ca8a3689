// Command driver decides one property: it builds the harness packages that
// hold the property's subs against /repo's working tree, runs them in worker
// processes, and turns what they report into evidence, replay files and the
// exit code.
//
//	driver <property> <quick|thorough>
//	driver replay <file>
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// packages holding the subs of each property.
var packages = map[string][]string{}

type propConf struct {
	Packages    []string `json:"packages"`
	Level       string   `json:"level"`
	Assumptions []string `json:"assumptions"`
}

type listed struct {
	ID, Name        string
	Shards          int
	Race, Known     bool
	Quick, Thorough int
	Rule            string
}

type stats struct {
	Sub         string         `json:"sub"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	EarlyStop   bool           `json:"early_stop"`
	Wall        float64        `json:"wall"`
}

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Kind     string          `json:"kind"`
	Message  string          `json:"message"`
	Seed     uint64          `json:"seed"`
	Plan     json.RawMessage `json:"plan"`
	Package  string          `json:"package"`
	Race     bool            `json:"race"`
}

type job struct {
	pkg    string
	s      listed
	shard  int
	bin    string
	dir    string
	status string // ok, violated, error
	fail   *failure
	st     *stats
	note   string
}

var (
	root    string // /verif
	harness string
	scratch string
)

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	if scratch != "" {
		_ = os.RemoveAll(scratch)
	}
	os.Exit(2)
}

func main() {
	if len(os.Args) < 3 {
		die("usage: driver <property> <quick|thorough> | driver replay <file>")
	}
	harness = os.Getenv("PBT_HARNESS")
	root = filepath.Dir(harness)
	var err error
	scratch, err = mkScratch()
	if err != nil {
		die("%v", err)
	}
	if os.Args[1] == "replay" {
		code := replayMain(os.Args[2])
		_ = os.RemoveAll(scratch)
		os.Exit(code)
	}
	if os.Args[1] == "setup" {
		// Only warms the build cache: every check builds what it needs.
		done := map[string]bool{}
		for _, c := range conf() {
			for _, p := range c.Packages {
				if !done[p] {
					done[p] = true
					for _, race := range []bool{false, true} {
						if _, err := build(p, race); err != nil {
							die("%v", err)
						}
					}
				}
			}
		}
		_ = os.RemoveAll(scratch)
		return
	}
	code := run(os.Args[1], os.Args[2])
	_ = os.RemoveAll(scratch)
	os.Exit(code)
}

func mkScratch() (string, error) {
	for _, base := range []string{"/dev/shm", os.TempDir()} {
		d, err := os.MkdirTemp(base, "verif-")
		if err == nil {
			return d, nil
		}
	}
	return "", fmt.Errorf("no scratch directory")
}

func conf() map[string]propConf {
	b, err := os.ReadFile(filepath.Join(harness, "props.json"))
	if err != nil {
		die("%v", err)
	}
	m := map[string]propConf{}
	if err := json.Unmarshal(b, &m); err != nil {
		die("props.json: %v", err)
	}
	return m
}

// build compiles a harness package into a test binary.
func build(pkg string, race bool) (string, error) {
	out := filepath.Join(scratch, strings.ReplaceAll(pkg, "/", "_"))
	// A package that is a module of its own is built from its own directory.
	dir, target := harness, "./"+pkg
	if _, err := os.Stat(filepath.Join(harness, pkg, "go.mod")); err == nil {
		dir, target = filepath.Join(harness, pkg), "."
	}
	args := []string{"test", "-c", "-vet=off"}
	if race {
		out += "_race"
		args = append(args, "-race")
	}
	out += ".test"
	args = append(args, "-o", out, target)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, b)
	}
	return out, nil
}

func list(bin string) ([]listed, error) {
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "PBT_MODE=list")
	b, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	var l []listed
	return l, json.Unmarshal(b, &l)
}

func run(id, tier string) int {
	start := time.Now()
	c, ok := conf()[id]
	if !ok {
		die("unknown property %s", id)
	}
	seed := 1
	if n, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = n
	}
	os.Setenv("VERIF_SEED", strconv.Itoa(seed))
	os.Setenv("VERIF_TIER", tier)

	var jobs []*job
	for _, pkg := range c.Packages {
		bin, err := build(pkg, false)
		if err != nil {
			die("%v", err)
		}
		l, err := list(bin)
		if err != nil {
			die("list %s: %v", pkg, err)
		}
		var raceBin string
		for _, s := range l {
			if s.ID != id {
				continue
			}
			if only := os.Getenv("PBT_ONLY"); only != "" && only != s.Name {
				continue
			}
			b := bin
			if s.Race {
				if raceBin == "" {
					if raceBin, err = build(pkg, true); err != nil {
						die("%v", err)
					}
				}
				b = raceBin
			}
			n := s.Shards
			if tier == "thorough" && n > 1 {
				n = max(n, 8)
			}
			s.Shards = n
			for i := 0; i < n; i++ {
				jobs = append(jobs, &job{pkg: pkg, s: s, shard: i, bin: b})
			}
		}
	}
	if len(jobs) == 0 {
		die("no subs for %s", id)
	}
	buildS := time.Since(start).Seconds()

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sem := make(chan struct{}, envInt("PBT_JOBS", 8))
	var wg sync.WaitGroup
	for i, j := range jobs {
		j.dir = filepath.Join(scratch, fmt.Sprintf("job%d", i))
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				j.status = "skipped"
				return
			}
			work(ctx, j, tier)
			if j.status == "error" && ctx.Err() == nil {
				first := j.note
				work(ctx, j, tier)
				if j.status == "error" {
					j.note = first + "\n-- retried --\n" + j.note
				}
			}
			if j.status == "violated" && os.Getenv("PBT_ALL") == "" {
				cancel()
			}
		}()
	}
	wg.Wait()

	var violations []*failure
	seen := map[string]bool{}
	var errs []string
	for _, j := range jobs {
		switch j.status {
		case "violated":
			if !seen[j.s.Name] {
				seen[j.s.Name] = true
				violations = append(violations, j.fail)
			}
		case "error":
			errs = append(errs, fmt.Sprintf("%s/%s shard %d: %s", id, j.s.Name, j.shard, j.note))
		}
	}
	writeEvidence(id, tier, seed, c, jobs, len(violations), start, buildS)
	for _, k := range knownLines(id) {
		fmt.Println(k)
	}
	for _, f := range violations {
		path := saveReplay(f)
		fmt.Printf("--- %s/%s (%s):\n%s\nplan: %s\n", id, f.Sub, f.Kind, clip(f.Message, 4000), clip(string(f.Plan), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	if len(violations) > 0 {
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, clip(strings.Join(errs, "\n"), 20000))
		return 2
	}
	fmt.Printf("OK property=%s tier=%s seed=%d wall=%.1fs (build %.1fs)\n", id, tier, seed, time.Since(start).Seconds(), buildS)
	return 0
}

func envInt(k string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return def
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func workerEnv(j *job, extra ...string) []string {
	e := append(os.Environ(),
		"PBT_ID="+j.s.ID, "PBT_SUB="+j.s.Name,
		fmt.Sprintf("PBT_SHARD=%d", j.shard), fmt.Sprintf("PBT_SHARDS=%d", j.s.Shards),
		"PBT_WORK="+j.dir, "TMPDIR="+j.dir,
		"GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0",
		"GOTRACEBACK=all",
	)
	return append(e, extra...)
}

func work(ctx context.Context, j *job, tier string) {
	_ = os.RemoveAll(j.dir)
	if err := os.MkdirAll(j.dir, 0o755); err != nil {
		j.status, j.note = "error", err.Error()
		return
	}
	hard, soft := 420*time.Second, "200"
	if tier == "thorough" {
		hard, soft = 2*time.Hour, "3000"
	}
	code, out := exe(ctx, j.bin, hard, workerEnv(j, "PBT_SOFT_S="+soft))
	j.st = nil
	if b, err := os.ReadFile(filepath.Join(j.dir, "stats.json")); err == nil {
		var st stats
		if json.Unmarshal(b, &st) == nil {
			j.st = &st
		}
	}
	if ctx.Err() != nil && code < 0 {
		j.status = "skipped"
		return
	}
	j.status, j.fail, j.note = classify(j, code, out)
	if j.status == "violated" && j.fail.Kind != "failed" {
		minimise(ctx, j)
	}
	// Scratch data of finished workers is not needed any more.
	ents, _ := os.ReadDir(j.dir)
	for _, e := range ents {
		if e.IsDir() {
			_ = os.RemoveAll(filepath.Join(j.dir, e.Name()))
		}
	}
}

// classify maps the way a worker ended to an outcome.
func classify(j *job, code int, out string) (string, *failure, string) {
	if b, err := os.ReadFile(filepath.Join(j.dir, "failure.json")); err == nil {
		var f failure
		if json.Unmarshal(b, &f) == nil {
			f.Package, f.Race = j.pkg, j.s.Race
			return "violated", &f, ""
		}
	}
	if code == 0 {
		return "ok", nil, ""
	}
	plan, _ := os.ReadFile(filepath.Join(j.dir, "current.json"))
	f := &failure{Property: j.s.ID, Sub: j.s.Name, Plan: plan, Package: j.pkg, Race: j.s.Race}
	resource := []string{"out of memory", "cannot allocate memory", "too many open files", "no space left", "pthread_create failed", "newosproc", "resource temporarily unavailable"}
	for _, r := range resource {
		if strings.Contains(out, r) {
			return "error", nil, fmt.Sprintf("exit %d: %s", code, clip(out, 4000))
		}
	}
	switch {
	case !json.Valid(plan):
	case code == 77:
		f.Kind, f.Message = "hang", "the case never finishes: every goroutine is blocked\n"+clip(out, 20000)
		return "violated", f, ""
	case code == 66 && strings.Contains(out, "DATA RACE"):
		f.Kind, f.Message = "race", clip(out, 20000)
		return "violated", f, ""
	case code == 2 && (strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ")):
		f.Kind, f.Message = "crash", clip(out, 20000)
		return "violated", f, ""
	case code == 1 && strings.Contains(out, "REPLAY-FAILED: "):
		f.Kind, f.Message = "failed", clip(out, 20000)
		return "violated", f, ""
	}
	return "error", nil, fmt.Sprintf("exit %d: %s", code, clip(out, 8000))
}

func exe(ctx context.Context, bin string, hard time.Duration, env []string) (int, string) {
	cctx, cancel := context.WithTimeout(ctx, hard)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, "-test.run=^TestPBT$", "-test.timeout=0")
	cmd.Env = env
	cmd.Dir = scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out limited
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	if err == nil {
		return 0, out.String()
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), out.String()
	}
	return -1, out.String() + err.Error()
}

// limited keeps the first and the last part of what is written.
type limited struct {
	mu         sync.Mutex
	head, tail bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := len(p)
	if room := 256<<10 - l.head.Len(); room > 0 {
		k := min(room, len(p))
		l.head.Write(p[:k])
		p = p[k:]
	}
	l.tail.Write(p)
	if l.tail.Len() > 512<<10 {
		b := append([]byte(nil), l.tail.Bytes()[l.tail.Len()-256<<10:]...)
		l.tail.Reset()
		l.tail.Write(b)
	}
	return n, nil
}

func (l *limited) String() string { return l.head.String() + l.tail.String() }

// minimise removes parts of the plan of a failure that ended the worker
// process (crash, hang, race), replaying each candidate in a process of its own.
func minimise(ctx context.Context, j *job) {
	deadline := time.Now().Add(25 * time.Second)
	if j.fail.Kind == "hang" {
		deadline = time.Now().Add(45 * time.Second)
	}
	fails := func(plan []byte) bool {
		f := *j.fail
		f.Plan = plan
		b, _ := json.Marshal(f)
		file := filepath.Join(j.dir, "candidate.json")
		if os.WriteFile(file, b, 0o644) != nil {
			return false
		}
		_ = os.Remove(filepath.Join(j.dir, "failure.json"))
		rep := "1"
		if j.fail.Kind == "race" {
			rep = "20"
		}
		code, out := exe(ctx, j.bin, 30*time.Second, workerEnv(j, "PBT_REPLAY="+file, "PBT_REPEAT="+rep, "PBT_STUCK_S=5"))
		st, nf, _ := classify(j, code, out)
		return st == "violated" && nf.Kind == j.fail.Kind
	}
	var v any
	d := json.NewDecoder(bytes.NewReader(j.fail.Plan))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return
	}
	for changed := true; changed && time.Now().Before(deadline) && ctx.Err() == nil; {
		changed = false
		for _, cand := range candidates(v) {
			if time.Now().After(deadline) {
				break
			}
			b, err := json.Marshal(cand)
			if err != nil || len(b) >= len(j.fail.Plan) {
				continue
			}
			if fails(b) {
				v, changed = cand, true
				j.fail.Plan = b
				break
			}
		}
	}
}

// candidates returns v with one chunk of one array removed, biggest chunks first.
func candidates(v any) []any {
	var out []any
	type cut struct {
		size int
		val  any
	}
	var cuts []cut
	var walk func(x any, rebuild func(any) any)
	walk = func(x any, rebuild func(any) any) {
		switch t := x.(type) {
		case []any:
			for size := len(t); size >= 1; size /= 2 {
				for i := 0; i+size <= len(t); i += size {
					n := append(append([]any{}, t[:i]...), t[i+size:]...)
					cuts = append(cuts, cut{size, rebuild(n)})
				}
			}
			for i := range t {
				walk(t[i], func(y any) any {
					n := append([]any{}, t...)
					n[i] = y
					return rebuild(n)
				})
			}
		case map[string]any:
			for k := range t {
				walk(t[k], func(y any) any {
					n := map[string]any{}
					for kk, vv := range t {
						n[kk] = vv
					}
					n[k] = y
					return rebuild(n)
				})
			}
		}
	}
	walk(v, func(x any) any { return x })
	sort.SliceStable(cuts, func(a, b int) bool { return cuts[a].size > cuts[b].size })
	for i, c := range cuts {
		if i > 200 {
			break
		}
		out = append(out, c.val)
	}
	return out
}

func saveReplay(f *failure) string {
	dir := filepath.Join(root, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", f.Property, f.Sub))
	b, _ := json.MarshalIndent(f, "", " ")
	_ = os.WriteFile(path, b, 0o644)
	return path
}

// knownLines prints the listed findings of a property.
func knownLines(id string) []string {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" ") {
			out = append(out, "KNOWN-FINDING: "+strings.TrimPrefix(l, "known: "))
		}
	}
	return out
}

func writeEvidence(id, tier string, seed int, c propConf, jobs []*job, violations int, start time.Time, buildS float64) {
	eval, nt := 0, 0
	classes := map[string]map[string]int{}
	rules := map[string]string{}
	perSub := map[string]map[string]any{}
	distinct := map[string]map[uint64]bool{}
	var samples []any
	nsamples := map[string]int{}
	early := false
	for _, j := range jobs {
		if j.s.Known {
			continue
		}
		rules[j.s.Name] = j.s.Rule
		if j.st == nil {
			continue
		}
		eval += j.st.Evaluations
		nt += j.st.NonTrivial
		early = early || j.st.EarlyStop
		if distinct[j.s.Name] == nil {
			distinct[j.s.Name] = map[uint64]bool{}
			classes[j.s.Name] = map[string]int{}
			perSub[j.s.Name] = map[string]any{"evaluations": 0, "non_trivial": 0}
		}
		for _, h := range j.st.Distinct {
			distinct[j.s.Name][h] = true
		}
		for k, v := range j.st.Classes {
			classes[j.s.Name][k] += v
		}
		m := perSub[j.s.Name]
		m["evaluations"] = m["evaluations"].(int) + j.st.Evaluations
		m["non_trivial"] = m["non_trivial"].(int) + j.st.NonTrivial
		for _, s := range j.st.Samples {
			if nsamples[j.s.Name] < 2 {
				nsamples[j.s.Name]++
				samples = append(samples, map[string]any{"sub": j.s.Name, "case": s})
			}
		}
	}
	dn := 0
	var names []string
	for n, d := range distinct {
		dn += len(d)
		perSub[n]["distinct_nontrivial"] = len(d)
		perSub[n]["classes"] = classes[n]
		names = append(names, n)
	}
	sort.Strings(names)
	var rule []string
	for _, n := range names {
		rule = append(rule, n+": "+rules[n])
	}
	if len(samples) == 0 {
		samples = []any{"no non-trivial case completed"}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": map[string]any{
			"evaluations":         eval,
			"distinct_nontrivial": dn,
			"rule":                strings.Join(rule, " | "),
			"samples":             samples,
			"subs":                perSub,
			"stopped_by_time":     early,
		},
		"assumptions": c.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), b, 0o644); err != nil {
		die("evidence: %v", err)
	}
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		die("%v", err)
	}
	bin, err := build(f.Package, f.Race)
	if err != nil {
		die("%v", err)
	}
	abs, _ := filepath.Abs(file)
	j := &job{pkg: f.Package, s: listed{ID: f.Property, Name: f.Sub, Shards: 1, Race: f.Race}, bin: bin, dir: filepath.Join(scratch, "replay")}
	_ = os.MkdirAll(j.dir, 0o755)
	rep := "1"
	if f.Kind == "race" {
		rep = "50"
	}
	code, out := exe(context.Background(), bin, 10*time.Minute, workerEnv(j, "PBT_REPLAY="+abs, "PBT_REPEAT="+rep, "PBT_STUCK_S=15"))
	fmt.Println(clip(out, 20000))
	st, _, note := classify(j, code, out)
	switch st {
	case "violated":
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
		return 1
	case "ok":
		return 0
	}
	fmt.Fprintln(os.Stderr, note)
	return 2
}
