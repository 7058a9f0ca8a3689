package app

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// SStep is one step with a snapshot store on disk.
type SStep struct {
	Op    string `json:"op"` // save, load, reopen
	P     int    `json:"p"`  // projection
	Size  int    `json:"n"`
	Chunk int    `json:"chunk"`
	Fail  string `json:"fail,omitempty"` // error, panic, full
	At    int    `json:"at,omitempty"`   // where it fails
	Spy   bool   `json:"spy,omitempty"`  // look at every point between two writes
}

// SnapPlan is a history of saves and loads.
type SnapPlan struct {
	Names []string `json:"names"`
	Steps []SStep  `json:"steps"`
}

func genSnapPlan(t *rapid.T) SnapPlan {
	p := SnapPlan{Names: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "A", "b", "ab", "AB", "AggregateTypeStats", "a.snap", "a.tmp", "a.snap.tmp", "a b", "é", ".", "-", "a*", "%s", "..a", "a.b", "tmp", strings.Repeat("long-", 50)}), 1, 4, rapid.ID[string]).Draw(t, "names")}
	p.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SStep {
		s := SStep{
			Op:    rapid.SampledFrom([]string{"save", "save", "save", "load", "reopen"}).Draw(t, "op"),
			P:     rapid.IntRange(0, len(p.Names)-1).Draw(t, "p"),
			Size:  rapid.SampledFrom([]int{0, 1, 10, 100, 4096, 5000, 40000}).Draw(t, "size"),
			Chunk: rapid.SampledFrom([]int{1000, 7, 4096, 100000}).Draw(t, "chunk"),
		}
		if s.Op == "save" {
			s.Fail = rapid.SampledFrom([]string{"", "", "", "error", "panic", "full"}).Draw(t, "fail")
			s.At = rapid.SampledFrom([]int{0, 1, 7, 50, 1000, 4096, 4999}).Draw(t, "at")
			s.Spy = rapid.IntRange(0, 2).Draw(t, "spy") == 0
		}
		return s
	}), 2, 10).Draw(t, "steps")
	return p
}

var errSnap = errors.New("cannot write state")

// state is a projection whose state is some bytes.
type state struct {
	name  string
	data  []byte
	chunk int
	at    int // fails before byte at; negative: never
	panic bool
	spy   func(written int)

	loaded  []byte
	wasRead bool
}

func (s *state) SnapshotName() string { return s.name }

func (s *state) SaveSnapshot(w io.Writer) error {
	for i := 0; ; {
		if s.spy != nil {
			s.spy(i)
		}
		if s.at >= 0 && i >= s.at {
			if s.panic {
				panic(errSnap)
			}
			return errSnap
		}
		if i >= len(s.data) {
			return nil
		}
		to := min(i+s.chunk, len(s.data))
		if s.at >= 0 {
			to = min(to, s.at)
		}
		n, err := w.Write(s.data[i:to])
		if err != nil {
			return err
		}
		if n != to-i {
			return io.ErrShortWrite
		}
		i = to
	}
}

// LoadFromSnapshot takes any bytes, so that only the store can tell a partial snapshot.
func (s *state) LoadFromSnapshot(r io.Reader) error {
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	s.loaded, s.wasRead = b, true
	return nil
}

func content(version, size int) []byte {
	b := bytes.Repeat([]byte(fmt.Sprintf("<state %d>", version)), size/8+1)
	return b[:size]
}

func init() {
	pbt.Reg("C29", "histories", pbt.Opt{Quick: 12000, Thorough: 400000, Shards: 4,
		Rule: "a case is a history of saves and loads of several projections, where saves fail while the state is written, are cut off (also by looking at a copy of the directory at every point between two writes), or find the disk full; non-trivial when a save failed or was looked at and there was a snapshot before"},
		genSnapPlan, runSnapshots)
	pbt.Reg("C29", "races", pbt.Opt{Quick: 1200, Thorough: 30000, Shards: 4, Race: true,
		Rule: "a case is several goroutines saving and loading the statistics projection while it counts; non-trivial when a load finds a snapshot other than the last one that was saved"},
		genSnapRace, runSnapRace)
	pbt.Reg("C29", "rivals", pbt.Opt{Quick: 1500, Thorough: 40000, Shards: 4, Race: true,
		Rule: "a case is several stores on one directory saving and loading one projection at the same time, each with its own state; non-trivial when two saves overlap"},
		genRivals, runRivals)
	pbt.Reg("C29", "shared", pbt.Opt{Quick: 3000, Thorough: 60000, Shards: 4, Race: true,
		Rule: "a case is several goroutines saving and loading different projections, some of them failing halfway, through one or several stores on one directory; non-trivial when two saves overlap"},
		genSharedPlan, runShared)
	signal.Ignore(syscall.SIGXFSZ)
}

var diskMu sync.Mutex

// withFullDisk runs f while files cannot grow beyond n bytes.
func withFullDisk(n int, f func()) {
	diskMu.Lock()
	defer diskMu.Unlock()
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return
	}
	now := old
	now.Cur = uint64(n)
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now) != nil {
		return
	}
	defer func() { _ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }()
	f()
}

func runSnapshots(c *pbt.C, p SnapPlan) {
	dir := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	store := projection.NewDiskSnapshotStore(dir)
	saved := map[string][]byte{}
	// verify loads a projection and compares it with the last complete save.
	verify := func(what string, d interface {
		Load(projection.SnapshotProjection) error
	}, name string) {
		s := &state{name: name}
		err := d.Load(s)
		want, ok := saved[name]
		switch {
		case !ok && err == nil:
			c.Failf("%s: %q loads as %d bytes %.40q, it was never saved", what, name, len(s.loaded), s.loaded)
		case ok && err != nil:
			c.Failf("%s: %q cannot be loaded: %v", what, name, err)
		case ok && (!s.wasRead || !bytes.Equal(s.loaded, want)):
			c.Failf("%s: %q loads as %d bytes %.40q, last saved were %d bytes %.40q", what, name, len(s.loaded), s.loaded, len(want), want)
		}
	}
	for i, step := range p.Steps {
		name := p.Names[step.P]
		what := fmt.Sprintf("step %d: %s %s", i, step.Op, step.Fail)
		switch step.Op {
		case "reopen":
			store = projection.NewDiskSnapshotStore(dir)
		case "save":
			s := &state{name: name, data: content(i, step.Size), chunk: step.Chunk, at: -1}
			_, before := saved[name]
			if step.Spy && step.Size <= 5000 && step.Chunk >= 1000 {
				s.spy = func(written int) {
					// A crash here leaves what is in the directory now.
					verify(fmt.Sprintf("%s, after %d bytes", what, written), store, name)
					cut := kit.ScratchDir()
					defer os.RemoveAll(cut)
					copyDir(dir, cut)
					again := projection.NewDiskSnapshotStore(cut)
					for _, n := range p.Names {
						verify(fmt.Sprintf("%s, cut off after %d bytes", what, written), again, n)
					}
					// It does not stop the next save either.
					v := &state{name: name, data: []byte("next"), chunk: 10, at: -1}
					if err := again.Save(v); err != nil {
						c.Failf("%s, cut off after %d bytes: the next save fails: %v", what, written, err)
					}
					got := &state{name: name}
					if err := again.Load(got); err != nil || string(got.loaded) != "next" {
						c.Failf("%s, cut off after %d bytes: the next save is loaded as %.40q, %v", what, written, got.loaded, err)
					}
					if before {
						c.NonTrivial()
					}
				}
				c.Class("looked at between writes")
			}
			var err error
			fails := false
			save := func() {
				defer func() {
					if r := recover(); r != nil {
						if r != any(errSnap) {
							panic(r)
						}
						err = errSnap
					}
				}()
				err = store.Save(s)
			}
			switch step.Fail {
			case "error", "panic":
				if step.At <= step.Size {
					s.at, s.panic, fails = step.At, step.Fail == "panic", true
				}
				save()
			case "full":
				fails = step.Size > step.At
				s.spy = nil
				withFullDisk(step.At, save)
			default:
				save()
			}
			if fails && before {
				c.NonTrivial()
			}
			if fails {
				c.Class("failing save: " + step.Fail)
				if err == nil {
					c.Failf("%s: a save that failed after %d of %d bytes reports no error", what, step.At, step.Size)
				}
			} else {
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				saved[name] = s.data
			}
		}
		for _, n := range p.Names {
			verify(what, store, n)
		}
	}
}

func copyDir(from, to string) {
	entries, _ := os.ReadDir(from)
	for _, e := range entries {
		if b, err := os.ReadFile(filepath.Join(from, e.Name())); err == nil {
			_ = os.WriteFile(filepath.Join(to, e.Name()), b, 0o644)
		}
	}
}

// SnapRace is a projection saved and loaded by several goroutines.
type SnapRace struct {
	Seed  uint64 `json:"seed"`
	Saves []int  `json:"saves"` // per goroutine
	Loads []int  `json:"loads"`
}

func genSnapRace(t *rapid.T) SnapRace {
	return SnapRace{
		Seed:  uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")),
		Saves: rapid.SliceOfN(rapid.IntRange(1, 8), 1, 3).Draw(t, "saves"),
		Loads: rapid.SliceOfN(rapid.IntRange(1, 12), 1, 3).Draw(t, "loads"),
	}
}

func runSnapRace(c *pbt.C, p SnapRace) {
	y := &kit.Yielder{Seed: p.Seed}
	dir := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	store := projection.NewDiskSnapshotStore(dir)
	stats := projection.NewAggregateTypeStats()
	feed := func(n int) {
		for j := 0; j < n; j++ {
			// Both types take turns, so that a state is known from its total.
			stats.Accept(&rangedb.Record{AggregateType: []string{"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "b"}[stats.TotalEvents()%2], GlobalSequenceNumber: stats.TotalEvents() + 1})
		}
	}
	feed(1)
	if err := store.Save(stats); err != nil {
		c.Failf("%v", err)
	}
	var least atomic.Uint64 // a snapshot of so many events was saved completely
	least.Store(1)
	var feeding, wg sync.WaitGroup
	var done atomic.Bool
	feeding.Add(1)
	go func() {
		defer feeding.Done()
		for n := 0; !done.Load() && n < 3000; n++ {
			feed(1)
			y.Yield()
		}
	}()
	one := len(p.Saves) == 1
	for _, n := range p.Saves {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				y.Yield()
				before := stats.TotalEvents()
				if err := store.Save(stats); err != nil {
					c.Report("save: %v", err)
				}
				if one { // with several savers an older state may replace a newer one
					least.Store(before)
				}
			}
		}()
	}
	for _, n := range p.Loads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < n; j++ {
				y.Yield()
				want := least.Load()
				got := projection.NewAggregateTypeStats()
				if err := store.Load(got); err != nil {
					c.Report("load: %v", err)
					continue
				}
				total := got.TotalEvents()
				if total != got.LatestGlobalSequenceNumber() || got.TotalEventsByAggregateType("b") != total/2 || got.TotalEventsByAggregateType("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa") != total-total/2 {
					c.Report("a snapshot of %d events counts %d and %d, latest %d", total, got.TotalEventsByAggregateType("a"), got.TotalEventsByAggregateType("b"), got.LatestGlobalSequenceNumber())
				}
				if total < want {
					c.Report("a snapshot of %d events, one of %d was saved before", total, want)
				}
				if total > 1 {
					c.NonTrivial()
				}
			}
		}()
	}
	wg.Wait()
	done.Store(true)
	feeding.Wait()
	if err := store.Save(stats); err != nil {
		c.Report("%v", err)
	}
	got := projection.NewAggregateTypeStats()
	if err := store.Load(got); err != nil || got.TotalEvents() != stats.TotalEvents() {
		c.Report("the last snapshot has %d events of %d (%v)", got.TotalEvents(), stats.TotalEvents(), err)
	}
	c.Check()
}

// SharedPlan has one goroutine for each projection.
type SharedPlan struct {
	Seed   uint64    `json:"seed"`
	Names  []string  `json:"names"`
	Stores int       `json:"stores"`
	Steps  [][]SStep `json:"steps"`
}

func genSharedPlan(t *rapid.T) SharedPlan {
	p := SharedPlan{
		Seed:   uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")),
		Names:  rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "A", "b", "ab", "a.snap", "a.tmp", "a.snap.tmp", "a b", "tmp", "snapshot", "."}), 2, 4, rapid.ID[string]).Draw(t, "names"),
		Stores: rapid.IntRange(1, 3).Draw(t, "stores"),
	}
	for range p.Names {
		p.Steps = append(p.Steps, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SStep {
			s := SStep{
				Op:    rapid.SampledFrom([]string{"save", "save", "save", "load"}).Draw(t, "op"),
				Size:  rapid.SampledFrom([]int{0, 1, 10, 100, 5000}).Draw(t, "size"),
				Chunk: rapid.SampledFrom([]int{7, 1000, 4096}).Draw(t, "chunk"),
			}
			if s.Op == "save" {
				s.Fail = rapid.SampledFrom([]string{"", "", "", "error", "panic"}).Draw(t, "fail")
				s.At = rapid.IntRange(0, s.Size).Draw(t, "at")
			}
			return s
		}), 2, 8).Draw(t, "steps"))
	}
	return p
}

func runShared(c *pbt.C, p SharedPlan) {
	y := &kit.Yielder{Seed: p.Seed}
	dir := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	stores := []interface {
		Save(projection.SnapshotProjection) error
		Load(projection.SnapshotProjection) error
	}{}
	for i := 0; i < p.Stores; i++ {
		stores = append(stores, projection.NewDiskSnapshotStore(dir))
	}
	var wg sync.WaitGroup
	var saving atomic.Int64
	for i, steps := range p.Steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			name, store := p.Names[i], stores[i%p.Stores]
			var saved []byte
			ever := false
			for j, step := range steps {
				what := fmt.Sprintf("%q, step %d", name, j)
				y.Yield()
				if step.Op == "save" {
					s := &state{name: name, data: append([]byte(name), content(j, step.Size)...), chunk: step.Chunk, at: -1, spy: func(int) { y.Yield() }}
					if step.Fail != "" {
						s.at, s.panic = step.At, step.Fail == "panic"
					}
					if saving.Add(1) > 1 {
						c.NonTrivial()
					}
					err := func() (err error) {
						defer func() {
							if r := recover(); r != nil {
								if r != any(errSnap) {
									panic(r)
								}
								err = errSnap
							}
						}()
						return store.Save(s)
					}()
					saving.Add(-1)
					switch {
					case step.Fail == "" && err != nil:
						c.Report("%s: %v", what, err)
						return
					case step.Fail != "" && err == nil:
						c.Report("%s: a save that failed after %d of %d bytes reports no error", what, step.At, len(s.data))
						return
					case err == nil:
						saved, ever = s.data, true
					}
				}
				// Only this goroutine saves the projection, so all stores agree on it.
				got := &state{name: name}
				err := stores[(i+j)%p.Stores].Load(got)
				switch {
				case !ever && err == nil:
					c.Report("%s: loads as %d bytes %.40q, it was never saved", what, len(got.loaded), got.loaded)
					return
				case ever && (err != nil || !bytes.Equal(got.loaded, saved)):
					c.Report("%s: loads as %d bytes %.40q (%v), last saved were %d bytes %.40q", what, len(got.loaded), got.loaded, err, len(saved), saved)
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Check()
}

// Rivals are several stores saving one projection.
type Rivals struct {
	Seed  uint64  `json:"seed"`
	Sizes [][]int `json:"sizes"` // of the states of each store
	Fails []int   `json:"fails"` // every n-th save of a store fails
	Chunk int     `json:"chunk"`
}

func genRivals(t *rapid.T) Rivals {
	p := Rivals{
		Seed:  uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")),
		Sizes: rapid.SliceOfN(rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 10, 100, 3000}), 1, 6), 2, 4).Draw(t, "sizes"),
		Chunk: rapid.SampledFrom([]int{7, 40, 1000}).Draw(t, "chunk"),
	}
	for range p.Sizes {
		p.Fails = append(p.Fails, rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(t, "fails"))
	}
	return p
}

func runRivals(c *pbt.C, p Rivals) {
	y := &kit.Yielder{Seed: p.Seed}
	dir := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	var mu sync.Mutex
	begun := map[string]bool{} // states whose save began
	var complete, saving atomic.Int64
	var wg sync.WaitGroup
	for i, sizes := range p.Sizes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			store := projection.NewDiskSnapshotStore(dir)
			for j, size := range sizes {
				s := &state{name: "rival", data: content(100*i+j, size+20)[:size+20], chunk: p.Chunk, at: -1, spy: func(int) { y.Yield() }}
				if p.Fails[i] > 0 && j%p.Fails[i] == p.Fails[i]-1 {
					s.at = size / 2
				} else {
					mu.Lock()
					begun[string(s.data)] = true
					mu.Unlock()
				}
				if saving.Add(1) > 1 {
					c.NonTrivial()
				}
				err := store.Save(s)
				saving.Add(-1)
				if (err != nil) != (s.at >= 0) {
					c.Report("store %d, save %d: %v", i, j, err)
					return
				}
				if err == nil {
					complete.Add(1)
				}
				least := complete.Load()
				got := &state{name: "rival"}
				err = store.Load(got)
				mu.Lock()
				known := begun[string(got.loaded)]
				mu.Unlock()
				if err != nil && least > 0 {
					c.Report("store %d: cannot load: %v", i, err)
					return
				}
				if err == nil && !known {
					c.Report("store %d loads %d bytes %.60q, which is no complete state", i, len(got.loaded), got.loaded)
					return
				}
			}
		}()
	}
	wg.Wait()
	c.Check()
}
