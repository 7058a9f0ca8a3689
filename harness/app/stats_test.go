package app

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// PStep is one step of a projection's life.
type PStep struct {
	Op   string `json:"op"` // accept, save, restart, overwrite, damage
	Type int    `json:"t,omitempty"`
	N    int    `json:"n,omitempty"`
	Gap  uint64 `json:"gap,omitempty"`
}

// PPlan is the life of a statistics projection.
type PPlan struct {
	Types []string `json:"types"`
	Disk  bool     `json:"disk"`
	Steps []PStep  `json:"steps"`
}

var typeNames = rapid.OneOf(
	rapid.SampledFrom([]string{"thing", "another", "a", "A", "", "thing ", "0", "null", "totalEvents", "\"q\"", "é", "<b>", "a,b", "a\nb", "\u2028"}),
	rapid.StringN(0, 6, 12),
)

func genPPlan(t *rapid.T) PPlan {
	p := PPlan{Types: rapid.SliceOfNDistinct(typeNames, 1, 5, rapid.ID[string]).Draw(t, "types"), Disk: rapid.Bool().Draw(t, "disk")}
	for i, s := range p.Types {
		p.Types[i] = strings.ToValidUTF8(s, "?")
	}
	p.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PStep {
		return PStep{
			Op:   rapid.SampledFrom([]string{"accept", "accept", "accept", "save", "restart", "overwrite", "damage"}).Draw(t, "op"),
			Type: rapid.IntRange(0, len(p.Types)-1).Draw(t, "type"),
			N:    rapid.IntRange(1, 40).Draw(t, "n"),
			Gap:  rapid.SampledFrom([]uint64{1, 1, 1, 2, 9, 1 << 53, 1<<63 - 5}).Draw(t, "gap"),
		}
	}), 1, 14).Draw(t, "steps")
	return p
}

// counts is the model of the projection.
type counts struct {
	by            map[string]uint64
	total, latest uint64
}

func (m *counts) clone() *counts {
	c := &counts{by: map[string]uint64{}, total: m.total, latest: m.latest}
	for k, v := range m.by {
		c.by[k] = v
	}
	return c
}

func (m *counts) add(atype string, gsn uint64) { m.by[atype]++; m.total++; m.latest = gsn }

func (m *counts) same(p *projection.AggregateTypeStats, others ...string) error {
	if n := p.TotalEvents(); n != m.total {
		return fmt.Errorf("%d events in total, want %d", n, m.total)
	}
	if n := p.LatestGlobalSequenceNumber(); n != m.latest {
		return fmt.Errorf("latest global sequence number is %d, want %d", n, m.latest)
	}
	var types []string
	for t := range m.by {
		types = append(types, t)
	}
	sort.Strings(types)
	if got := p.SortedAggregateTypes(); strings.Join(got, "\x00") != strings.Join(types, "\x00") || len(got) != len(types) {
		return fmt.Errorf("aggregate types %q, want %q", got, types)
	}
	for _, t := range append(types, others...) {
		if n := p.TotalEventsByAggregateType(t); n != m.by[t] {
			return fmt.Errorf("%d events of type %q, want %d", n, t, m.by[t])
		}
	}
	return nil
}

// memSnapshots keeps snapshots in memory.
type memSnapshots struct {
	mu sync.Mutex
	b  map[string][]byte
}

func (s *memSnapshots) Save(p projection.SnapshotProjection) error {
	var b bytes.Buffer
	if err := p.SaveSnapshot(&b); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b == nil {
		s.b = map[string][]byte{}
	}
	s.b[p.SnapshotName()] = b.Bytes()
	return nil
}

func (s *memSnapshots) Load(p projection.SnapshotProjection) error {
	s.mu.Lock()
	b, ok := s.b[p.SnapshotName()]
	s.mu.Unlock()
	if !ok {
		return os.ErrNotExist
	}
	return p.LoadFromSnapshot(bytes.NewReader(b))
}

func snapshotStore(c *pbt.C, disk bool) projection.SnapshotStore {
	if !disk {
		return &memSnapshots{}
	}
	dir := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	return projection.NewDiskSnapshotStore(dir)
}

func init() {
	pbt.Reg("C24", "life", pbt.Opt{Quick: 60000, Thorough: 2000000, Shards: 4,
		Rule: "a case is the life of one statistics projection: events, snapshots, restarts from the last snapshot with replay of what followed, loads over a used projection, and damaged snapshots; non-trivial when a snapshot taken after events was loaded again"},
		genPPlan, runLife)
	pbt.Reg("C24", "api", pbt.Opt{Quick: 2500, Thorough: 80000, Shards: 4, Bubble: true,
		Rule: "a case is a store with an HTTP API that is started again and again, from its snapshot, while events are saved; non-trivial when a later start had a snapshot and new events"},
		genAPlan, runAPI)
	pbt.Reg("C24", "queries", pbt.Opt{Quick: 400, Thorough: 12000, Shards: 4, Race: true,
		Rule: "a case is one projection fed by one goroutine while others query it, save and load snapshots; non-trivial when a query ran between two events"},
		genQPlan, runQueries)
}

func runLife(c *pbt.C, p PPlan) {
	store := snapshotStore(c, p.Disk)
	stats := projection.NewAggregateTypeStats()
	m := &counts{by: map[string]uint64{}}
	type fed struct {
		atype string
		gsn   uint64
	}
	var log []fed
	var snap *counts
	snapAt, gsn := 0, uint64(0)
	for i, s := range p.Steps {
		what := fmt.Sprintf("step %d (%s)", i, s.Op)
		switch s.Op {
		case "accept":
			for j := 0; j < s.N; j++ {
				t := p.Types[(s.Type+j*j)%len(p.Types)]
				if gsn > 1<<64-1-s.Gap {
					break
				}
				gsn += s.Gap
				if s.Gap > 9 {
					s.Gap = 1
				}
				stats.Accept(&rangedb.Record{AggregateType: t, AggregateID: "x", GlobalSequenceNumber: gsn, StreamSequenceNumber: uint64(j), EventType: "E", Data: struct{}{}})
				m.add(t, gsn)
				log = append(log, fed{t, gsn})
			}
		case "save":
			if err := store.Save(stats); err != nil {
				c.Failf("%s: %v", what, err)
			}
			snap, snapAt = m.clone(), len(log)
		case "restart", "overwrite":
			// Load the last snapshot, into a new or a used projection, and go on from there.
			fresh := projection.NewAggregateTypeStats()
			if s.Op == "overwrite" {
				for j := 0; j < s.N; j++ {
					fresh.Accept(&rangedb.Record{AggregateType: []string{"stale", p.Types[0]}[j%2], GlobalSequenceNumber: uint64(j)})
				}
			}
			err := store.Load(fresh)
			if snap == nil {
				if err == nil {
					c.Failf("%s: a snapshot is loaded, none was saved", what)
				}
				continue
			}
			if err != nil {
				c.Failf("%s: %v", what, err)
			}
			if err := snap.same(fresh, "stale", "nothing"); err != nil {
				c.Failf("%s: after loading the snapshot: %v", what, err)
			}
			if snap.total > 0 {
				c.NonTrivial()
			}
			for _, e := range log[snapAt:] {
				fresh.Accept(&rangedb.Record{AggregateType: e.atype, GlobalSequenceNumber: e.gsn})
			}
			// What is fed to one projection does not show in another one.
			if err := m.same(stats, "nothing"); err != nil {
				c.Failf("%s: the former projection changes along with the new one: %v", what, err)
			}
			stats = fresh
		case "damage":
			var b bytes.Buffer
			if err := stats.SaveSnapshot(&b); err != nil {
				c.Failf("%s: %v", what, err)
			}
			x := b.Bytes()
			bad := [][]byte{nil, x[:s.N%len(x)], []byte("null"), []byte("{}"), []byte(`{"totalEventsByAggregateType":null}`), []byte("[]"), []byte(`{"totalEvents":"x"}`), []byte(`{"totalEventsByAggregateType":{"a":-1}}`)}[s.N%8]
			victim := projection.NewAggregateTypeStats()
			victim.Accept(&rangedb.Record{AggregateType: "kept", GlobalSequenceNumber: 7})
			kept := &counts{by: map[string]uint64{"kept": 1}, total: 1, latest: 7}
			err := victim.LoadFromSnapshot(bytes.NewReader(bad))
			if err == nil && len(bad) > 0 && json.Valid(bad) {
				kept = &counts{by: map[string]uint64{}} // nothing in it
				if string(bytes.TrimSpace(bad)) == string(bytes.TrimSpace(x)) {
					kept = m.clone()
				}
			} else if err == nil {
				c.Failf("%s: %q is loaded as a snapshot", what, bad)
			}
			if err := kept.same(victim); err != nil {
				c.Failf("%s: after loading %q: %v", what, bad, err)
			}
			victim.Accept(&rangedb.Record{AggregateType: "kept", GlobalSequenceNumber: 99})
			kept.add("kept", 99)
			if err := kept.same(victim); err != nil {
				c.Failf("%s: an event after loading %q: %v", what, bad, err)
			}
		}
		if err := m.same(stats, append(p.Types, "nothing")...); err != nil {
			c.Failf("%s: %v", what, err)
		}
	}
}

// AStep is one step of a store with an API.
type AStep struct {
	Op string `json:"op"` // save, start, busystart, lose, spoil, query
	A  int    `json:"a,omitempty"`
	N  int    `json:"n,omitempty"`
}

// APlan is the life of a store with an API.
type APlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Disk    bool      `json:"disk"`
	Gone    int       `json:"gone,omitempty"` // events saved and deleted before all else
	Steps   []AStep   `json:"steps"`
}

func genAPlan(t *rapid.T) APlan {
	p := APlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"), Aggs: kit.GenAggs(1, 4, true).Draw(t, "aggs"), Disk: rapid.Bool().Draw(t, "disk"), Gone: rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(t, "gone")}
	p.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) AStep {
		return AStep{Op: rapid.SampledFrom([]string{"save", "save", "save", "start", "start", "busystart", "lose", "spoil", "query"}).Draw(t, "op"),
			A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"), N: rapid.IntRange(1, 12).Draw(t, "n")}
	}), 2, 12).Draw(t, "steps")
	return p
}

// spoilable lets a snapshot store fail.
type spoilable struct {
	projection.SnapshotStore
	spoil, lose bool
}

func (s *spoilable) Load(p projection.SnapshotProjection) error {
	if s.lose {
		return os.ErrNotExist
	}
	return s.SnapshotStore.Load(p)
}

func (s *spoilable) Save(p projection.SnapshotProjection) error {
	if s.spoil {
		return io.ErrShortWrite
	}
	return s.SnapshotStore.Save(p)
}

func runAPI(c *pbt.C, p APlan) {
	b := kit.Open(p.Backend)
	c.Cleanup(b.Close)
	c.Class("backend " + p.Backend)
	snaps := &spoilable{SnapshotStore: snapshotStore(c, p.Disk)}
	m := &counts{by: map[string]uint64{}}
	var mu sync.Mutex
	save := func(a, n int) {
		agg := p.Aggs[a]
		var recs []*rangedb.EventRecord
		for j := 0; j < n; j++ {
			recs = append(recs, kit.EvSpec{Kind: "thing", Num: int64(j)}.Record(agg.Type, agg.ID))
		}
		if _, err := b.Store.Save(context.Background(), agg.Stream, recs...); err != nil {
			c.Report("save: %v", err)
			return
		}
		mu.Lock()
		for j := 0; j < n; j++ {
			m.add(agg.Type, uint64(p.Gone)+m.total+1)
		}
		mu.Unlock()
	}
	if p.Gone > 0 {
		var recs []*rangedb.EventRecord
		for j := 0; j < p.Gone; j++ {
			recs = append(recs, kit.EvSpec{Kind: "thing", Num: int64(j)}.Record("gone", "gone"))
		}
		if _, err := b.Store.Save(context.Background(), "gone!gone", recs...); err != nil {
			c.Failf("save: %v", err)
		}
		if err := b.Store.OptimisticDeleteStream(context.Background(), uint64(p.Gone), "gone!gone"); err != nil {
			c.Failf("delete: %v", err)
		}
		c.Wait() // for the broadcaster
		c.Class("events deleted before the first start")
	}
	type started struct {
		h http.Handler
		p *projection.AggregateTypeStats
	}
	var apis []started
	snapshotAt := uint64(0)
	start := func(what string) {
		api, err := rangedbapi.New(rangedbapi.WithStore(b.Store), rangedbapi.WithSnapshotStore(snaps), rangedbapi.WithBaseUri("http://x"))
		if err != nil {
			c.Failf("%s: %v", what, err)
		}
		apis = append(apis, started{api, api.AggregateTypeStatsProjection()})
	}
	settle := func(what string) {
		c.Wait()
		mu.Lock()
		want := m.clone()
		mu.Unlock()
		for i, a := range apis {
			if err := want.same(a.p, "nothing"); err != nil {
				c.Failf("%s: the API started at %d: %v", what, i, err)
			}
		}
	}
	for i, s := range p.Steps {
		what := fmt.Sprintf("step %d (%s)", i, s.Op)
		switch s.Op {
		case "save":
			save(s.A, s.N)
		case "start":
			if len(apis) > 0 && snapshotAt > 0 && m.total > snapshotAt {
				c.NonTrivial()
			}
			start(what)
			// Everything saved before it started is counted once it has started.
			if err := m.same(apis[len(apis)-1].p); err != nil {
				c.Failf("%s: right after starting: %v", what, err)
			}
			if !snaps.spoil {
				snapshotAt = m.total
			}
		case "busystart":
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < s.N; j++ {
					save((s.A+j)%len(p.Aggs), 1+j%3)
				}
			}()
			start(what)
			wg.Wait()
			c.Class("saves while starting")
		case "lose":
			snaps.lose = !snaps.lose
		case "spoil":
			snaps.spoil = !snaps.spoil
		case "query":
			settle(what)
			for _, a := range apis {
				w := httptest.NewRecorder()
				a.h.ServeHTTP(w, httptest.NewRequest("GET", "/list-aggregate-types", nil))
				var got struct {
					Data []struct {
						Name        string
						TotalEvents uint64
					}
					TotalEvents uint64
				}
				if err := json.Unmarshal(w.Body.Bytes(), &got); err != nil {
					c.Failf("%s: %v in %s", what, err, w.Body)
				}
				if got.TotalEvents != m.total || len(got.Data) != len(m.by) {
					c.Failf("%s: the API lists %s, want %v", what, w.Body, m.by)
				}
				for _, d := range got.Data {
					if m.by[d.Name] != d.TotalEvents {
						c.Failf("%s: the API lists %s, want %v", what, w.Body, m.by)
					}
				}
			}
		}
		if len(apis) > 4 {
			apis = apis[1:]
		}
		settle(what)
	}
	c.Check()
}

// QPlan is a projection used by several goroutines.
type QPlan struct {
	Seed    uint64   `json:"seed"`
	Types   int      `json:"types"`
	Events  int      `json:"events"`
	Queries []string `json:"queries"`
}

func genQPlan(t *rapid.T) QPlan {
	return QPlan{
		Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Types: rapid.IntRange(1, 3).Draw(t, "types"), Events: rapid.IntRange(1, 60).Draw(t, "events"),
		Queries: rapid.SliceOfN(rapid.SampledFrom([]string{"total", "latest", "types", "type", "save", "load"}), 1, 6).Draw(t, "queries"),
	}
}

func runQueries(c *pbt.C, p QPlan) {
	y := &kit.Yielder{Seed: p.Seed}
	stats := projection.NewAggregateTypeStats()
	name := func(i int) string { return string(rune('a' + (i*7+int(p.Seed))%p.Types)) }
	// after[n] is the model after n events
	after := []*counts{{by: map[string]uint64{}}}
	for i := 0; i < p.Events; i++ {
		m := after[i].clone()
		m.add(name(i), uint64(i+1))
		after = append(after, m)
	}
	var done, begun atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for _, q := range p.Queries {
		wg.Add(1)
		go func() {
			defer wg.Done()
			last := uint64(0)
			for last < uint64(p.Events) && !stop.Load() {
				y.Yield()
				from := done.Load()
				// ok says whether some prefix between the two moments gives the answer.
				ok := func(f func(*counts) bool) bool {
					to := begun.Load()
					if to > from && to < int64(p.Events) {
						c.NonTrivial()
					}
					for n := from; n <= to; n++ {
						if f(after[n]) {
							return true
						}
					}
					return false
				}
				switch q {
				case "total":
					n := stats.TotalEvents()
					if !ok(func(m *counts) bool { return m.total == n }) {
						c.Report("%d events in total, after %d to %d of them", n, from, begun.Load())
					}
				case "latest":
					n := stats.LatestGlobalSequenceNumber()
					if !ok(func(m *counts) bool { return m.latest == n }) {
						c.Report("latest is %d, after %d to %d events", n, from, begun.Load())
					}
				case "type":
					n := stats.TotalEventsByAggregateType("a")
					if !ok(func(m *counts) bool { return m.by["a"] == n }) {
						c.Report("%d events of a type, after %d to %d events", n, from, begun.Load())
					}
				case "types":
					got := stats.SortedAggregateTypes()
					if !ok(func(m *counts) bool { return len(m.by) == len(got) }) {
						c.Report("types %v, after %d to %d events", got, from, begun.Load())
					}
				case "save", "load":
					var b bytes.Buffer
					if err := stats.SaveSnapshot(&b); err != nil {
						c.Report("%v", err)
					}
					copied := projection.NewAggregateTypeStats()
					if err := copied.LoadFromSnapshot(&b); err != nil {
						c.Report("%v", err)
					}
					if !ok(func(m *counts) bool { return m.same(copied) == nil }) {
						c.Report("a snapshot has %d events, latest %d, types %v: no state there was after %d to %d events", copied.TotalEvents(), copied.LatestGlobalSequenceNumber(), copied.SortedAggregateTypes(), from, begun.Load())
					}
				}
				last = uint64(done.Load())
			}
		}()
	}
	for i := 0; i < p.Events; i++ {
		begun.Add(1)
		stats.Accept(&rangedb.Record{AggregateType: name(i), GlobalSequenceNumber: uint64(i + 1)})
		done.Add(1)
		y.Yield()
	}
	wg.Wait()
	stop.Store(true)
	if err := after[p.Events].same(stats); err != nil {
		c.Report("in the end: %v", err)
	}
	c.Check()
}
