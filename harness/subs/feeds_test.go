package subs

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// FSub describes one subscription of a store.
type FSub struct {
	All    bool  `json:"all,omitempty"`
	Types  []int `json:"types,omitempty"` // one past the aggregates: a type that does not exist
	From   int   `json:"from"`            // -1: Start
	Buffer int   `json:"buffer"`
	Delay  int   `json:"delay,omitempty"` // milliseconds per live event; -1: stalls
	Stall  int   `json:"stall,omitempty"`
}

// FOp is one call on the store.
type FOp struct {
	Op     string       `json:"op"` // save, bad, del, sub, stop, cancel, sleep
	A      int          `json:"a,omitempty"`
	Evs    []kit.EvSpec `json:"evs,omitempty"`
	S      int          `json:"s,omitempty"`
	N      int          `json:"n,omitempty"`
	Rep    int          `json:"rep,omitempty"`  // the events are saved so many times over in one batch
	Each   bool         `json:"each,omitempty"` // or in a batch each
	Settle bool         `json:"settle,omitempty"`
}

// FPlan is a history of saves and subscriptions.
type FPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Subs    []FSub    `json:"subs"`
	Ops     []FOp     `json:"ops"`
}

func genF(backends []string) func(t *rapid.T) FPlan {
	return func(t *rapid.T) FPlan {
		p := FPlan{
			Backend: rapid.SampledFrom(backends).Draw(t, "backend"),
			Aggs:    kit.GenAggs(1, 4, rapid.Bool().Draw(t, "wild")).Draw(t, "aggs"),
		}
		p.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FSub {
			s := FSub{
				All:    rapid.IntRange(0, 2).Draw(t, "all") == 0,
				From:   rapid.IntRange(-3, 12).Draw(t, "from"),
				Buffer: rapid.SampledFrom([]int{0, 1, 3, 100}).Draw(t, "buffer"),
				Delay:  rapid.SampledFrom([]int{0, 0, 0, 0, 30, 60, 150, 1000, -1}).Draw(t, "delay"),
			}
			s.From = max(s.From, -1)
			if !s.All {
				s.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 1, 6).Draw(t, "types")
			}
			if s.Delay < 0 {
				s.Stall = rapid.IntRange(0, 6).Draw(t, "stall")
			}
			return s
		}), 1, 4).Draw(t, "subs")
		p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
			o := FOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "bad", "del", "sub", "sub", "sub", "stop", "cancel", "sleep"}).Draw(t, "op"),
				Settle: rapid.Bool().Draw(t, "settle")}
			switch o.Op {
			case "save", "bad", "del":
				o.A = rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")
				if o.Op != "del" {
					o.Evs = rapid.SliceOfN(kit.GenEv(), 1, 3).Draw(t, "evs")
				}
			case "sub", "stop", "cancel":
				o.S = rapid.IntRange(0, len(p.Subs)-1).Draw(t, "s")
			case "sleep":
				o.N = rapid.SampledFrom([]int{10, 100, 1000}).Draw(t, "ms")
			}
			return o
		}), 2, 20).Draw(t, "ops")
		if at := rapid.IntRange(0, 4).Draw(t, "first"); at < 4 {
			at = min(at, len(p.Ops))
			p.Ops = append(p.Ops[:at:at], append([]FOp{{Op: "sub"}}, p.Ops[at:]...)...)
		}
		return p
	}
}

// genBursts generates histories with bursts that exceed every buffer on the way.
func genBursts(backends []string) func(t *rapid.T) FPlan {
	gen := genF(backends)
	return func(t *rapid.T) FPlan {
		p := gen(t)
		for i := range p.Ops {
			if o := &p.Ops[i]; o.Op == "save" {
				o.Rep = rapid.SampledFrom([]int{0, 0, 20, 60, 150}).Draw(t, "rep")
				o.Each = rapid.Bool().Draw(t, "each")
			}
		}
		for i := range p.Subs {
			if s := &p.Subs[i]; s.Delay > 5 {
				s.Delay = 1 + s.Delay%5
			}
		}
		return p
	}
}

type fsub struct {
	spec   FSub
	mu     sync.Mutex
	got    []*rangedb.Record
	live   bool
	sub    rangedb.RecordSubscription
	cancel context.CancelFunc
	quit   chan struct{}
	types  map[string]bool

	started  bool
	ended    bool
	endLow   int // how much of the log it must have got when it ended
	want     []*kit.MRec
	optional int // how many of the first records of want may be missing
}

func (s *fsub) Accept(r *rangedb.Record) {
	s.mu.Lock()
	s.got = append(s.got, r)
	n, live := len(s.got), s.live
	s.mu.Unlock()
	switch {
	case !live:
	case s.spec.Delay < 0 && n >= s.spec.Stall:
		<-s.quit
	case s.spec.Delay > 0:
		time.Sleep(time.Duration(s.spec.Delay) * time.Millisecond)
	}
}

func (s *fsub) wants(atype string) bool { return s.spec.All || s.types[atype] }

func runF(c *pbt.C, p FPlan) {
	b := kit.Open(p.Backend)
	c.Cleanup(b.Close)
	m := &kit.Model{}
	bg := context.Background()
	types := append(kit.Types(p.Aggs), "no such type")
	var subs []*fsub
	for _, spec := range p.Subs {
		s := &fsub{spec: spec, quit: make(chan struct{}), types: map[string]bool{}}
		for _, t := range spec.Types {
			s.types[types[t%len(types)]] = true
		}
		subs = append(subs, s)
	}
	settled := 0
	settle := func() {
		time.Sleep(time.Minute)
		c.Wait()
		settled = len(m.Log())
	}
	// check compares what the subscriptions got with what they should have.
	check := func(when string, all bool) {
		for i, s := range subs {
			if !s.started {
				continue
			}
			name := fmt.Sprintf("%s: backend %s, subscription %d (%+v)", when, p.Backend, i, s.spec)
			s.mu.Lock()
			got := append([]*rangedb.Record(nil), s.got...)
			s.mu.Unlock()
			want := s.want
			// A live subscription may also get what was still on its way when it started.
			skip := s.optional
			if len(got) > 0 {
				for skip = 0; skip < s.optional; skip++ {
					if want[skip].GSN == got[0].GlobalSequenceNumber {
						break
					}
				}
			}
			want = want[skip:]
			for k, r := range got {
				if k >= len(want) {
					c.Failf("%s got %d events of %d; the first extra one is %d of type %q", name, len(got), len(want), r.GlobalSequenceNumber, r.AggregateType)
				}
				if err := want[k].Matches(r); err != nil {
					c.Failf("%s, event %d: %v", name, k+1, err)
				}
			}
			need := len(want)
			if s.ended {
				need = max(0, s.endLow-skip)
			}
			if all && len(got) < need && s.spec.Delay >= 0 && s.spec.Delay < 100 {
				c.Failf("%s got %d events of %d; the first missing one is %d of type %q", name, len(got), need, want[len(got)].GSN, want[len(got)].AType)
			}
			if all && len(got) < need {
				c.Class("dropped")
			}
		}
	}
	started := 0
	for i, o := range p.Ops {
		when := fmt.Sprintf("after call %d (%s)", i, o.Op)
		a := p.Aggs[o.A%len(p.Aggs)]
		switch o.Op {
		case "save", "bad":
			var recs []*rangedb.EventRecord
			for _, e := range o.Evs {
				recs = append(recs, e.Record(a.Type, a.ID))
			}
			if o.Op == "bad" {
				recs = append(recs, kit.EvSpec{Kind: "bomb"}.Record(a.Type, a.ID))
			}
			evs, times := o.Evs, 1
			for n := 1; n < o.Rep && o.Op == "save"; n++ {
				if o.Each {
					times++
				} else {
					evs = append(evs[:len(evs):len(evs)], o.Evs...)
					for _, e := range o.Evs {
						recs = append(recs, e.Record(a.Type, a.ID))
					}
				}
			}
			b.Clock.Set(int64(i + 1))
			for ; times > 0; times-- {
				_, err := b.Store.Save(bg, a.Stream, recs...)
				if (err != nil) != (o.Op == "bad") {
					c.Failf("%s: error %v", when, err)
				}
				if err == nil {
					for _, r := range m.Append(a.Stream, a.Type, a.ID, uint64(i+1), evs) {
						for _, s := range subs {
							if s.started && !s.ended && s.wants(a.Type) && int(r.GSN) >= s.spec.From {
								s.want = append(s.want, r)
							}
						}
					}
				}
			}
		case "del":
			if n := m.Len(a.Stream); n > 0 {
				if err := b.Store.OptimisticDeleteStream(bg, n, a.Stream); err != nil {
					c.Failf("%s: %v", when, err)
				}
				m.Delete(a.Stream)
				// Deleted events may still be on their way.
				settle()
			}
		case "sub":
			s := subs[o.S%len(subs)]
			if s.started {
				continue
			}
			s.started = true
			started++
			var ctx context.Context
			ctx, s.cancel = context.WithCancel(bg)
			c.Cleanup(s.cancel)
			c.Cleanup(func() {
				select {
				case <-s.quit:
				default:
					close(s.quit)
				}
			})
			if s.spec.All {
				s.sub = b.Store.AllEventsSubscription(ctx, s.spec.Buffer, s)
			} else {
				var names []string
				for _, t := range s.spec.Types {
					names = append(names, types[t%len(types)])
				}
				s.sub = b.Store.AggregateTypesSubscription(ctx, s.spec.Buffer, s, names...)
			}
			var err error
			if s.spec.From < 0 {
				for _, r := range m.Log()[settled:] {
					if s.wants(r.AType) {
						s.want = append(s.want, r)
					}
				}
				s.optional = len(s.want)
				s.live = true
				err = s.sub.Start()
			} else {
				for _, r := range m.All(uint64(s.spec.From)) {
					if s.wants(r.AType) {
						s.want = append(s.want, r)
					}
				}
				if len(s.want) > 0 {
					c.Class("catches up")
				}
				err = s.sub.StartFrom(uint64(s.spec.From))
				s.mu.Lock()
				s.live = true
				n := len(s.got)
				s.mu.Unlock()
				// What is on its way may have been deleted since.
				if err == nil && n < len(s.want) {
					c.Failf("%s: StartFrom returned after %d of %d stored events", when, n, len(s.want))
				}
			}
			if err != nil {
				c.Failf("%s: %v", when, err)
			}
		case "stop", "cancel":
			s := subs[o.S%len(subs)]
			if !s.started || s.ended {
				continue
			}
			s.ended = true
			// Of what is still on its way any part may be lost.
			for s.endLow = len(s.want); s.endLow > 0 && int(s.want[s.endLow-1].GSN) > settled; s.endLow-- {
			}
			if o.Op == "stop" {
				s.sub.Stop()
			} else {
				s.cancel()
			}
			c.Class("stopped")
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
		if o.Settle {
			settle()
			check(when, true)
		} else {
			check(when, false)
		}
	}
	settle()
	check("at the end", true)
	if started > 0 && len(m.Log()) > 2 {
		for _, s := range subs {
			if len(s.got) > 1 && len(s.want) > 1 {
				c.NonTrivial()
			}
		}
	}
}

// RPlan is a set of clients saving while others subscribe.
type RPlan struct {
	Backend string  `json:"backend"`
	Yield   uint64  `json:"yield"`
	Before  []int   `json:"before"` // aggregate of each event saved before
	Savers  [][]int `json:"savers"` // aggregate of each save of each client; three events each when negative
	Subs    []RSub  `json:"subs"`
}

// RSub is a subscription started at some time while events are saved.
type RSub struct {
	All   bool  `json:"all,omitempty"`
	Types []int `json:"types,omitempty"`
	From  int   `json:"from"`
	Wait  int   `json:"wait"`           // yields before it starts
	Stop  int   `json:"stop,omitempty"` // stopped after as many yields more; 0: never
}

const rtypes = 3

func genR(t *rapid.T) RPlan {
	p := RPlan{
		Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb", "ldbmp"}).Draw(t, "backend"),
		Yield:   rapid.Uint64Range(1, 1<<40).Draw(t, "yield"),
		Before:  rapid.SliceOfN(rapid.IntRange(0, rtypes-1), 0, 8).Draw(t, "before"),
	}
	p.Savers = rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(-rtypes, rtypes-1), 1, 8), 1, 3).Draw(t, "savers")
	p.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RSub {
		s := RSub{All: rapid.Bool().Draw(t, "all"), From: max(-1, rapid.IntRange(-3, 14).Draw(t, "from")), Wait: rapid.IntRange(0, 12).Draw(t, "wait")}
		if !s.All {
			s.Types = rapid.SliceOfN(rapid.IntRange(0, rtypes-1), 1, 3).Draw(t, "types")
		}
		s.Stop = max(0, rapid.IntRange(-8, 8).Draw(t, "stop"))
		return s
	}), 1, 3).Draw(t, "subs")
	return p
}

func runR(c *pbt.C, p RPlan) {
	y := &kit.Yielder{Seed: p.Yield}
	b := kit.OpenYielding(p.Backend, y)
	c.Cleanup(b.Close)
	bg := context.Background()
	tname := func(i int) string { return fmt.Sprintf("type%d", i%rtypes) }
	save := func(who string, i, n int) {
		var recs []*rangedb.EventRecord
		for k := 0; k < n; k++ {
			e := kit.EvSpec{Kind: "thing", Text: fmt.Sprintf("%s.%d", who, k)}.Record(tname(i), who)
			e.Event = kit.Hook(e.Event, y.Yield)
			recs = append(recs, e)
		}
		if _, err := b.Store.Save(bg, tname(i)+"!"+who, recs...); err != nil {
			c.Report("save: %v", err)
		}
	}
	for i, a := range p.Before {
		save(fmt.Sprintf("before%d", i), a, 1)
	}
	type rsub struct {
		mu      sync.Mutex
		got     []*rangedb.Record
		floor   uint64 // every event saved up to here was saved when Start returned
		stopped bool
		err     error
		signal  chan struct{}
	}
	var mu sync.Mutex
	returned := uint64(len(p.Before)) // a lower bound of the events saved
	subs := make([]*rsub, len(p.Subs))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, spec := range p.Subs {
		s := &rsub{signal: make(chan struct{}, 1)}
		subs[i] = s
		f := rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
			s.mu.Lock()
			s.got = append(s.got, r)
			s.mu.Unlock()
			select {
			case s.signal <- struct{}{}:
			default:
			}
			y.Yield()
		})
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < spec.Wait; k++ {
				y.Yield()
			}
			ctx, cancel := context.WithCancel(bg)
			c.Cleanup(cancel)
			var sub rangedb.RecordSubscription
			if spec.All {
				sub = b.Store.AllEventsSubscription(ctx, 5000, f)
			} else {
				var names []string
				for _, t := range spec.Types {
					names = append(names, tname(t))
				}
				sub = b.Store.AggregateTypesSubscription(ctx, 5000, f, names...)
			}
			if spec.From < 0 {
				s.err = sub.Start()
			} else {
				s.err = sub.StartFrom(uint64(spec.From))
			}
			// Everything saved from now on must be delivered.
			all, err := kit.Drain(b.Store.Events(bg, 0))
			if err == nil && len(all) > 0 {
				s.floor = all[len(all)-1].GlobalSequenceNumber
			}
			if spec.Stop > 0 {
				for k := 0; k < spec.Stop; k++ {
					y.Yield()
				}
				sub.Stop()
				s.stopped = true
			}
		}()
	}
	for w, saves := range p.Savers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, a := range saves {
				n := 1
				if a < 0 {
					n, a = 3, -a-1
				}
				save(fmt.Sprintf("saver%d-%d", w, i), a, n)
				mu.Lock()
				returned += uint64(n)
				mu.Unlock()
				y.Yield()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Check()
	for i := 0; i < rtypes; i++ {
		save("last", i, 1)
	}
	// The markers are above any starting position.
	for i := 0; i < 15; i++ {
		for k := 0; k < rtypes; k++ {
			save(fmt.Sprintf("end%d", i), k, 1)
		}
	}
	all, err := kit.Drain(b.Store.Events(bg, 0))
	if err != nil {
		c.Failf("Events(0): %v", err)
	}
	for i, s := range subs {
		spec := p.Subs[i]
		name := fmt.Sprintf("backend %s, subscription %d (%+v)", p.Backend, i, spec)
		if s.err != nil {
			c.Failf("%s: %v", name, s.err)
		}
		wants := map[string]bool{}
		for _, t := range spec.Types {
			wants[tname(t)] = true
		}
		var want []*rangedb.Record
		for _, r := range all {
			if (spec.All || wants[r.AggregateType]) && int(r.GlobalSequenceNumber) >= spec.From {
				want = append(want, r)
			}
		}
		last := want[len(want)-1].GlobalSequenceNumber
		deadline := time.After(60 * time.Second)
		for done := s.stopped; !done; {
			s.mu.Lock()
			n := len(s.got)
			done = n > 0 && s.got[n-1].GlobalSequenceNumber >= last
			s.mu.Unlock()
			if done {
				break
			}
			select {
			case <-s.signal:
			case <-deadline:
				s.mu.Lock()
				seen := uint64(0)
				if len(s.got) > 0 {
					seen = s.got[len(s.got)-1].GlobalSequenceNumber
				}
				s.mu.Unlock()
				c.Failf("%s never got event %d; the last it got is %d", name, last, seen)
			}
		}
		s.mu.Lock()
		got := append([]*rangedb.Record(nil), s.got...)
		s.mu.Unlock()
		if spec.From < 0 {
			// Live: from some moment not after the return of Start.
			for len(want) > 0 && (len(got) == 0 && s.stopped || len(got) > 0 && want[0].GlobalSequenceNumber < got[0].GlobalSequenceNumber) {
				if want[0].GlobalSequenceNumber > s.floor && !s.stopped {
					c.Failf("%s was started after event %d but did not get event %d", name, s.floor, want[0].GlobalSequenceNumber)
				}
				want = want[1:]
			}
		}
		for k, r := range got {
			if k >= len(want) {
				c.Failf("%s got %d events of %d", name, len(got), len(want))
			}
			if r.GlobalSequenceNumber != want[k].GlobalSequenceNumber {
				c.Failf("%s got event %d where %d was due", name, r.GlobalSequenceNumber, want[k].GlobalSequenceNumber)
			}
			if err := kit.SameJSON("event", want[k], r); err != nil {
				c.Failf("%s: %v", name, err)
			}
		}
		if !s.stopped && len(got) != len(want) {
			c.Failf("%s got %d events of %d", name, len(got), len(want))
		}
		if len(all) > 45+3+len(p.Before) && !s.stopped {
			c.NonTrivial()
		}
	}
}

func init() {
	pbt.Reg("C11", "feeds", pbt.Opt{Quick: 10000, Thorough: 400000, Shards: 8, Bubble: true,
		Rule: "a history of saves, failing saves, deletions, sleeps and subscriptions to all events or sets of types, live or from a position, with any buffer and consumers that are immediate, slow or stalled, stopped or cancelled at some point (fake clock); every delivery compared with the model; non-trivial when a subscription got more than one event"},
		genF([]string{"mem", "mem", "ldb", "memmp", "ldbmp"}), runF)
	pbt.Reg("C11", "bursts", pbt.Opt{Quick: 1200, Thorough: 40000, Shards: 8, Bubble: true,
		Rule: "as feeds, with saves of up to 450 events at once or one after the other, more than any buffer on the way holds; non-trivial when a subscription got more than one event"},
		genBursts([]string{"mem", "mem", "ldb", "memmp", "ldbmp"}), runF)
	pbt.Reg("C18", "bursts", pbt.Opt{Quick: 600, Thorough: 20000, Shards: 8, Bubble: true,
		Rule: "as storefeeds, with saves of up to 450 events at once or one after the other, more than any buffer on the way holds; non-trivial when a subscription got more than one event"},
		genBursts([]string{"remote", "remoteldb"}), runF)
	pbt.Reg("C18", "storefeeds", pbt.Opt{Quick: 10000, Thorough: 300000, Shards: 8, Bubble: true,
		Rule: "the histories of saves and subscriptions of C11 on a remote store, the served store being in memory or LevelDB, over an in-process gRPC connection (fake clock); non-trivial when a subscription got more than one event"},
		genF([]string{"remote", "remoteldb"}), runF)
	pbt.Reg("C11", "race", pbt.Opt{Quick: 2400, Thorough: 60000, Shards: 8,
		Rule: "up to three clients saving single events and batches while up to three subscriptions start from a position or live and may stop, with yields at every callback of the store; non-trivial when events were saved while a subscription that was not stopped was started"},
		genR, runR)
}
