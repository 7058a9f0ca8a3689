// Package conc lets clients work on one store at the same time and judges what they saw.
package conc

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// COp is one call of a concurrent client.
type COp struct {
	Op    string `json:"op"` // save, osave, bad, all, types, stream, total, del, sub, cancel
	A     int    `json:"a"`
	N     int    `json:"n,omitempty"`     // batch size
	Exp   int    `json:"exp,omitempty"`   // added to the expectation
	Types []int  `json:"types,omitempty"` // for types and sub
	From  int    `json:"from,omitempty"`
	How   string `json:"how,omitempty"` // why a bad save is refused: unserialisable event, type, id, empty, cancelled, cancelmid
}

// CPlan is a set of clients working on one store at the same time.
type CPlan struct {
	Backend string    `json:"backend"`
	Yield   uint64    `json:"yield"`
	Aggs    []kit.Agg `json:"aggs"`
	Setup   []int     `json:"setup"` // events per aggregate before the clients start
	Clients [][]COp   `json:"clients"`
}

func GenCPlan(backends []string, ops []string, clients, calls int) func(t *rapid.T) CPlan {
	return func(t *rapid.T) CPlan {
		p := CPlan{
			Backend: rapid.SampledFrom(backends).Draw(t, "backend"),
			Yield:   rapid.Uint64Range(0, 1<<40).Draw(t, "yield"),
			Aggs:    kit.GenAggs(1, 3, false).Draw(t, "aggs"),
		}
		for range p.Aggs {
			p.Setup = append(p.Setup, rapid.IntRange(0, 3).Draw(t, "setup"))
		}
		op := rapid.Custom(func(t *rapid.T) COp {
			o := COp{Op: rapid.SampledFrom(ops).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
			switch o.Op {
			case "save", "osave", "bad":
				if o.Op == "bad" {
					o.How = rapid.SampledFrom([]string{"", "", "type", "id", "empty", "cancelled", "cancelmid"}).Draw(t, "how")
				}
				o.N = rapid.IntRange(1, 4).Draw(t, "n")
				if o.Op == "osave" {
					o.Exp = rapid.SampledFrom([]int{0, 0, 0, 0, 1, -1}).Draw(t, "exp")
				}
			case "types", "sub":
				o.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 1, 5).Draw(t, "types")
			case "cancel":
				o.N = rapid.IntRange(0, 3).Draw(t, "read")
				o.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 1, 5).Draw(t, "types")
			}
			if o.Op == "all" || o.Op == "types" || o.Op == "stream" {
				o.From = rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "from")
			}
			return o
		})
		n := rapid.IntRange(2, clients).Draw(t, "clients")
		for i := 0; i < n; i++ {
			p.Clients = append(p.Clients, rapid.SliceOfN(op, 1, calls).Draw(t, "calls"))
		}
		return p
	}
}

// call is what a client observed of one call.
type call struct {
	op       COp
	agg      kit.Agg
	inv, ret int64
	took     time.Duration
	texts    []string // events of a save, in order
	exp      uint64
	n        uint64
	err      error
	got      []seen
	name     string
}

// seen is what matters of a record read concurrently.
type seen struct {
	gsn, ssn     uint64
	stream, text string
	atype        string
}

func see(r *rangedb.Record) seen {
	s := seen{gsn: r.GlobalSequenceNumber, ssn: r.StreamSequenceNumber, stream: r.StreamName, atype: r.AggregateType}
	if t, ok := r.Data.(*kit.Thing); ok {
		s.text = t.Text
	}
	return s
}

type clients struct {
	c     *pbt.C
	p     CPlan
	b     *kit.Backend
	y     *kit.Yielder
	clock atomic.Int64
	calls [][]*call
	types []string
	setup []*call
	gsns  map[string]uint64 // of events that were read
}

func (k *clients) events(c *call, name string, n int, yielding bool) []*rangedb.EventRecord {
	var recs []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		text := fmt.Sprintf("%s.%d", name, i)
		c.texts = append(c.texts, text)
		e := kit.EvSpec{Kind: "thing", Text: text, Ptr: true}.Record(c.agg.Type, c.agg.ID)
		if yielding {
			e.Event = kit.Hook(e.Event, k.y.Yield)
		}
		recs = append(recs, e)
	}
	return recs
}

func (k *clients) typeNames(is []int) []string {
	var out []string
	for _, i := range is {
		out = append(out, k.types[i%len(k.types)])
	}
	return out
}

// do makes one call and notes when it started and returned.
func (k *clients) do(c *call, w int, view map[string]uint64) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := k.b.Store
	if n := len(k.b.Stores); n > 0 && w >= 0 {
		s = k.b.Stores[w%n]
	}
	stream := c.agg.Stream
	begin := time.Now()
	defer func() { c.took = time.Since(begin) }()
	read := func(it rangedb.RecordIterator) {
		for it.Next() {
			c.got = append(c.got, see(it.Record()))
			k.y.Yield()
		}
		c.err = it.Err()
	}
	switch c.op.Op {
	case "save":
		recs := k.events(c, c.name, c.op.N, true)
		c.inv = k.clock.Add(1)
		c.n, c.err = s.Save(ctx, stream, recs...)
		c.ret = k.clock.Add(1)
		if c.err == nil {
			view[stream] = c.n
		}
	case "osave":
		recs := k.events(c, c.name, c.op.N, true)
		c.exp = view[stream] + uint64(c.op.Exp)
		c.inv = k.clock.Add(1)
		c.n, c.err = s.OptimisticSave(ctx, c.exp, stream, recs...)
		c.ret = k.clock.Add(1)
		var u *rangedberror.UnexpectedSequenceNumber
		if c.err == nil {
			view[stream] = c.n
		} else if errors.As(c.err, &u) {
			view[stream] = u.ActualSequenceNumber
		}
	case "bad":
		recs := k.events(c, c.name, c.op.N, true)
		switch c.op.How {
		case "type":
			recs = append(recs, kit.EvSpec{Kind: "thing"}.Record(c.agg.Type+"x", c.agg.ID))
		case "id":
			recs = append(recs, kit.EvSpec{Kind: "thing"}.Record(c.agg.Type, c.agg.ID+"x"))
		case "empty":
			c.texts, recs = nil, nil
		case "cancelled":
			cancel()
		case "cancelmid":
			e := kit.EvSpec{Kind: "thing"}.Record(c.agg.Type, c.agg.ID)
			e.Event = kit.Hook(e.Event, cancel)
			recs = append(recs, e, kit.EvSpec{Kind: "bomb"}.Record(c.agg.Type, c.agg.ID))
		default:
			recs = append(recs, kit.EvSpec{Kind: "bomb"}.Record(c.agg.Type, c.agg.ID))
		}
		c.inv = k.clock.Add(1)
		c.n, c.err = s.Save(ctx, stream, recs...)
		c.ret = k.clock.Add(1)
	case "all":
		c.inv = k.clock.Add(1)
		read(s.Events(ctx, uint64(c.op.From)))
		c.ret = k.clock.Add(1)
	case "types":
		c.inv = k.clock.Add(1)
		read(s.EventsByAggregateTypes(ctx, uint64(c.op.From), k.typeNames(c.op.Types)...))
		c.ret = k.clock.Add(1)
	case "stream":
		c.inv = k.clock.Add(1)
		read(s.EventsByStream(ctx, uint64(c.op.From), stream))
		c.ret = k.clock.Add(1)
	case "total":
		c.inv = k.clock.Add(1)
		c.n, c.err = s.TotalEventsInStream(ctx, stream)
		c.ret = k.clock.Add(1)
		if c.err == nil {
			view[stream] = c.n
		}
	case "del":
		c.exp = view[stream] + uint64(c.op.Exp)
		c.inv = k.clock.Add(1)
		c.err = s.OptimisticDeleteStream(ctx, c.exp, stream)
		c.ret = k.clock.Add(1)
		var u *rangedberror.UnexpectedSequenceNumber
		if errors.As(c.err, &u) {
			view[stream] = u.ActualSequenceNumber
		} else {
			view[stream] = 0
		}
	case "cancel": // read a little, cancel, and read on to the error
		it := s.EventsByAggregateTypes(ctx, 0, k.typeNames(c.op.Types)...)
		for i := 0; i < c.op.N && it.Next(); i++ {
			k.y.Yield()
		}
		cancel()
		for it.Next() {
		}
	case "sub":
		sub := s.AggregateTypesSubscription(ctx, 1000, rangedb.RecordSubscriberFunc(func(*rangedb.Record) {}), k.typeNames(c.op.Types)...)
		if err := sub.StartFrom(0); err != nil {
			c.err = err
		}
		sub.Stop()
	}
}

func startClients(c *pbt.C, p CPlan) *clients {
	kit.Excuse(c)
	y := &kit.Yielder{Seed: p.Yield}
	k := &clients{c: c, p: p, y: y, b: kit.OpenYielding(p.Backend, y), types: append(kit.Types(p.Aggs), "no such type")}
	c.Cleanup(k.b.Close)
	view := map[string]uint64{}
	for i, n := range p.Setup {
		if n > 0 && i < len(p.Aggs) {
			s := &call{op: COp{Op: "save", N: n}, agg: p.Aggs[i], name: fmt.Sprintf("setup%d", i)}
			k.do(s, -1, view)
			if s.err != nil {
				c.Failf("save: %v", s.err)
			}
			k.setup = append(k.setup, s)
		}
	}
	k.calls = make([][]*call, len(p.Clients))
	return k
}

// run lets the clients work, and waits for all of them.
func (k *clients) run() {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w, ops := range k.p.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			view := map[string]uint64{}
			for _, s := range k.setup {
				view[s.agg.Stream] += uint64(s.op.N)
			}
			<-start
			for i, o := range ops {
				cl := &call{op: o, agg: k.p.Aggs[o.A%len(k.p.Aggs)], name: fmt.Sprintf("c%d.%d", w, i)}
				k.do(cl, w, view)
				k.calls[w] = append(k.calls[w], cl)
				k.y.Yield()
			}
		}()
	}
	close(start)
	wg.Wait()
}

// overloaded says whether a call failed because it could not get a lock in the
// store's time limit, which happens on a machine that is much too slow.
func (k *clients) overloaded(c *call) bool {
	if k.b.PG == nil || c.took < 1500*time.Millisecond || c.err == nil {
		return false
	}
	t := c.err.Error()
	for _, s := range []string{"deadline", "cancel", "timeout", "time-out", "timed out"} {
		if strings.Contains(t, s) {
			k.c.Class("lock time-out")
			return true
		}
	}
	return false
}

// judge decides whether the calls are explained by the final log.
func (k *clients) judge(live []seen) error {
	recs, err := kit.Drain(k.b.Store.Events(context.Background(), 0))
	if err != nil {
		return err
	}
	var log []seen
	for _, r := range recs {
		log = append(log, see(r))
	}
	where := map[string]int{}
	length := map[string]uint64{}
	for i, r := range log {
		if k.b.Gaps && i > 0 && r.gsn > log[i-1].gsn {
			// Refused calls leave gaps.
		} else if r.gsn != uint64(i+1) && !(k.b.Gaps && i == 0) {
			return fmt.Errorf("global sequence number %d at position %d", r.gsn, i)
		}
		length[r.stream]++
		if r.ssn != length[r.stream] {
			return fmt.Errorf("stream %q has sequence number %d at position %d", r.stream, r.ssn, length[r.stream])
		}
		if _, dup := where[r.text]; dup {
			return fmt.Errorf("event %q is stored twice", r.text)
		}
		where[r.text] = i
	}
	var all []*call
	all = append(all, k.setup...)
	for _, cs := range k.calls {
		all = append(all, cs...)
	}
	stored := 0
	type span struct {
		c           *call
		first, last int // positions in the log
	}
	var spans []span
	for _, c := range all {
		if len(c.texts) == 0 {
			continue
		}
		first, ok := where[c.texts[0]]
		if c.err != nil {
			for _, t := range c.texts {
				if _, there := where[t]; there {
					return fmt.Errorf("event %q of a save that failed (%v) is stored", t, c.err)
				}
			}
			var u *rangedberror.UnexpectedSequenceNumber
			if errors.As(c.err, &u) && u.Expected != c.exp {
				return fmt.Errorf("%s: error expects %d, called with %d", c.name, u.Expected, c.exp)
			}
			if (c.op.Op == "save" || (c.op.Op == "osave" && u == nil)) && !k.overloaded(c) {
				return fmt.Errorf("%s: %s failed: %v", c.name, c.op.Op, c.err)
			}
			continue
		}
		if c.op.Op == "bad" {
			return fmt.Errorf("%s: a batch that must be refused (%q) was accepted", c.name, c.op.How)
		}
		if !ok {
			return fmt.Errorf("event %q of an accepted save is missing", c.texts[0])
		}
		for j, t := range c.texts {
			if first+j >= len(log) || log[first+j].text != t {
				return fmt.Errorf("the batch of %s is not stored in one piece: event %d is not at position %d", c.name, j, first+j)
			}
			if log[first+j].stream != c.agg.Stream {
				return fmt.Errorf("event %q is in stream %q", t, log[first+j].stream)
			}
		}
		last := first + len(c.texts) - 1
		if c.n != log[last].ssn {
			return fmt.Errorf("%s returned stream sequence number %d, stored as %d", c.name, c.n, log[last].ssn)
		}
		if c.op.Op == "osave" && log[first].ssn != c.exp+1 {
			return fmt.Errorf("%s expected %d, but was stored from %d on", c.name, c.exp, log[first].ssn)
		}
		stored += len(c.texts)
		spans = append(spans, span{c, first, last})
	}
	if stored != len(log) {
		return fmt.Errorf("%d events are stored, %d were accepted", len(log), stored)
	}
	// Calls that do not overlap in time are stored in that order.
	sort.Slice(spans, func(i, j int) bool { return spans[i].first < spans[j].first })
	for i := range spans {
		for j := i + 1; j < len(spans); j++ {
			if spans[j].c.ret < spans[i].c.inv {
				return fmt.Errorf("%s returned before %s started, but is stored after it", spans[j].c.name, spans[i].c.name)
			}
		}
	}
	// bounds gives the log positions a call may have been at: after every save
	// that had returned, and before every save that had not started.
	bounds := func(c *call) (int, int) {
		lo, hi := 0, len(log)
		for _, s := range spans {
			if s.c.ret < c.inv && s.last+1 > lo {
				lo = s.last + 1
			}
			if s.c.inv > c.ret && s.first < hi {
				hi = s.first
			}
		}
		return lo, hi
	}
	cuts := []int{0}
	for _, s := range spans {
		cuts = append(cuts, s.last+1)
	}
	lengthAt := func(stream string, cut int) uint64 {
		n := uint64(0)
		for _, r := range log[:cut] {
			if r.stream == stream {
				n++
			}
		}
		return n
	}
	explain := func(c *call, ok func(cut int) bool) bool {
		lo, hi := bounds(c)
		for _, cut := range cuts {
			if cut >= lo && cut <= hi && ok(cut) {
				return true
			}
		}
		return false
	}
	for _, c := range all {
		switch c.op.Op {
		case "osave":
			var u *rangedberror.UnexpectedSequenceNumber
			if errors.As(c.err, &u) {
				if u.ActualSequenceNumber == c.exp {
					return fmt.Errorf("%s was refused although the stream was at the expected %d", c.name, c.exp)
				}
				if !explain(c, func(cut int) bool { return lengthAt(c.agg.Stream, cut) == u.ActualSequenceNumber }) {
					return fmt.Errorf("%s was told that the stream is at %d, which it was not during the call", c.name, u.ActualSequenceNumber)
				}
			}
		case "total":
			if c.err != nil || !explain(c, func(cut int) bool { return lengthAt(c.agg.Stream, cut) == c.n }) {
				return fmt.Errorf("%s counted %d events (%v), which the stream did not have during the call", c.name, c.n, c.err)
			}
		case "all", "types", "stream":
			match := func(r seen) bool { return r.gsn >= uint64(c.op.From) }
			if c.op.Op == "types" {
				names := k.typeNames(c.op.Types)
				match = func(r seen) bool {
					for _, n := range names {
						if r.atype == n {
							return r.gsn >= uint64(c.op.From)
						}
					}
					return false
				}
			}
			if c.op.Op == "stream" {
				match = func(r seen) bool { return r.stream == c.agg.Stream && r.ssn >= uint64(c.op.From) }
			}
			if !explain(c, func(cut int) bool {
				if c.op.Op == "stream" {
					if missing := lengthAt(c.agg.Stream, cut) == 0; missing != (c.err != nil) {
						return false
					}
				} else if c.err != nil {
					return false
				}
				i := 0
				for _, r := range log[:cut] {
					if match(r) {
						if i >= len(c.got) || c.got[i] != r {
							return false
						}
						i++
					}
				}
				return i == len(c.got)
			}) {
				return fmt.Errorf("%s (%s from %d) read %v (error %v), which is no state the store was in during the call; the log is %v", c.name, c.op.Op, c.op.From, c.got, c.err, log)
			}
		}
	}
	if live != nil {
		if len(live) != len(log) {
			return fmt.Errorf("a live subscriber got %d of %d events: %v of %v", len(live), len(log), live, log)
		}
		for i := range live {
			if live[i] != log[i] {
				return fmt.Errorf("a live subscriber got %v at position %d, the log has %v", live[i], i, log[i])
			}
		}
	}
	return nil
}

func overlaps(calls [][]*call) int {
	n := 0
	for w, cs := range calls {
		for _, a := range cs {
			for v := w + 1; v < len(calls); v++ {
				for _, b := range calls[v] {
					if a.inv < b.ret && b.inv < a.ret {
						n++
					}
				}
			}
		}
	}
	return n
}

func RunClients(c *pbt.C, p CPlan) {
	y := p
	k := startClients(c, y)
	// The live subscriber sees everything but the setup.
	setup := 0
	for _, s := range k.setup {
		setup += s.op.N
	}
	var mu sync.Mutex
	var live []seen
	got := make(chan struct{}, 1)
	sub := k.b.Store.AllEventsSubscription(context.Background(), 2000, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
		mu.Lock()
		live = append(live, see(r))
		mu.Unlock()
		select {
		case got <- struct{}{}:
		default:
		}
	}))
	if err := sub.StartFrom(0); err != nil {
		c.Failf("StartFrom(0): %v", err)
	}
	defer sub.Stop()
	k.run()
	recs, err := kit.Drain(k.b.Store.Events(context.Background(), 0))
	if err != nil {
		c.Failf("Events(0): %v", err)
	}
	if len(recs) > 0 {
		last := recs[len(recs)-1].GlobalSequenceNumber
		deadline := time.After(30 * time.Second)
	wait:
		for {
			mu.Lock()
			done := len(live) > 0 && live[len(live)-1].gsn >= last
			mu.Unlock()
			if done {
				break
			}
			select {
			case <-got:
			case <-deadline:
				break wait
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if live == nil {
		live = []seen{}
	}
	if err := k.judge(live); err != nil {
		c.Failf("backend %s: %v", p.Backend, err)
	}
	if n := overlaps(k.calls); n > 0 {
		c.NonTrivial()
		c.Class("overlapping calls")
	}
}

// Round is one competition of optimistic writes for a stream.
type Round struct {
	A     int      `json:"a"`
	Plain int      `json:"plain"` // events saved before the round
	Do    []string `json:"do"`    // per competitor: save, del, stale, ahead
}

// RPlan is a sequence of competitions.
type RPlan struct {
	Backend string    `json:"backend"`
	Yield   uint64    `json:"yield"`
	Aggs    []kit.Agg `json:"aggs"`
	Rounds  []Round   `json:"rounds"`
}

func GenRPlan(backends []string) func(t *rapid.T) RPlan {
	return func(t *rapid.T) RPlan {
		p := RPlan{
			Backend: rapid.SampledFrom(backends).Draw(t, "backend"),
			Yield:   rapid.Uint64Range(0, 1<<40).Draw(t, "yield"),
			Aggs:    kit.GenAggs(1, 2, false).Draw(t, "aggs"),
		}
		p.Rounds = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Round {
			return Round{
				A:     rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"),
				Plain: rapid.IntRange(0, 2).Draw(t, "plain"),
				Do:    rapid.SliceOfN(rapid.SampledFrom([]string{"save", "save", "save", "del", "stale", "ahead"}), 2, 6).Draw(t, "do"),
			}
		}), 1, 6).Draw(t, "rounds")
		return p
	}
}

func RunRounds(c *pbt.C, p RPlan) {
	y := &kit.Yielder{Seed: p.Yield}
	kit.Excuse(c)
	b := kit.OpenYielding(p.Backend, y)
	c.Cleanup(b.Close)
	ctx := context.Background()
	m := &kit.Model{Gaps: b.Gaps}
	streams, types := kit.Streams(p.Aggs), kit.Types(p.Aggs)
	dead := map[string]bool{}
	for i, r := range p.Rounds {
		a := p.Aggs[r.A%len(p.Aggs)]
		if dead[a.Stream] {
			continue
		}
		b.Clock.Set(int64(1000 + i))
		if r.Plain > 0 {
			var specs []kit.EvSpec
			var recs []*rangedb.EventRecord
			for j := 0; j < r.Plain; j++ {
				s := kit.EvSpec{Kind: "thing", Num: int64(j)}
				specs, recs = append(specs, s), append(recs, s.Record(a.Type, a.ID))
			}
			if _, err := b.Store.Save(ctx, a.Stream, recs...); err != nil {
				c.Failf("save: %v", err)
			}
			if err := m.Learn(b.Store, m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs)); err != nil {
				c.Failf("backend %s, round %d: %v", p.Backend, i, err)
			}
		}
		cur := m.Len(a.Stream)
		errs := make([]error, len(r.Do))
		ns := make([]uint64, len(r.Do))
		specs := make([][]kit.EvSpec, len(r.Do))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for j, what := range r.Do {
			exp := cur
			switch what {
			case "stale":
				if exp--; exp == 0 {
					exp = 500 // 0 is right once the stream is deleted
				}
			case "ahead":
				exp += 1000
			}
			var recs []*rangedb.EventRecord
			for x := 0; x < 1+j%3; x++ {
				s := kit.EvSpec{Kind: "thing", Text: fmt.Sprintf("r%d.%d.%d", i, j, x)}
				specs[j] = append(specs[j], s)
				e := s.Record(a.Type, a.ID)
				e.Event = kit.Hook(e.Event, y.Yield)
				recs = append(recs, e)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				y.Yield()
				s := b.Store
				if n := len(b.Stores); n > 0 {
					s = b.Stores[j%n]
				}
				if what == "del" {
					errs[j] = s.OptimisticDeleteStream(ctx, exp, a.Stream)
				} else {
					ns[j], errs[j] = s.OptimisticSave(ctx, exp, a.Stream, recs...)
				}
			}()
		}
		close(start)
		wg.Wait()
		winner, right := -1, 0
		for j, what := range r.Do {
			if what == "save" || (what == "del" && cur > 0) {
				right++
			}
			if errs[j] == nil {
				if what == "stale" || what == "ahead" {
					c.Failf("backend %s, round %d: accepted with a wrong expectation", p.Backend, i)
				}
				if winner >= 0 {
					// A save on the stream deleted by another competitor starts over at 0.
					c.Failf("backend %s, round %d: competitors %d (%s) and %d (%s) both succeeded expecting %d", p.Backend, i, winner, r.Do[winner], j, what, cur)
				}
				winner = j
			}
		}
		if right > 0 && winner < 0 {
			c.Failf("backend %s, round %d: no competitor succeeded although the stream was at %d: %v", p.Backend, i, cur, errs)
		}
		next := cur
		if winner >= 0 {
			if r.Do[winner] == "del" {
				m.Delete(a.Stream)
				dead[a.Stream] = b.Tombstones
				next = 0
			} else {
				if err := m.Learn(b.Store, m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs[winner])); err != nil {
					c.Failf("backend %s, round %d: %v", p.Backend, i, err)
				}
				next = m.Len(a.Stream)
				if ns[winner] != next {
					c.Failf("backend %s, round %d: returned %d, the stream is at %d", p.Backend, i, ns[winner], next)
				}
			}
		}
		for j, err := range errs {
			if err == nil {
				continue
			}
			var u *rangedberror.UnexpectedSequenceNumber
			if r.Do[j] == "del" && err.Error() == rangedb.ErrStreamNotFound.Error() && (cur == 0 || next == 0) {
				continue
			}
			if dead[a.Stream] && r.Do[j] != "del" && !errors.As(err, &u) {
				continue
			}
			if !errors.As(err, &u) || (u.ActualSequenceNumber != cur && u.ActualSequenceNumber != next) {
				c.Failf("backend %s, round %d: competitor %d (%s) was refused with %v; the stream went from %d to %d", p.Backend, i, j, r.Do[j], err, cur, next)
			}
		}
		if err := kit.CheckStore(m, b.Store, streams, types); err != nil {
			c.Failf("backend %s, after round %d: %v", p.Backend, i, err)
		}
		if right > 1 {
			c.NonTrivial()
			c.Class("contended round")
		}
	}
}

// state is a store in the search for an order of the calls.
type state struct {
	gsn  uint64
	log  []seen
	dead string // streams that were deleted for good
}

// gone says whether the stream was deleted for good.
func (s state) gone(stream string) bool { return strings.Contains(s.dead, "\x00"+stream+"\x00") }

func (s state) len(stream string) uint64 {
	n := uint64(0)
	for _, r := range s.log {
		if r.stream == stream {
			n++
		}
	}
	return n
}

func (s state) key() string {
	var b strings.Builder
	fmt.Fprint(&b, s.gsn, s.dead)
	for _, r := range s.log {
		fmt.Fprintf(&b, ",%d %s", r.gsn, r.text)
	}
	return b.String()
}

func (k *clients) save(s state, c *call) (state, bool) {
	out := state{s.gsn, append([]seen(nil), s.log...), s.dead}
	if s.gone(c.agg.Stream) {
		return s, false
	}
	ssn := s.len(c.agg.Stream)
	for _, t := range c.texts {
		gsn := out.gsn + 1
		if k.b.Gaps {
			// Whatever the reads say, as long as it increases.
			gsn = k.gsns[t]
			if gsn != 0 && gsn <= out.gsn {
				return s, false
			}
		}
		out.gsn = max(out.gsn, gsn)
		ssn++
		out.log = append(out.log, seen{gsn: gsn, ssn: ssn, stream: c.agg.Stream, text: t, atype: c.agg.Type})
	}
	return out, true
}

// step says whether the call can have had its result in this state.
func (k *clients) step(s state, c *call) (state, bool) {
	n := s.len(c.agg.Stream)
	var u *rangedberror.UnexpectedSequenceNumber
	conflict := errors.As(c.err, &u)
	refused := conflict && u.Expected == c.exp && u.ActualSequenceNumber == n && n != c.exp
	read := func(match func(seen) bool) bool {
		i := 0
		for _, r := range s.log {
			if match(r) {
				if i >= len(c.got) || c.got[i] != r {
					return false
				}
				i++
			}
		}
		return i == len(c.got)
	}
	from := uint64(c.op.From)
	switch c.op.Op {
	case "save":
		if c.err != nil {
			return s, k.overloaded(c) || s.gone(c.agg.Stream)
		}
		out, fits := k.save(s, c)
		return out, fits && c.n == n+uint64(len(c.texts))
	case "osave":
		if c.err != nil {
			return s, refused || k.overloaded(c) || !conflict && s.gone(c.agg.Stream)
		}
		out, fits := k.save(s, c)
		return out, fits && n == c.exp && c.n == n+uint64(len(c.texts))
	case "bad":
		return s, c.err != nil
	case "del":
		if errors.Is(c.err, rangedb.ErrStreamNotFound) {
			return s, n == 0
		}
		if c.err != nil {
			return s, refused && n > 0 || k.overloaded(c)
		}
		out := state{gsn: s.gsn, dead: s.dead}
		if k.b.Tombstones {
			out.dead += "\x00" + c.agg.Stream + "\x00"
		}
		for _, r := range s.log {
			if r.stream != c.agg.Stream {
				out.log = append(out.log, r)
			}
		}
		return out, n > 0 && n == c.exp
	case "total":
		return s, c.err == nil && c.n == n
	case "all":
		return s, c.err == nil && read(func(r seen) bool { return r.gsn >= from })
	case "types":
		names := k.typeNames(c.op.Types)
		return s, c.err == nil && read(func(r seen) bool { return r.gsn >= from && slices.Contains(names, r.atype) })
	case "stream":
		if errors.Is(c.err, rangedb.ErrStreamNotFound) {
			return s, n == 0 && len(c.got) == 0
		}
		return s, c.err == nil && n > 0 && read(func(r seen) bool { return r.stream == c.agg.Stream && r.ssn >= from })
	}
	return s, true
}

// RunLinear asks for an order of all calls, deletions too, that explains every result.
func RunLinear(c *pbt.C, p CPlan) {
	k := startClients(c, p)
	k.run()
	var all []*call
	for _, a := range p.Aggs {
		final := &call{op: COp{Op: "stream"}, agg: a, name: "final"}
		k.do(final, 0, map[string]uint64{})
		all = append(all, final)
	}
	final := &call{op: COp{Op: "all"}, name: "final"}
	k.do(final, 0, map[string]uint64{})
	all = append(all, final)
	for _, cs := range k.calls {
		all = append(all, cs...)
	}
	if k.b.Gaps {
		k.gsns = map[string]uint64{}
		for _, x := range all {
			for _, r := range x.got {
				if was, ok := k.gsns[r.text]; ok && was != r.gsn {
					c.Failf("backend %s: event %q was read with the global sequence numbers %d and %d", p.Backend, r.text, was, r.gsn)
				}
				k.gsns[r.text] = r.gsn
			}
		}
	}
	var s state
	for _, x := range k.setup {
		var ok bool
		if s, ok = k.save(s, x); !ok {
			c.Failf("backend %s: the global sequence numbers %v of the events saved first do not increase", p.Backend, k.gsns)
		}
	}
	var spans []kit.Interval
	for _, x := range all {
		spans = append(spans, kit.Interval{Inv: x.inv, Ret: x.ret})
	}
	ok, decided := kit.Linearize(spans, s, func(s state, i int) (state, bool) { return k.step(s, all[i]) }, state.key, 200000)
	if !decided {
		c.Class("undecided")
		return
	}
	if !ok {
		sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
		var text strings.Builder
		for _, x := range all {
			fmt.Fprintf(&text, "\n%d-%d %s: %s of %d on %q expecting %d from %d types %v: %d, %v %v", x.inv, x.ret, x.name, x.op.Op, len(x.texts), x.agg.Stream, x.exp, x.op.From, x.op.Types, x.n, x.err, x.got)
		}
		c.Failf("backend %s: no order of the calls explains their results:%s", p.Backend, text.String())
	}
	if overlaps(k.calls) > 0 {
		c.NonTrivial()
		for _, x := range all {
			if x.op.Op == "del" && x.err == nil {
				c.Class("overlapping calls, stream deleted")
				return
			}
		}
	}
}

// RunLiveness only asks that every call returns and the store still works.
func RunLiveness(c *pbt.C, p CPlan) {
	k := startClients(c, p)
	k.run()
	for _, a := range p.Aggs {
		e := kit.EvSpec{Kind: "thing", Text: "after"}.Record(a.Type, a.ID)
		if _, err := k.b.Store.Save(context.Background(), a.Stream, e); err != nil {
			c.Failf("backend %s: save after all clients are done: %v", p.Backend, err)
		}
	}
	if _, err := kit.Drain(k.b.Store.EventsByAggregateTypes(context.Background(), 0, k.types...)); err != nil {
		c.Failf("backend %s: read after all clients are done: %v", p.Backend, err)
	}
	if n := overlaps(k.calls); n > 0 {
		c.NonTrivial()
	}
}
