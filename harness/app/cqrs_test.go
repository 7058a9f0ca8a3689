package app

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"log"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// Happened is an event.
type Happened struct {
	AType, AID string
	N          int
	By         string
	Bad        bool
}

func (e Happened) AggregateID() string   { return e.AID }
func (e Happened) AggregateType() string { return e.AType }
func (e Happened) EventType() string     { return "Happened" }

// MarshalJSON fails for a bad event, so that saving it does.
func (e Happened) MarshalJSON() ([]byte, error) {
	if e.Bad {
		return nil, kit.ErrBomb
	}
	type plain Happened
	return json.Marshal(plain(e))
}

// command addresses one stream and says what the handler shall emit.
type command struct {
	atype, id, kind string
	n               int
	emits           []rangedb.Event
}

func (c command) AggregateID() string   { return c.id }
func (c command) AggregateType() string { return c.atype }
func (c command) CommandType() string   { return c.kind }

// handler is an aggregate that records what it is given.
type handler struct {
	name  string
	types []string
	lazy  int // how many records it reads; negative: all

	yield   func()
	busy    atomic.Int32
	overlap atomic.Bool

	loaded  []*rangedb.Record
	loadErr error
	calls   []string
	emit    func(h *handler, c cqrs.Command) []rangedb.Event
}

func (h *handler) enter() {
	if h.busy.Add(1) > 1 {
		h.overlap.Store(true)
	}
	if h.yield != nil {
		h.yield()
	}
}

func (h *handler) Load(it rangedb.RecordIterator) {
	h.enter()
	defer h.busy.Add(-1)
	h.loaded, h.loadErr = nil, nil
	for h.lazy < 0 || len(h.loaded) < h.lazy {
		if !it.Next() {
			break
		}
		h.loaded = append(h.loaded, it.Record())
	}
	h.loadErr = it.Err()
	h.calls = append(h.calls, "load")
}

func (h *handler) Handle(c cqrs.Command) []rangedb.Event {
	h.enter()
	defer h.busy.Add(-1)
	h.calls = append(h.calls, "handle "+c.CommandType())
	return h.emit(h, c)
}

func (h *handler) CommandTypes() []string { return h.types }

// DEvent is one event a command makes its handler emit.
type DEvent struct {
	A   int  `json:"a"`
	Ptr bool `json:"p,omitempty"`
	Bad bool `json:"bad,omitempty"`
}

// DStep is one command, or a save behind the dispatcher's back.
type DStep struct {
	Op   string   `json:"op"` // dispatch, save, del
	A    int      `json:"a"`
	Kind int      `json:"k,omitempty"`
	Ptr  bool     `json:"p,omitempty"`
	Ev   []DEvent `json:"ev,omitempty"`
}

// DPlan is a history of commands.
type DPlan struct {
	Backend  string    `json:"backend"`
	Aggs     []kit.Agg `json:"aggs"`
	Handlers [][]int   `json:"handlers"` // the command types of each
	Split    int       `json:"split"`    // handlers given in a first option, the rest in a second one
	Lazy     []int     `json:"lazy"`
	Steps    []DStep   `json:"steps"`
}

var commandTypes = []string{"Do", "Undo", "do", "", "DoIt", "Other"}

func genDPlan(t *rapid.T) DPlan {
	p := DPlan{
		Backend:  rapid.SampledFrom([]string{"mem", "mem", "ldb", "remote"}).Draw(t, "backend"),
		Aggs:     kit.GenAggs(1, 4, true).Draw(t, "aggs"),
		Handlers: rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, len(commandTypes)-1), 0, 3), 0, 4).Draw(t, "handlers"),
	}
	p.Split = rapid.IntRange(0, 4).Draw(t, "split")
	p.Lazy = rapid.SliceOfN(rapid.SampledFrom([]int{-1, -1, -1, 0, 1}), 4, 4).Draw(t, "lazy")
	p.Steps = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DStep {
		return DStep{
			Op: rapid.SampledFrom([]string{"dispatch", "dispatch", "dispatch", "dispatch", "save", "del"}).Draw(t, "op"),
			A:  rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"), Kind: rapid.IntRange(0, len(commandTypes)-1).Draw(t, "kind"), Ptr: rapid.Bool().Draw(t, "ptr"),
			Ev: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) DEvent {
				e := DEvent{A: -1, Ptr: rapid.Bool().Draw(t, "ptr"), Bad: rapid.IntRange(0, 7).Draw(t, "bad") == 0}
				if rapid.IntRange(0, 3).Draw(t, "elsewhere") == 0 {
					e.A = rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")
				}
				return e
			}), 0, 4).Draw(t, "ev"),
		}
	}), 1, 14).Draw(t, "steps")
	return p
}

func init() {
	pbt.Reg("C25", "histories", pbt.Opt{Quick: 6000, Thorough: 250000, Shards: 8,
		Rule: "a case is a history of commands to several handlers and streams, beside saves and deletions in the store; non-trivial when a handler was loaded with events that an earlier command had saved"},
		genDPlan, runCommands)
	pbt.Reg("C25", "concurrent", pbt.Opt{Quick: 1500, Thorough: 50000, Shards: 4, Race: true,
		Rule: "a case is several goroutines dispatching commands that each take the next number of a stream, or book a limited stock; non-trivial when at least two goroutines address the same stream"},
		genXPlan, runConcurrent)
}

func plainName(a kit.Agg) string { return a.Type + "!" + a.ID }

func runCommands(c *pbt.C, p DPlan) {
	ctx := context.Background()
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	c.Class("backend " + p.Backend)
	b.Store.Bind(&Happened{})

	var handlers []*handler
	byType := map[string]*handler{}
	for i, kinds := range p.Handlers {
		h := &handler{name: fmt.Sprintf("handler %d", i), lazy: p.Lazy[i%len(p.Lazy)]}
		for _, k := range kinds {
			h.types = append(h.types, commandTypes[k])
			byType[commandTypes[k]] = h // the last one registered
		}
		h.emit = func(_ *handler, cmd cqrs.Command) []rangedb.Event {
			switch x := cmd.(type) {
			case command:
				return x.emits
			case *command:
				return x.emits
			}
			return nil
		}
		handlers = append(handlers, h)
	}
	split := min(p.Split, len(handlers))
	as := func(hs []*handler) (out []cqrs.Aggregate) {
		for _, h := range hs {
			out = append(out, h)
		}
		return out
	}
	var logged bytes.Buffer
	app := cqrs.New(b.Store, cqrs.WithLogger(log.New(&logged, "", 0)), cqrs.WithAggregates(as(handlers[:split])...), cqrs.WithAggregates(as(handlers[split:])...))

	streams := map[string][]Happened{}
	byCommand := map[int]bool{} // events saved by commands
	n := 0
	for i, s := range p.Steps {
		agg := p.Aggs[s.A]
		stream := plainName(agg)
		what := fmt.Sprintf("step %d: %s", i, s.Op)
		switch s.Op {
		case "save":
			n++
			e := Happened{AType: agg.Type, AID: agg.ID, N: n, By: "store"}
			if _, err := b.Store.Save(ctx, stream, &rangedb.EventRecord{Event: e}); err != nil {
				c.Failf("%s: %v", what, err)
			}
			streams[stream] = append(streams[stream], e)
		case "del":
			if len(streams[stream]) > 0 {
				if err := b.Store.OptimisticDeleteStream(ctx, uint64(len(streams[stream])), stream); err != nil {
					c.Failf("%s: %v", what, err)
				}
				delete(streams, stream)
			}
		case "dispatch":
			cmd := command{atype: agg.Type, id: agg.ID, kind: commandTypes[s.Kind]}
			var want []rangedb.Event
			next := map[string][]Happened{}
			for _, x := range s.Ev {
				a := agg
				if x.A >= 0 {
					a = p.Aggs[x.A]
				}
				n++
				e := Happened{AType: a.Type, AID: a.ID, N: n, By: "command", Bad: x.Bad}
				ev := rangedb.Event(e)
				if x.Ptr {
					ev = &e
				}
				cmd.emits = append(cmd.emits, ev)
				if !x.Bad {
					want = append(want, ev)
					byCommand[n] = true
					next[plainName(a)] = append(next[plainName(a)], e)
				}
			}
			for _, h := range handlers {
				h.calls, h.loaded = nil, nil
			}
			var given cqrs.Command = cmd
			if s.Ptr {
				given = &cmd
			}
			got := app.Dispatch(given)
			h := byType[cmd.kind]
			for _, other := range handlers {
				if other != h && len(other.calls) > 0 {
					c.Failf("%s %q: %s gets %v, it is for %v", what, cmd.kind, other.name, other.calls, other.types)
				}
			}
			if h == nil {
				if len(got) > 0 {
					c.Failf("%s %q: nobody handles it, but events are returned: %v", what, cmd.kind, got)
				}
				break
			}
			if strings.Join(h.calls, ", ") != "load, handle "+cmd.kind {
				c.Failf("%s %q: %s gets %v, want one load and then one handle", what, cmd.kind, h.name, h.calls)
			}
			history := streams[stream]
			if h.lazy >= 0 && len(history) > h.lazy {
				history = history[:h.lazy]
			}
			if len(h.loaded) != len(history) {
				c.Failf("%s %q on %q: loaded with %d events, the stream has %d", what, cmd.kind, stream, len(h.loaded), len(streams[stream]))
			}
			for j, e := range history {
				r := h.loaded[j]
				x, ok := r.Data.(*Happened)
				if !ok || x.N != e.N || x.By != e.By || r.AggregateID != e.AID || r.AggregateType != e.AType || r.StreamSequenceNumber != uint64(j+1) {
					c.Failf("%s %q on %q: event %d it is loaded with is %s, want number %d", what, cmd.kind, stream, j+1, kit.Show(r), e.N)
				}
				if byCommand[e.N] {
					c.NonTrivial()
				}
			}
			// Exactly the events that were saved are returned, in order.
			if len(got) != len(want) {
				c.Failf("%s %q: %d events returned, want %d", what, cmd.kind, len(got), len(want))
			}
			for j := range want {
				if got[j] != want[j] {
					c.Failf("%s %q: event %d returned is %s, want %s", what, cmd.kind, j+1, kit.Show(got[j]), kit.Show(want[j]))
				}
			}
			for k, v := range next {
				streams[k] = append(streams[k], v...)
			}
		}
		for _, a := range p.Aggs {
			name := plainName(a)
			recs, err := kit.Drain(b.Store.EventsByStream(ctx, 0, name))
			if err != nil && !(err == rangedb.ErrStreamNotFound && len(streams[name]) == 0) {
				c.Failf("%s: reading %q: %v", what, name, err)
			}
			if len(recs) != len(streams[name]) {
				c.Failf("%s: stream %q has %d events, want %d", what, name, len(recs), len(streams[name]))
			}
			for j, r := range recs {
				if x, ok := r.Data.(*Happened); !ok || x.N != streams[name][j].N {
					c.Failf("%s: event %d of stream %q is %s, want number %d", what, j+1, name, kit.Show(r.Data), streams[name][j].N)
				}
			}
		}
	}
}

// XPlan is a set of concurrent command senders.
type XPlan struct {
	Backend string  `json:"backend"`
	Seed    uint64  `json:"seed"`
	Stock   int     `json:"stock"`
	Senders [][]int `json:"senders"` // streams addressed, in order
	Kinds   int     `json:"kinds"`
}

func genXPlan(t *rapid.T) XPlan {
	return XPlan{
		Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"),
		Seed:    uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")),
		Stock:   rapid.IntRange(1, 6).Draw(t, "stock"),
		Senders: rapid.SliceOfN(rapid.SliceOfN(rapid.IntRange(0, 1), 1, 5), 2, 5).Draw(t, "senders"),
		Kinds:   rapid.IntRange(1, 2).Draw(t, "kinds"),
	}
}

func runConcurrent(c *pbt.C, p XPlan) {
	y := &kit.Yielder{Seed: p.Seed}
	b := kit.OpenYielding(p.Backend, y)
	c.Cleanup(b.Close)
	c.Class("backend " + p.Backend)
	b.Store.Bind(&Happened{})
	// The handler numbers the events of a stream, and emits none once the stock is used up.
	h := &handler{types: []string{"book", "order"}, lazy: -1, yield: y.Yield}
	h.emit = func(h *handler, cmd cqrs.Command) []rangedb.Event {
		n := len(h.loaded)
		y.Yield()
		if n >= p.Stock {
			return nil
		}
		return []rangedb.Event{Happened{AType: "stock", AID: cmd.AggregateID(), N: n + 1}}
	}
	app := cqrs.New(b.Store, cqrs.WithAggregates(h))
	var wg sync.WaitGroup
	seen, taken := map[int]int{}, make([]atomic.Int64, 2)
	total := []int{0, 0}
	start := make(chan struct{})
	for i, targets := range p.Senders {
		mine := map[int]bool{}
		for _, s := range targets {
			mine[s] = true
			total[s]++
		}
		for s := range mine {
			if seen[s]++; seen[s] > 1 {
				c.NonTrivial()
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j, s := range targets {
				y.Yield()
				kind := []string{"book", "order"}[(i+j)%p.Kinds]
				got := app.Dispatch(command{atype: "stock", id: fmt.Sprint(s), kind: kind})
				if len(got) > 1 {
					c.Report("a command for one item returns %d", len(got))
				}
				for _, e := range got {
					if x, ok := e.(Happened); !ok || x.AID != fmt.Sprint(s) {
						c.Report("a command for stream %d returns %s", s, kit.Show(e))
					}
				}
				taken[s].Add(int64(len(got)))
			}
		}()
	}
	close(start)
	wg.Wait()
	if h.overlap.Load() {
		c.Report("the handler is used by two commands at once")
	}
	for s := 0; s < 2; s++ {
		recs, err := kit.Drain(b.Store.EventsByStream(context.Background(), 0, fmt.Sprintf("stock!%d", s)))
		if err != nil && err != rangedb.ErrStreamNotFound {
			c.Report("%v", err)
		}
		if want := min(p.Stock, total[s]); len(recs) != want || int(taken[s].Load()) != want {
			c.Report("stream %d: %d events saved, %d returned, want %d of a stock of %d", s, len(recs), taken[s].Load(), want, p.Stock)
		}
		for i, r := range recs {
			if x, ok := r.Data.(*Happened); !ok || x.N != i+1 {
				c.Report("stream %d: event %d has number %s: two commands were handled on the same history", s, i+1, kit.Show(r.Data))
			}
		}
	}
	c.Check()
}
