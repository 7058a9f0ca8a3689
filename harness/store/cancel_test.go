package store

import (
	"context"
	"errors"
	"time"

	"github.com/inklabs/rangedb"
	"pgregory.net/rapid"

	"verifharness/hist"
	"verifharness/kit"
	"verifharness/pbt"
)

// Read is one read, cancelled at some point.
type Read struct {
	Kind  string `json:"kind"` // all, types, stream
	A     int    `json:"a"`
	Types []int  `json:"types,omitempty"`
	From  uint64 `json:"from"`
	After int    `json:"after"`          // records read before the cancellation; -1: cancelled before the call
	How   string `json:"how"`            // cancel, deadline
	Then  string `json:"then"`           // now: read on at once; late: read on after Pause; abandon; race: cancel while reading on
	Pause int    `json:"pause"`          // milliseconds
	Next  bool   `json:"next,omitempty"` // read with NextContext
}

// CancelPlan is a store content and cancelled reads of it.
type CancelPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Saves   []int     `json:"saves"` // aggregate of each event, in order
	Reads   []Read    `json:"reads"`
}

func genCancel(t *rapid.T) CancelPlan {
	p := CancelPlan{
		Backend: rapid.SampledFrom([]string{"mem", "ldb"}).Draw(t, "backend"),
		Aggs:    kit.GenAggs(1, 3, false).Draw(t, "aggs"),
	}
	p.Saves = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)-1), 0, 12).Draw(t, "saves")
	p.Reads = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Read {
		r := Read{
			Kind:  rapid.SampledFrom([]string{"all", "types", "types", "stream"}).Draw(t, "kind"),
			A:     rapid.IntRange(0, len(p.Aggs)).Draw(t, "a"), // one past: a stream that does not exist
			From:  uint64(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(t, "from")),
			After: rapid.IntRange(-1, 8).Draw(t, "after"),
			How:   rapid.SampledFrom([]string{"cancel", "cancel", "deadline"}).Draw(t, "how"),
			Then:  rapid.SampledFrom([]string{"now", "late", "abandon", "race"}).Draw(t, "then"),
			Pause: rapid.SampledFrom([]int{1, 500, 999, 1000, 1001, 1500, 3000, 60000}).Draw(t, "pause"),
			Next:  rapid.Bool().Draw(t, "nextcontext"),
		}
		if r.Kind == "types" {
			r.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 0, 5).Draw(t, "types")
		}
		return r
	}), 1, 4).Draw(t, "reads")
	return p
}

func runCancel(c *pbt.C, p CancelPlan) {
	b := kit.Open(p.Backend)
	c.Cleanup(b.Close)
	m := &kit.Model{}
	bg := context.Background()
	for i, n := range p.Saves {
		a := p.Aggs[n%len(p.Aggs)]
		s := kit.EvSpec{Kind: "thing", Num: int64(i)}
		if _, err := b.Store.Save(bg, a.Stream, s.Record(a.Type, a.ID)); err != nil {
			c.Failf("save: %v", err)
		}
		m.Append(a.Stream, a.Type, a.ID, 0, []kit.EvSpec{s})
	}
	types := append(kit.Types(p.Aggs), "no such type")
	for i, r := range p.Reads {
		ctx, cancel := context.WithCancel(bg)
		wait := func(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
		stop := cancel
		if r.How == "deadline" {
			cancel()
			ctx, cancel = context.WithTimeout(bg, 10*time.Second)
			stop = func() { time.Sleep(10 * time.Second) }
		}
		defer cancel()
		if r.After < 0 {
			stop()
		}
		stream := "no such stream"
		if r.A < len(p.Aggs) {
			stream = p.Aggs[r.A].Stream
		}
		var it rangedb.RecordIterator
		var want []*kit.MRec
		missing := false
		switch r.Kind {
		case "all":
			it, want = b.Store.Events(ctx, r.From), m.All(r.From)
		case "types":
			var names []string
			for _, n := range r.Types {
				names = append(names, types[n%len(types)])
			}
			it, want = b.Store.EventsByAggregateTypes(ctx, r.From, names...), m.Types(r.From, names...)
		default:
			it, want = b.Store.EventsByStream(ctx, r.From, stream), m.Stream(stream, r.From)
			missing = m.Len(stream) == 0
		}
		next := func() bool {
			if r.Next {
				return it.NextContext(bg)
			}
			return it.Next()
		}
		var got []*rangedb.Record
		ended := false
		for len(got) < r.After && !ended {
			if next() {
				got = append(got, it.Record())
			} else {
				ended = true
			}
		}
		if !ended && len(got) < len(want) {
			c.NonTrivial()
			c.Class("cut short")
		}
		if ended && !missing && (it.Err() != nil || len(got) != len(want)) {
			c.Failf("backend %s, read %d ended before it was cancelled after %d of %d records, error %v", p.Backend, i, len(got), len(want), it.Err())
		}
		c.Wait()
		if r.Then == "race" && r.How == "cancel" {
			go stop()
		} else if r.After >= 0 {
			stop()
		}
		c.Class("then:" + r.Then)
		if r.Then == "late" {
			wait(r.Pause)
		}
		if r.Then == "abandon" {
			wait(r.Pause)
			wait(5000)
			c.Wait()
		} else if !ended {
			for next() {
				got = append(got, it.Record())
				if len(got) > len(want) {
					break
				}
			}
			err := it.Err()
			if len(got) > len(want) {
				c.Failf("backend %s, read %d returned more than the %d expected records", p.Backend, i, len(want))
			}
			for k, rec := range got {
				if e := want[k].Matches(rec); e != nil {
					c.Failf("backend %s, read %d is not a prefix of the result: %v", p.Backend, i, e)
				}
			}
			if err == nil && (len(got) < len(want) || missing) {
				c.Failf("backend %s, read %d (cancelled after %d records, %s) ended without an error after %d of %d records", p.Backend, i, r.After, r.Then, len(got), len(want))
			}
			if err != nil && !hist.IsCanceled(err) && !errors.Is(err, context.DeadlineExceeded) && !(missing && errors.Is(err, rangedb.ErrStreamNotFound)) {
				c.Failf("backend %s, read %d ended with %v", p.Backend, i, err)
			}
			for k := 0; k < 2; k++ {
				if next() || (err != nil && it.Err() == nil) {
					c.Failf("backend %s, read %d went on after its end (error %v, now %v)", p.Backend, i, err, it.Err())
				}
			}
		}
		cancel()
		// Nothing of the read may remain in the way of a write. A reader that is
		// gone is given time to be noticed.
		wait(5000)
		s := kit.EvSpec{Kind: "thing", Num: int64(1000 + i)}
		a := p.Aggs[0]
		if _, err := b.Store.Save(bg, a.Stream, s.Record(a.Type, a.ID)); err != nil {
			c.Failf("backend %s: save after read %d: %v", p.Backend, i, err)
		}
		m.Append(a.Stream, a.Type, a.ID, 0, []kit.EvSpec{s})
	}
	if err := kit.CheckStore(m, b.Store, kit.Streams(p.Aggs), types); err != nil {
		c.Failf("backend %s: %v", p.Backend, err)
	}
}

func init() {
	pbt.Reg("C07", "cancelled", pbt.Opt{Quick: 6000, Thorough: 200000, Shards: 8, Bubble: true,
		Rule: "a store with up to 12 events and up to four reads (all, types, stream) cancelled or timed out before the call or after k records, the reader reading on at once, after a pause of up to a minute (fake clock), while the cancellation happens, or never; each followed by a save; non-trivial when a read was cut short inside its result"},
		genCancel, runCancel)
}
