// Package hist generates histories of calls on a store and compares every answer
// with the reference model.
package hist

import (
	"context"
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// Op is one call on a store.
type Op struct {
	Op    string       `json:"op"` // save, osave, del, reopen, all, types, stream, total, check
	A     int          `json:"a"`  // aggregate
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Rep   int          `json:"rep,omitempty"` // the events are saved this many times over, in one batch
	Exp   int64        `json:"exp,omitempty"` // added to the right expected sequence number
	Bad   string       `json:"bad,omitempty"` // what is wrong with the call
	BadAt int          `json:"at,omitempty"`
	From  string       `json:"from,omitempty"`
	FromN int          `json:"n,omitempty"`
	Types []int        `json:"types,omitempty"`
}

// Plan is a history of calls on one store.
type Plan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []Op      `json:"ops"`
}

// Mix says what histories are made of.
type Mix struct {
	Backends []string
	Wild     bool
	Ops      []string
	Bad      []string
	Min, Max int
	Batch    int
	Rep      int // largest batch repetition
	Aggs     int
	Exps     []int64
}

// GenPlan generates histories.
func GenPlan(m Mix) func(t *rapid.T) Plan {
	exps := m.Exps
	if exps == nil {
		exps = []int64{0, 0, 0, 0, 0, -1, 1, 2, -2, 100, math.MinInt64}
	}
	return func(t *rapid.T) Plan {
		p := Plan{Backend: rapid.SampledFrom(m.Backends).Draw(t, "backend")}
		p.Aggs = kit.GenAggs(1, max(m.Aggs, 4), m.Wild).Draw(t, "aggs")
		op := rapid.Custom(func(t *rapid.T) Op {
			o := Op{Op: rapid.SampledFrom(m.Ops).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
			switch o.Op {
			case "save", "osave":
				o.Ev = rapid.SliceOfN(kit.GenEv(), 1, m.Batch).Draw(t, "ev")
				if m.Rep > 0 && rapid.Bool().Draw(t, "long") {
					o.Rep = rapid.IntRange(m.Rep/3, m.Rep).Draw(t, "rep")
				}
				if len(m.Bad) > 0 {
					o.Bad = rapid.SampledFrom(m.Bad).Draw(t, "bad")
				}
				if o.Bad != "" {
					o.BadAt = rapid.IntRange(0, len(o.Ev)-1).Draw(t, "at")
				}
				if o.Op == "osave" {
					o.Exp = rapid.SampledFrom(exps).Draw(t, "exp")
				}
			case "del":
				o.Exp = rapid.SampledFrom(exps).Draw(t, "exp")
				if len(m.Bad) > 0 && rapid.IntRange(0, 4).Draw(t, "c") == 0 {
					o.Bad = "cancelled"
				}
			case "all", "types", "stream":
				o.From = rapid.SampledFrom([]string{"zero", "at", "after", "end", "past", "max"}).Draw(t, "from")
				o.FromN = rapid.IntRange(0, 30).Draw(t, "n")
				if o.Op == "types" {
					o.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 0, 6).Draw(t, "types")
				}
			}
			return o
		})
		p.Ops = rapid.SliceOfN(op, m.Min, m.Max).Draw(t, "ops")
		return p
	}
}

func (o Op) from(recs []*kit.MRec, num func(*kit.MRec) uint64) uint64 {
	pick := func(d uint64) uint64 {
		if len(recs) == 0 {
			return uint64(o.FromN)
		}
		return num(recs[o.FromN%len(recs)]) + d
	}
	switch o.From {
	case "at":
		return pick(0)
	case "after":
		return pick(1)
	case "end":
		if len(recs) == 0 {
			return 1
		}
		return num(recs[len(recs)-1])
	case "past":
		if len(recs) == 0 {
			return 1
		}
		return num(recs[len(recs)-1]) + 1 + uint64(o.FromN)
	case "max":
		if o.Bad == "int4" {
			return math.MaxInt32
		}
		return math.MaxUint64
	}
	return 0
}

type run struct {
	c       *pbt.C
	b       *kit.Backend
	m       *kit.Model
	streams []string
	types   []string
	full    bool // compare every view after each call
	live    *kit.Live
	n       map[string]int  // what happened
	dead    map[string]bool // streams that were deleted for good
}

// did notes that something worth counting happened.
func (r *run) did(what string) { r.n[what]++; r.c.Class(what) }

// inside counts a read that starts inside the history.
func (r *run) inside(o Op) {
	if len(r.m.Recs) > 1 && (o.From == "at" || o.From == "after" || o.From == "end") {
		r.did("from-inside")
	}
	r.did("from-" + o.From)
}

// IsCanceled says whether an error is that of a cancelled context.
func IsCanceled(err error) bool {
	return errors.Is(err, context.Canceled) || (err != nil && err.Error() == context.Canceled.Error())
}

// RunPlan runs a history; nontrivial is told what happened.
func RunPlan(full, watch bool, nontrivial func(n map[string]int) bool) func(c *pbt.C, p Plan) {
	return func(c *pbt.C, p Plan) {
		kit.Excuse(c)
		b := kit.Open(p.Backend)
		c.Cleanup(b.Close)
		r := &run{c: c, b: b, m: &kit.Model{Gaps: b.Gaps}, streams: append(kit.Streams(p.Aggs), "no such stream"), types: append(kit.Types(p.Aggs), "no such type"), full: full, n: map[string]int{}, dead: map[string]bool{}}
		if watch && !slices.ContainsFunc(p.Ops, func(o Op) bool { return o.Op == "reopen" }) {
			r.live = kit.Watch(b.Store)
		}
		for i, o := range p.Ops {
			b.Clock.Set(int64(1_600_000_000 + i*10))
			if err := r.step(p, i, o); err != nil {
				c.Failf("backend %s, call %d (%s): %v", p.Backend, i, o.Op, err)
			}
		}
		if err := kit.CheckStore(r.m, b.Store, r.streams, r.types); err != nil {
			c.Failf("backend %s, at the end: %v", p.Backend, err)
		}
		if r.live != nil {
			if err := r.live.End(b.Store, r.m); err != nil {
				c.Failf("backend %s: live subscription: %v", p.Backend, err)
			}
		}
		if nontrivial(r.n) {
			c.NonTrivial()
		}
	}
}

func (r *run) step(p Plan, i int, o Op) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s, m := r.b.Store, r.m
	if r.b.Gaps && o.From == "max" {
		o.Bad = "int4" // the largest number the column can hold
	}
	a := p.Aggs[o.A%len(p.Aggs)]
	cur := m.Len(a.Stream)
	r.did("op:" + o.Op)
	switch o.Op {
	case "save", "osave":
		if o.Rep > 1 {
			var all []kit.EvSpec
			for k := 0; k < o.Rep; k++ {
				all = append(all, o.Ev...)
			}
			o.Ev = all
		}
		var recs []*rangedb.EventRecord
		for k, sp := range o.Ev {
			if (o.Bad == "bomb" || o.Bad == "misfit") && k == o.BadAt {
				sp.Kind = o.Bad
			}
			if o.Bad == "null" && k == o.BadAt {
				// An event without data, which a store may refuse.
				sp.Kind = "null"
				o.Ev = append([]kit.EvSpec(nil), o.Ev...)
				o.Ev[k] = sp
			}
			t, id := a.Type, a.ID
			if o.Bad == "type" && k == o.BadAt {
				t += "x"
			}
			if o.Bad == "id" && k == o.BadAt {
				id += "x"
			}
			e := sp.Record(t, id)
			if o.Bad == "cancelmid" && k == o.BadAt {
				e.Event = kit.Hook(e.Event, cancel)
			}
			recs = append(recs, e)
		}
		mustFail := ""
		switch o.Bad {
		case "type", "id":
			if len(o.Ev) > 1 {
				mustFail = "it mixes aggregates"
			} else {
				// A single event of another aggregate is a valid batch.
				recs = []*rangedb.EventRecord{o.Ev[0].Record(a.Type, a.ID)}
			}
		case "bomb":
			mustFail = "an event cannot be serialised"
		case "misfit":
			mustFail = "an event cannot be read back"
		case "empty":
			recs, mustFail = nil, "it has no events"
		case "cancelled":
			cancel()
			mustFail = "its context is cancelled"
		}
		if r.dead[a.Stream] {
			mustFail = "its stream was deleted for good"
			r.did("dead")
		}
		exp := uint64(0)
		wrong := false
		var n uint64
		var err error
		if o.Op == "osave" {
			exp = cur + uint64(o.Exp)
			wrong = exp != cur
			n, err = s.OptimisticSave(ctx, exp, a.Stream, recs...)
		} else {
			n, err = s.Save(ctx, a.Stream, recs...)
		}
		if wrong && err == nil {
			return fmt.Errorf("accepted with expected sequence number %d, the stream is at %d", exp, cur)
		}
		if mustFail != "" && err == nil {
			return fmt.Errorf("accepted although %s", mustFail)
		}
		if err == nil {
			if err := m.Learn(s, m.Append(a.Stream, a.Type, a.ID, uint64(1_600_000_000+i*10), o.Ev)); err != nil {
				return err
			}
			if n != m.Len(a.Stream) {
				return fmt.Errorf("returned stream sequence number %d, expected %d", n, m.Len(a.Stream))
			}
			r.did("accepted")
			r.n["longest"] = max(r.n["longest"], int(n))
		} else {
			r.did("rejected")
			if o.BadAt > 0 {
				r.did("rejected-midway")
			}
			if wrong {
				r.did("conflict")
			}
			if mustFail == "" && !wrong && o.Bad != "null" && !(o.Bad == "cancelmid" && (IsCanceled(err) || r.b.Gaps)) {
				return fmt.Errorf("failed: %v", err)
			}
			if mustFail == "" && wrong && o.Bad != "cancelmid" && o.Bad != "null" {
				var u *rangedberror.UnexpectedSequenceNumber
				if !errors.As(err, &u) {
					return fmt.Errorf("error is %T %v, expected an unexpected sequence number error", err, err)
				}
				if u.Expected != exp || u.ActualSequenceNumber != cur {
					return fmt.Errorf("error says expected %d actual %d, called with %d on a stream at %d", u.Expected, u.ActualSequenceNumber, exp, cur)
				}
			}
			if o.Bad == "cancelled" && !wrong && !r.dead[a.Stream] && !IsCanceled(err) {
				return fmt.Errorf("error is %v, expected context canceled", err)
			}
		}
	case "del":
		exp := cur + uint64(o.Exp)
		if o.Bad == "cancelled" {
			cancel()
		}
		err := s.OptimisticDeleteStream(ctx, exp, a.Stream)
		switch {
		case o.Bad == "cancelled":
			if !IsCanceled(err) {
				return fmt.Errorf("error is %v, expected context canceled", err)
			}
		case cur == 0:
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() {
				return fmt.Errorf("deleting a stream that does not exist: error is %v", err)
			}
			r.did("del-missing")
		case exp != cur:
			var u *rangedberror.UnexpectedSequenceNumber
			if !errors.As(err, &u) {
				return fmt.Errorf("error is %v, expected an unexpected sequence number error", err)
			}
			if u.Expected != exp || u.ActualSequenceNumber != cur {
				return fmt.Errorf("error says expected %d actual %d, called with %d on a stream at %d", u.Expected, u.ActualSequenceNumber, exp, cur)
			}
			r.did("del-wrong")
		default:
			if err != nil {
				return fmt.Errorf("failed: %v", err)
			}
			m.Delete(a.Stream)
			r.dead[a.Stream] = r.b.Tombstones
			r.did("deleted")
			if len(m.Recs) > 0 {
				r.did("deleted-others")
			}
		}
	case "reopen":
		if r.b.Reopen != nil {
			if err := r.b.Reopen(); err != nil {
				return err
			}
			r.did("reopened")
		}
	case "all":
		r.inside(o)
		g := o.from(m.Recs, func(r *kit.MRec) uint64 { return r.GSN })
		got, err := kit.Drain(s.Events(ctx, g))
		if err != nil {
			return fmt.Errorf("Events(%d): %v", g, err)
		}
		if err := kit.Same(m.All(g), got); err != nil {
			return fmt.Errorf("Events(%d): %v", g, err)
		}
	case "types":
		r.inside(o)
		var types []string
		for _, x := range o.Types {
			types = append(types, r.types[x%len(r.types)])
		}
		g := o.from(m.Types(0, types...), func(r *kit.MRec) uint64 { return r.GSN })
		got, err := kit.Drain(s.EventsByAggregateTypes(ctx, g, types...))
		if err != nil {
			return fmt.Errorf("EventsByAggregateTypes(%d, %q): %v", g, types, err)
		}
		if err := kit.Same(m.Types(g, types...), got); err != nil {
			return fmt.Errorf("EventsByAggregateTypes(%d, %q): %v", g, types, err)
		}
		if len(m.Types(0, types...)) > 0 && len(types) > 1 {
			r.did("multi-type")
		}
	case "stream":
		r.inside(o)
		n := o.from(m.Stream(a.Stream, 0), func(r *kit.MRec) uint64 { return r.SSN })
		got, err := kit.Drain(s.EventsByStream(ctx, n, a.Stream))
		if cur == 0 {
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() || len(got) > 0 {
				return fmt.Errorf("EventsByStream(%d, %q) of a stream that does not exist: %d records, error %v", n, a.Stream, len(got), err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("EventsByStream(%d, %q): %v", n, a.Stream, err)
		}
		if err := kit.Same(m.Stream(a.Stream, n), got); err != nil {
			return fmt.Errorf("EventsByStream(%d, %q): %v", n, a.Stream, err)
		}
	}
	if r.full && o.Op != "all" && o.Op != "types" && o.Op != "stream" {
		return kit.CheckStore(m, r.b.Store, r.streams, r.types)
	}
	return nil
}

// Extends says whether one name of the aggregates properly extends another.
func Extends(aggs []kit.Agg) bool {
	pair := func(a, b string) bool { return a != b && strings.HasPrefix(b, a) }
	for _, a := range aggs {
		for _, b := range aggs {
			if pair(a.Stream, b.Stream) || pair(a.Type, b.Type) {
				return true
			}
		}
	}
	return false
}
