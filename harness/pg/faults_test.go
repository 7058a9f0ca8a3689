package pg

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"pgregory.net/rapid"

	"verifharness/fakepg"
	"verifharness/kit"
	"verifharness/pbt"
)

// Fault is what goes wrong during a call.
type Fault struct {
	Kind string `json:"kind"` // of the statement it hits: any, begin, lock, select, insert, delete, commit
	Nth  int    `json:"nth"`
	How  string `json:"how"` // before, mid, after: the connection is lost; cancel: the caller gives up; otherwise an error code
}

// FOp is a call.
type FOp struct {
	Op    string `json:"op"` // save, osave, del, all, types, stream, total, restart, down, abandon
	A     int    `json:"a"`
	N     int    `json:"n,omitempty"`
	Exp   int    `json:"exp,omitempty"`
	From  int    `json:"from,omitempty"`
	Bad   string `json:"bad,omitempty"`
	Fault *Fault `json:"fault,omitempty"`
}

// FPlan is a history of calls on a store whose database or connection fails.
type FPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []FOp     `json:"ops"`
}

func genFaults(t *rapid.T) FPlan {
	p := FPlan{Backend: rapid.SampledFrom(pgStores).Draw(t, "backend"), Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
		o := FOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "osave", "osave", "del", "del", "all", "types", "stream", "stream", "total", "restart", "down", "abandon"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
		switch o.Op {
		case "restart", "down":
			return o
		case "save", "osave":
			o.N = rapid.IntRange(1, 4).Draw(t, "n")
			o.Bad = rapid.SampledFrom([]string{"", "", "", "bomb", "type", "null"}).Draw(t, "bad")
		case "abandon":
			o.N = rapid.IntRange(0, 2).Draw(t, "n")
		}
		if o.Op == "osave" || o.Op == "del" {
			o.Exp = rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, "exp")
		}
		if o.Op == "all" || o.Op == "types" || o.Op == "stream" || o.Op == "abandon" {
			o.From = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "from")
		}
		if rapid.IntRange(0, 2).Draw(t, "faulty") > 0 {
			kinds := []string{"any", "begin", "lock", "select", "insert", "commit", "commit"}
			switch o.Op {
			case "del":
				kinds = []string{"any", "begin", "lock", "select", "delete", "commit", "commit"}
			case "all", "types", "stream", "total", "abandon":
				kinds = []string{"select"}
			}
			o.Fault = &Fault{
				Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
				Nth:  rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "nth"),
				How:  rapid.SampledFrom([]string{"before", "after", "mid", "mid", "cancel", "53100", "57014", "40001"}).Draw(t, "how"),
			}
		}
		return o
	}), 2, 12).Draw(t, "ops")
	return p
}

type frun struct {
	c     *pbt.C
	b     *kit.Backend
	m     *kit.Model
	dead  int // connections of the pool that may be lost without it knowing
	fired bool
	hits  int
	live  *kit.Live
	heard []*kit.MRec // what a live subscriber must get
	feed  bool
}

func (r *frun) arm(f *Fault, cancel func()) {
	r.fired = false
	if f == nil {
		r.b.PG.SetHook(nil)
		return
	}
	var mu sync.Mutex
	n := 0
	r.b.PG.SetHook(func(kind string) fakepg.Act {
		mu.Lock()
		defer mu.Unlock()
		if (f.Kind != "any" && f.Kind != kind) || kind == "rollback" {
			return fakepg.Act{}
		}
		if n++; n != f.Nth {
			return fakepg.Act{}
		}
		r.fired = true
		switch f.How {
		case "before", "after", "mid":
			return fakepg.Act{Drop: f.How}
		case "cancel":
			cancel()
			return fakepg.Act{Delay: 2 * time.Millisecond}
		}
		return fakepg.Act{Err: &fakepg.Error{Code: f.How, Message: "injected"}}
	})
}

// excused says whether a call may have failed.
func (r *frun) excused() bool {
	if r.fired {
		r.hits++
		return true
	}
	if r.dead > 0 {
		r.dead--
		return true
	}
	return false
}

func (r *frun) truthful(err error, stream string, exp uint64) error {
	cur := r.m.Len(stream)
	var u *rangedberror.UnexpectedSequenceNumber
	if errors.As(err, &u) && (u.Expected != exp || u.ActualSequenceNumber != cur || exp == cur) {
		return fmt.Errorf("error says expected %d actual %d, called with %d on a stream at %d", u.Expected, u.ActualSequenceNumber, exp, cur)
	}
	if errors.Is(err, rangedb.ErrStreamNotFound) && cur > 0 {
		return fmt.Errorf("error says %v, the stream is at %d", err, cur)
	}
	return nil
}

// retry reads until no dead connection is in the way.
func (r *frun) retry(read func() error) error {
	r.b.PG.SetHook(nil)
	var err error
	for i := 0; i < 8; i++ {
		if err = read(); err == nil || errors.Is(err, rangedb.ErrStreamNotFound) {
			r.dead = 0
			return err
		}
		if r.dead == 0 && i > 2 {
			break
		}
	}
	return err
}

func (r *frun) step(p FPlan, i int, o FOp) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := p.Aggs[o.A%len(p.Aggs)]
	s, m := r.b.Store, r.m
	cur := m.Len(a.Stream)
	r.arm(o.Fault, cancel)
	defer r.b.PG.SetHook(nil)
	switch o.Op {
	case "restart", "down":
		conns, _ := r.b.PG.State()
		r.dead += conns
		if o.Op == "down" {
			r.b.PG.Refuse(true)
		}
		r.b.PG.DropConnections()
		if o.Op == "down" {
			e := kit.EvSpec{Kind: "thing"}.Record(a.Type, a.ID)
			if _, err := s.Save(ctx, a.Stream, e); err == nil {
				return errors.New("accepted without a database")
			}
			it := s.EventsByStream(ctx, 0, a.Stream)
			got, err := kit.Drain(it)
			if err == nil || len(got) > 0 || errors.Is(err, rangedb.ErrStreamNotFound) {
				return fmt.Errorf("a read without a database gave %d events, error %v", len(got), err)
			}
			if _, err := s.TotalEventsInStream(ctx, a.Stream); err == nil {
				return errors.New("events were counted without a database")
			}
			r.b.PG.Refuse(false)
		}
		r.c.Class(o.Op)
	case "save", "osave":
		var specs []kit.EvSpec
		var recs []*rangedb.EventRecord
		for k := 0; k < o.N; k++ {
			sp := kit.EvSpec{Kind: "thing", Num: int64(i*10 + k), Text: fmt.Sprintf("%d.%d", i, k)}
			specs, recs = append(specs, sp), append(recs, sp.Record(a.Type, a.ID))
		}
		mustFail := o.Bad == "bomb" || o.Bad == "type"
		switch o.Bad {
		case "bomb":
			recs = append(recs, kit.EvSpec{Kind: "bomb"}.Record(a.Type, a.ID))
		case "type":
			recs = append(recs, kit.EvSpec{Kind: "thing"}.Record(a.Type+"x", a.ID))
		case "null": // may be refused
			sp := kit.EvSpec{Kind: "null"}
			specs, recs = append(specs, sp), append(recs, sp.Record(a.Type, a.ID))
		}
		exp := cur
		var n uint64
		var err error
		if o.Op == "osave" {
			exp = cur + uint64(o.Exp)
			n, err = s.OptimisticSave(ctx, exp, a.Stream, recs...)
		} else {
			n, err = s.Save(ctx, a.Stream, recs...)
		}
		wrong := exp != cur
		if err == nil {
			if wrong || mustFail {
				return fmt.Errorf("accepted (%d) though expecting %d on a stream at %d, with what is wrong being %q", n, exp, cur, o.Bad)
			}
			added := m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs)
			if n != m.Len(a.Stream) {
				return fmt.Errorf("returned %d, the stream is at %d", n, m.Len(a.Stream))
			}
			if err := r.retry(func() error { return m.Learn(s, added) }); err != nil {
				return err
			}
			r.heard = append(r.heard, added...)
			return nil
		}
		if !wrong && !mustFail && o.Bad != "null" && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
		if err := r.truthful(err, a.Stream, exp); err != nil {
			return err
		}
		if r.fired && o.Fault.Kind == "commit" || r.fired && o.Fault.Kind == "any" {
			// What became of a transaction is unknown when the answer to its
			// commit is lost: all of it or nothing.
			if o.Fault.How == "after" || o.Fault.How == "cancel" || o.Fault.How == "mid" {
				var got []*rangedb.Record
				err := r.retry(func() (err error) { got, err = kit.Drain(s.EventsByStream(context.Background(), 0, a.Stream)); return })
				if err != nil && !errors.Is(err, rangedb.ErrStreamNotFound) {
					return fmt.Errorf("reading after a lost commit: %v", err)
				}
				if uint64(len(got)) != cur {
					r.c.Class("commit done, answer lost")
					added := m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs)
					if err := r.retry(func() error { return m.Learn(s, added) }); err != nil {
						return err
					}
					if r.b.Name == "pgnotify" {
						r.heard = append(r.heard, added...)
					}
				}
			}
		}
	case "del":
		exp := cur + uint64(o.Exp)
		err := s.OptimisticDeleteStream(ctx, exp, a.Stream)
		if err == nil {
			if cur == 0 || exp != cur {
				return fmt.Errorf("accepted expecting %d, the stream is at %d", exp, cur)
			}
			m.Delete(a.Stream)
			return nil
		}
		if cur > 0 && exp == cur && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
		if err := r.truthful(err, a.Stream, exp); err != nil {
			return err
		}
		if r.fired && cur > 0 && exp == cur && (o.Fault.Kind == "commit" || o.Fault.Kind == "any") {
			var n uint64
			if err := r.retry(func() (err error) { n, err = s.TotalEventsInStream(context.Background(), a.Stream); return }); err != nil {
				return fmt.Errorf("counting after a lost commit: %v", err)
			}
			if n == 0 {
				if o.Fault.How != "after" && o.Fault.How != "cancel" && o.Fault.How != "mid" {
					return fmt.Errorf("the deletion failed (%v), but the stream is gone", err)
				}
				r.c.Class("commit done, answer lost")
				m.Delete(a.Stream)
			}
		}
	case "total":
		n, err := s.TotalEventsInStream(ctx, a.Stream)
		if err == nil && n != cur {
			return fmt.Errorf("counted %d events, the stream is at %d", n, cur)
		}
		if err != nil && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
	case "all", "types", "stream", "abandon":
		from := uint64(o.From)
		var want []*kit.MRec
		var it rangedb.RecordIterator
		switch o.Op {
		case "all", "abandon":
			want, it = m.All(from), s.Events(ctx, from)
		case "types":
			want, it = m.Types(from, a.Type), s.EventsByAggregateTypes(ctx, from, a.Type)
		case "stream":
			want, it = m.Stream(a.Stream, from), s.EventsByStream(ctx, from, a.Stream)
		}
		if o.Op == "abandon" {
			for k := 0; k < o.N && it.Next(); k++ {
			}
			cancel()
			r.c.Class("abandoned")
			return nil
		}
		got, err := kit.Drain(it)
		if o.Op == "stream" && cur == 0 {
			if len(got) > 0 || err == nil || !errors.Is(err, rangedb.ErrStreamNotFound) && !r.excused() {
				return fmt.Errorf("a stream that does not exist: %d events, error %v", len(got), err)
			}
			return nil
		}
		if err != nil {
			if !r.excused() {
				return fmt.Errorf("failed: %v", err)
			}
			if err := r.truthful(err, a.Stream, 0); err != nil {
				return err
			}
			if len(got) > len(want) {
				return fmt.Errorf("%d events before the error %v, %d are stored", len(got), err, len(want))
			}
			want = want[:len(got)]
		}
		if err := kit.Same(want, got); err != nil {
			return fmt.Errorf("%s from %d: %v", o.Op, from, err)
		}
	}
	return nil
}

func eventually(f func() bool) bool {
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func runFaults(c *pbt.C, p FPlan) {
	kit.Excuse(c)
	b := kit.Open(p.Backend)
	closed := false
	c.Cleanup(func() {
		if !closed {
			b.Close()
		}
	})
	b.PG.MaxConns = 12
	r := &frun{c: c, b: b, m: &kit.Model{Gaps: true}, feed: true}
	for _, o := range p.Ops {
		if (o.Op == "restart" || o.Op == "down") && p.Backend == "pgnotify" {
			r.feed = false // back only after ten seconds: see reconnects
		}
	}
	r.live = kit.Watch(b.Store)
	for i, o := range p.Ops {
		b.Clock.Set(int64(1000 + i))
		if err := r.step(p, i, o); err != nil {
			c.Failf("backend %s, call %d (%s, fault %v, hit %v): %v", p.Backend, i, o.Op, o.Fault, r.fired, err)
		}
		if o.Op != "abandon" && !eventually(func() bool { _, n := b.PG.State(); return n == 0 }) {
			c.Failf("backend %s: call %d (%s, fault %v, hit %v) has returned, but left a transaction open", p.Backend, i, o.Op, o.Fault, r.fired)
		}
	}
	streams, types := append(kit.Streams(p.Aggs), "no such stream"), append(kit.Types(p.Aggs), "no such type")
	if err := r.retry(func() error { _, err := kit.Drain(b.Store.Events(context.Background(), 0)); return err }); err != nil {
		c.Failf("backend %s: reading once everything works again: %v", p.Backend, err)
	}
	for i := 0; i < 4; i++ { // pooled connections may be dead still
		_, _ = b.Store.TotalEventsInStream(context.Background(), "no such stream")
	}
	if err := kit.CheckStore(r.m, b.Store, streams, types); err != nil {
		c.Failf("backend %s, once everything works again: %v", p.Backend, err)
	}
	last := kit.EvSpec{Kind: "thing", Text: "last"}
	if _, err := b.Store.Save(context.Background(), "the last stream", last.Record("last", "one")); err != nil {
		c.Failf("backend %s: saving once everything works again: %v", p.Backend, err)
	}
	if r.feed {
		if err := r.live.Until(func(r *rangedb.Record) bool { return r.StreamName == "the last stream" }); err != nil {
			c.Failf("backend %s: live subscription: %v", p.Backend, err)
		}
		got := r.live.Got()
		if err := kit.Same(r.heard, got[:len(got)-1]); err != nil {
			c.Failf("backend %s: live subscription: %v", p.Backend, err)
		}
	}
	r.live.Stop()
	if err := b.CloseStore(); err != nil {
		c.Failf("backend %s: CloseDB: %v", p.Backend, err)
	}
	closed = true
	if !eventually(func() bool { n, _ := b.PG.State(); return n == 0 }) {
		n, _ := b.PG.State()
		c.Failf("backend %s: %d connections are left open after the store was closed", p.Backend, n)
	}
	b.PG.Drop()
	if r.hits > 0 && len(r.m.Log()) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C34", "faults", pbt.Opt{Quick: 4000, Thorough: 80000, Shards: 8,
		Rule: "a history of calls on a PostgreSQL store, with and without pg_notify, during which statements fail, connections are lost before, in the middle of or after a statement, callers give up while one runs, reads are abandoned, and the server restarts or is away; every answer is right or an error that claims nothing false, a failed call leaves nothing behind (all or nothing when the answer to a commit is lost), no transaction or connection is left open, and afterwards everything works; non-trivial when a fault made a call fail and events were saved"},
		genFaults, runFaults)
}
