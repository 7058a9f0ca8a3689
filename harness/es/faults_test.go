package es

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"google.golang.org/grpc/codes"
	"pgregory.net/rapid"

	"verifharness/fakees"
	"verifharness/hist"
	"verifharness/kit"
	"verifharness/pbt"
)

// Fault is what goes wrong during a call.
type Fault struct {
	Kind string `json:"kind"` // of the request it hits: any, append, tombstone, read, all
	Nth  int    `json:"nth"`
	How  string `json:"how"` // before, after: it acted; cut: while the events of a read are sent; cancel: the caller gives up
	N    int    `json:"n"`   // events before the cut
	Code int    `json:"code"`
}

// FOp is a call.
type FOp struct {
	Op    string `json:"op"` // save, osave, del, all, types, stream, total, down, drop, abandon
	A     int    `json:"a"`
	N     int    `json:"n,omitempty"`
	Exp   int    `json:"exp,omitempty"`
	From  int    `json:"from,omitempty"`
	Fault *Fault `json:"fault,omitempty"`
}

// FPlan is a history of calls on a store whose server or connection fails.
type FPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []FOp     `json:"ops"`
}

var troubles = []codes.Code{codes.Unavailable, codes.Internal, codes.DeadlineExceeded, codes.PermissionDenied, codes.Aborted, codes.ResourceExhausted}

func genFaults(t *rapid.T) FPlan {
	p := FPlan{Backend: rapid.SampledFrom([]string{"es", "esprefix"}).Draw(t, "backend"), Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FOp {
		o := FOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "osave", "osave", "osave", "del", "all", "types", "stream", "stream", "total", "total", "drop", "down", "abandon"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
		kinds := []string{"read"}
		switch o.Op {
		case "down", "drop":
			return o
		case "save":
			o.N = rapid.IntRange(1, 4).Draw(t, "n")
			kinds = []string{"append"}
		case "osave":
			o.N = rapid.IntRange(1, 4).Draw(t, "n")
			kinds = []string{"append", "read", "any"}
		case "del":
			kinds = []string{"tombstone", "read", "any"}
		case "all", "types":
			kinds = []string{"all"}
		case "abandon":
			o.N = rapid.IntRange(0, 2).Draw(t, "n")
			return o
		}
		if o.Op == "osave" || o.Op == "del" {
			o.Exp = rapid.SampledFrom([]int{0, 0, 0, 1, -1}).Draw(t, "exp")
		}
		if o.Op == "all" || o.Op == "types" || o.Op == "stream" {
			o.From = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "from")
		}
		if rapid.IntRange(0, 2).Draw(t, "faulty") > 0 {
			o.Fault = &Fault{
				Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
				Nth:  rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "nth"),
				How:  rapid.SampledFrom([]string{"before", "after", "cut", "cancel"}).Draw(t, "how"),
				N:    rapid.IntRange(1, 3).Draw(t, "cut"),
				Code: rapid.IntRange(0, len(troubles)-1).Draw(t, "code"),
			}
			if o.Op == "del" && o.Fault.How != "cut" {
				// The store cannot remember the deletion of a stream it did not hear of.
				o.Fault.How = "before"
			}
		}
		return o
	}), 2, 12).Draw(t, "ops")
	return p
}

type frun struct {
	c     *pbt.C
	b     *kit.Backend
	m     *kit.Model
	dead  map[string]bool
	mu    sync.Mutex
	fired bool
	hits  int
	// connection says that the connections of the store may be broken without it knowing.
	broken bool
}

func (r *frun) arm(f *Fault, cancel func()) {
	r.fired = false
	if f == nil {
		r.b.ES.SetHook(nil)
		return
	}
	n := 0
	r.b.ES.SetHook(func(kind string) fakees.Act {
		r.mu.Lock()
		defer r.mu.Unlock()
		if kind == "subscribe" || f.Kind != "any" && f.Kind != kind {
			return fakees.Act{}
		}
		if n++; n != f.Nth {
			return fakees.Act{}
		}
		r.fired = true
		switch f.How {
		case "cancel":
			cancel()
			return fakees.Act{Delay: 2 * time.Millisecond}
		case "cut":
			return fakees.Act{Cut: f.N, Status: troubles[f.Code%len(troubles)]}
		}
		return fakees.Act{Fail: f.How, Status: troubles[f.Code%len(troubles)]}
	})
}

// disarm ends the fault and says whether it hit a request.
func (r *frun) disarm() bool {
	r.b.ES.SetHook(nil)
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.fired
}

// excused says whether a call may have failed.
func (r *frun) excused() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.fired {
		r.hits++
	}
	return r.fired
}

func (r *frun) truthful(err error, stream string, exp uint64) error {
	cur := r.m.Len(stream)
	var u *rangedberror.UnexpectedSequenceNumber
	if errors.As(err, &u) && (u.Expected != exp || u.ActualSequenceNumber != cur || exp == cur) {
		return fmt.Errorf("error says expected %d actual %d, called with %d on a stream at %d", u.Expected, u.ActualSequenceNumber, exp, cur)
	}
	if errors.Is(err, rangedb.ErrStreamNotFound) && cur > 0 {
		return fmt.Errorf("error says %v, the stream is at %d", err, cur)
	}
	return nil
}

// works waits until the store has connections again.
func (r *frun) works() error {
	var err error
	for end := time.Now().Add(pbt.Patience(60 * time.Second)); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		if _, err = kit.Drain(r.b.Store.Events(context.Background(), 0)); err == nil {
			return nil
		}
	}
	return fmt.Errorf("reading a minute after the server is back: %v", err)
}

func (r *frun) step(p FPlan, i int, o FOp) error {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := p.Aggs[o.A%len(p.Aggs)]
	s, m := r.b.Store, r.m
	cur := m.Len(a.Stream)
	r.arm(o.Fault, cancel)
	defer r.b.ES.SetHook(nil)
	switch o.Op {
	case "drop":
		r.b.ES.DropSubscriptions()
		r.c.Class("drop")
	case "down":
		r.b.ES.Down()
		e := kit.EvSpec{Kind: "thing"}.Record(a.Type, a.ID)
		if _, err := s.Save(ctx, a.Stream, e); err == nil {
			return errors.New("accepted without a server")
		}
		if _, err := s.OptimisticSave(ctx, cur, a.Stream, e); err == nil {
			return errors.New("accepted without a server")
		} else if err := r.truthful(err, a.Stream, cur); err != nil {
			return err
		}
		if err := s.OptimisticDeleteStream(ctx, cur, a.Stream); err == nil || errors.Is(err, rangedb.ErrStreamNotFound) {
			return fmt.Errorf("a deletion without a server: %v", err)
		}
		for _, it := range []rangedb.RecordIterator{s.EventsByStream(ctx, 0, a.Stream), s.Events(ctx, 0), s.EventsByAggregateTypes(ctx, 0, a.Type)} {
			got, err := kit.Drain(it)
			if err == nil || len(got) > 0 || errors.Is(err, rangedb.ErrStreamNotFound) {
				return fmt.Errorf("a read without a server gave %d events, error %v", len(got), err)
			}
		}
		if _, err := s.TotalEventsInStream(ctx, a.Stream); err == nil {
			return errors.New("events were counted without a server")
		}
		r.b.ES.Up()
		r.c.Class("down")
		r.hits++
		return r.works()
	case "save", "osave":
		var specs []kit.EvSpec
		var recs []*rangedb.EventRecord
		for k := 0; k < o.N; k++ {
			sp := kit.EvSpec{Kind: "thing", Num: int64(i*10 + k), Text: fmt.Sprintf("%d.%d", i, k)}
			specs, recs = append(specs, sp), append(recs, sp.Record(a.Type, a.ID))
		}
		exp := cur
		var n uint64
		var err error
		if o.Op == "osave" {
			exp = cur + uint64(o.Exp)
			n, err = s.OptimisticSave(ctx, exp, a.Stream, recs...)
		} else {
			n, err = s.Save(ctx, a.Stream, recs...)
		}
		hit := r.disarm()
		wrong := exp != cur || r.dead[a.Stream]
		if err == nil {
			if wrong {
				return fmt.Errorf("accepted (%d) though expecting %d on a stream at %d (deleted: %v)", n, exp, cur, r.dead[a.Stream])
			}
			added := m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs)
			if n != m.Len(a.Stream) {
				return fmt.Errorf("returned %d, the stream is at %d", n, m.Len(a.Stream))
			}
			return m.Learn(s, added)
		}
		if !wrong && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
		if !hit || o.Fault.How == "before" || wrong {
			return r.truthful(err, a.Stream, exp)
		}
		// What became of the events is unknown when the answer is lost: all of them
		// are stored, or none.
		if !within(pbt.Patience(20*time.Second), func() bool { return r.b.ES.Writes() == 0 }) {
			return errors.New("a request that was given up does not end")
		}
		got, rerr := kit.Drain(s.EventsByStream(context.Background(), 0, a.Stream))
		if rerr != nil && !errors.Is(rerr, rangedb.ErrStreamNotFound) {
			return fmt.Errorf("reading after a lost answer: %v", rerr)
		}
		if uint64(len(got)) != cur {
			r.c.Class("done, answer lost")
			if err := m.Learn(s, m.Append(a.Stream, a.Type, a.ID, uint64(1000+i), specs)); err != nil {
				return err
			}
		}
		var u *rangedberror.UnexpectedSequenceNumber
		if errors.As(err, &u) {
			return fmt.Errorf("error says %v, called with %d on a stream that was at %d", err, exp, cur)
		}
	case "del":
		exp := cur + uint64(o.Exp)
		err := s.OptimisticDeleteStream(ctx, exp, a.Stream)
		r.disarm()
		if err == nil {
			if cur == 0 || exp != cur {
				return fmt.Errorf("accepted expecting %d, the stream is at %d", exp, cur)
			}
			m.Delete(a.Stream)
			r.dead[a.Stream] = true
			return nil
		}
		if cur > 0 && exp == cur && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
		return r.truthful(err, a.Stream, exp)
	case "total":
		n, err := s.TotalEventsInStream(ctx, a.Stream)
		if err == nil && n != cur {
			return fmt.Errorf("counted %d events, the stream is at %d", n, cur)
		}
		if err != nil && !r.excused() {
			return fmt.Errorf("failed: %v", err)
		}
	case "all", "types", "stream", "abandon":
		from := uint64(o.From)
		var want []*kit.MRec
		var it rangedb.RecordIterator
		switch o.Op {
		case "all", "abandon":
			want, it = m.All(from), s.Events(ctx, from)
		case "types":
			want, it = m.Types(from, a.Type), s.EventsByAggregateTypes(ctx, from, a.Type)
		case "stream":
			want, it = m.Stream(a.Stream, from), s.EventsByStream(ctx, from, a.Stream)
		}
		if o.Op == "abandon" {
			for k := 0; k < o.N && it.Next(); k++ {
			}
			cancel()
			r.c.Class("abandoned")
			return nil
		}
		got, err := kit.Drain(it)
		hit := r.disarm()
		if o.Op == "stream" && cur == 0 {
			if len(got) > 0 || err == nil || !errors.Is(err, rangedb.ErrStreamNotFound) && !r.excused() {
				return fmt.Errorf("a stream that does not exist: %d events, error %v", len(got), err)
			}
			return nil
		}
		if err != nil {
			if !r.excused() {
				return fmt.Errorf("failed: %v", err)
			}
			if err := r.truthful(err, a.Stream, 0); err != nil {
				return err
			}
			if hit && o.Fault.How == "cancel" && !hist.IsCanceled(err) {
				return fmt.Errorf("the caller gave up: %v", err)
			}
			if len(got) > len(want) {
				return fmt.Errorf("%d events before the error %v, %d are stored", len(got), err, len(want))
			}
			want = want[:len(got)]
		}
		if err := kit.Same(want, got); err != nil {
			return fmt.Errorf("%s from %d: %v", o.Op, from, err)
		}
	}
	return nil
}

func within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// leftovers are the goroutines that run code of the adapter.
func leftovers() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "rangedb/provider/eventstore.") {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

// clean closes the store and asks that nothing of it is left.
func clean(b *kit.Backend) error {
	if err := b.CloseStore(); err != nil {
		return fmt.Errorf("Close: %v", err)
	}
	if !within(pbt.Patience(20*time.Second), func() bool { now, _ := b.ES.Subscriptions(); return now == 0 }) {
		return errors.New("the server has a subscriber after the store was closed")
	}
	if !within(pbt.Patience(20*time.Second), func() bool { return leftovers() == "" }) {
		return fmt.Errorf("the store was closed, but this goes on: %s", leftovers())
	}
	return nil
}

func runFaults(c *pbt.C, p FPlan) {
	b := kit.Open(p.Backend)
	c.Cleanup(b.Close)
	r := &frun{c: c, b: b, m: &kit.Model{Gaps: true}, dead: map[string]bool{}}
	live := kit.Watch(b.Store)
	for i, o := range p.Ops {
		b.Clock.Set(int64(1000 + i))
		if err := r.step(p, i, o); err != nil {
			c.Failf("backend %s, call %d (%s, fault %+v, hit %v): %v", p.Backend, i, o.Op, o.Fault, r.disarm(), err)
		}
	}
	streams, types := append(kit.Streams(p.Aggs), "no such stream"), append(kit.Types(p.Aggs), "no such type")
	if err := kit.CheckStore(r.m, b.Store, streams, types); err != nil {
		c.Failf("backend %s, once everything works again: %v", p.Backend, err)
	}
	if err := live.End(b.Store, r.m); err != nil {
		c.Failf("backend %s: live subscription: %v", p.Backend, err)
	}
	live.Stop()
	if err := clean(b); err != nil {
		c.Failf("backend %s: %v", p.Backend, err)
	}
	if r.hits > 0 && len(r.m.Log()) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C31", "faults", pbt.Opt{Quick: 800, Thorough: 24000, Shards: 24,
		Rule: "a history of calls on an EventStoreDB store during which requests fail before or after they acted, reads break off, callers give up, reads are abandoned, subscriptions are dropped and the server is away; every answer is right or an error that claims nothing false, a failed save is stored whole or not at all, a live subscriber gets every event once and in order, and after Close nothing of the store goes on; non-trivial when a fault made a call fail and events were saved"},
		genFaults, runFaults)
}
