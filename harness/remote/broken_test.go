package remote

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/remotestore"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// BrokenOp is a call on a remote store, or a break of its connection.
type BrokenOp struct {
	Op    string       `json:"op"` // save, osave, del, all, types, stream, total, sub, cut
	A     int          `json:"a"`
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Pad   int          `json:"pad,omitempty"` // size of texts
	From  int          `json:"from,omitempty"`
	Wrong int64        `json:"wrong,omitempty"`
	Cut   int          `json:"cut"` // the connection breaks after so many bytes of the call; -1: it does not
	Up    bool         `json:"up,omitempty"`
	Store bool         `json:"store,omitempty"` // of sub: on the remote store
	Live  bool         `json:"live,omitempty"`
	Typed bool         `json:"typed,omitempty"`
}

// BrokenPlan is a history over a connection that breaks.
type BrokenPlan struct {
	Aggs []kit.Agg  `json:"aggs"`
	Ops  []BrokenOp `json:"ops"`
}

func genBroken(kinds ...string) func(t *rapid.T) BrokenPlan {
	return func(t *rapid.T) BrokenPlan {
		p := BrokenPlan{Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
		p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) BrokenOp {
			o := BrokenOp{Op: rapid.SampledFrom(kinds).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"), Cut: -1}
			switch o.Op {
			case "save", "osave":
				o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 6).Draw(t, "ev")
				o.Pad = rapid.SampledFrom([]int{0, 0, 100, 4000}).Draw(t, "pad")
			case "sub":
				o.Store = rapid.Bool().Draw(t, "store")
				o.Live = rapid.Bool().Draw(t, "live")
				o.Typed = rapid.Bool().Draw(t, "typed")
			}
			switch o.Op {
			case "osave", "del":
				o.Wrong = rapid.SampledFrom([]int64{0, 0, 0, 1, -1}).Draw(t, "wrong")
			case "all", "types", "stream", "sub":
				o.From = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "from")
			}
			if o.Op != "sub" && rapid.Bool().Draw(t, "breaks") {
				o.Cut = rapid.SampledFrom([]int{0, 1, 5, 17, 40, 100, 300, 1000}).Draw(t, "cut") * rapid.IntRange(1, 9).Draw(t, "times")
				o.Up = rapid.IntRange(0, 3).Draw(t, "up") == 0
			}
			return o
		}), 3, 14).Draw(t, "ops")
		return p
	}
}

type brokenSub struct {
	mu   sync.Mutex
	got  []*rangedb.Record
	done chan struct{}
	err  error
	from uint64
	op   BrokenOp
	sub  rangedb.RecordSubscription
	s    rangedb.Store
}

func (s *brokenSub) Accept(r *rangedb.Record) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.op.Live && len(s.got) == 0 && r.GlobalSequenceNumber < s.from {
		return // saved before, but still being broadcast
	}
	s.got = append(s.got, r)
}

func (s *brokenSub) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

func pbOf(r *rangedb.Record) *rangedbpb.Record {
	x, err := rangedbpb.ToPbRecord(r)
	if err != nil {
		panic(err)
	}
	return x
}

func runBroken(c *pbt.C, p BrokenPlan) {
	log.SetOutput(io.Discard)
	bg := context.Background()
	inner := inmemorystore.New()
	kit.Bind(inner)
	rs, err := rangedbserver.New(rangedbserver.WithStore(inner))
	if err != nil {
		panic(err)
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	gs := grpc.NewServer()
	rangedbpb.RegisterRangeDBServer(gs, rs)
	go func() { _ = gs.Serve(lis) }()
	w := kit.NewCable(lis.Addr().String())
	c.Cleanup(func() { w.Close(); _ = rs.Stop(); gs.Stop() })
	dial := func() *grpc.ClientConn {
		ctx, cancel := context.WithTimeout(bg, pbt.Patience(60*time.Second))
		defer cancel()
		conn, err := grpc.DialContext(ctx, w.Addr(), grpc.WithInsecure(), grpc.WithBlock(), grpc.WithConnectParams(grpc.ConnectParams{
			Backoff: backoff.Config{BaseDelay: 5 * time.Millisecond, Multiplier: 1.2, MaxDelay: 50 * time.Millisecond}, MinConnectTimeout: 20 * time.Second}))
		if err != nil {
			c.Failf("connecting: %v", err)
		}
		c.Cleanup(func() { _ = conn.Close() })
		return conn
	}
	conn := dial()
	s, err := remotestore.New(conn)
	if err != nil {
		c.Failf("remote store: %v", err)
	}
	kit.Bind(s)
	all := func() []*rangedb.Record {
		log, err := kit.Drain(inner.Events(bg, 0))
		if err != nil {
			c.Failf("reading the served store: %v", err)
		}
		return log
	}
	same := func(a, b []*rangedb.Record) error {
		if len(a) != len(b) {
			return fmt.Errorf("%d records instead of %d", len(a), len(b))
		}
		for i := range a {
			if x, y := pbOf(a[i]), pbOf(b[i]); !proto.Equal(x, y) {
				// metadata is compared as JSON: a client reads its own numbers
				if x.Metadata, y.Metadata = "", ""; !proto.Equal(x, y) {
					return fmt.Errorf("record %d is %v instead of %v", i, x, y)
				}
				if err := kit.SameJSON("metadata", b[i].Metadata, a[i].Metadata); err != nil {
					return err
				}
			}
		}
		return nil
	}
	var subs []*brokenSub
	broken, failed := 0, 0
	// ready waits until calls work again.
	ready := func() {
		w.Mend()
		var err error
		for end := time.Now().Add(pbt.Patience(60 * time.Second)); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if _, err = s.TotalEventsInStream(bg, "no such stream"); err == nil {
				return
			}
		}
		c.Failf("a minute after the connection broke, calls still fail: %v", err)
	}
	// settle judges the subscriptions; those whose connection broke must have ended.
	settle := func(broke bool) {
		log := all()
		var live []*brokenSub
		for i, x := range subs {
			name := fmt.Sprintf("subscription %d (%+v)", i, x.op)
			var want []*rangedb.Record
			for _, r := range log {
				if r.GlobalSequenceNumber >= x.from && (!x.op.Typed || r.AggregateType == p.Aggs[x.op.A].Type) {
					want = append(want, r)
				}
			}
			end := time.Now().Add(pbt.Patience(60 * time.Second))
			if broke && !x.op.Store && !x.op.Live && x.count() == 0 {
				continue // gRPC itself may have made the call again, as the server has not answered
			}
			if broke {
				select {
				case <-x.done:
				case <-time.After(time.Until(end)):
					c.Failf("%s goes on silently a minute after its connection broke", name)
				}
				if x.err != nil && x.err == io.EOF {
					c.Failf("%s ended without an error when its connection broke", name)
				}
				x.mu.Lock()
				got := x.got
				x.mu.Unlock()
				if len(got) > len(want) {
					c.Failf("%s got %d events of %d", name, len(got), len(want))
				}
				if err := same(got, want[:len(got)]); err != nil {
					c.Failf("%s: %v", name, err)
				}
				continue
			}
			for x.count() < len(want) && time.Now().Before(end) {
				select {
				case <-x.done:
					if x.count() < len(want) {
						c.Failf("%s ended (%v) after %d events of %d", name, x.err, x.count(), len(want))
					}
				case <-time.After(time.Millisecond):
				}
			}
			x.mu.Lock()
			got := x.got
			x.mu.Unlock()
			if err := same(got, want); err != nil {
				c.Failf("%s: %v", name, err)
			}
			live = append(live, x)
		}
		subs = live
	}
	for i, o := range p.Ops {
		c.Alive()
		a := p.Aggs[o.A%len(p.Aggs)]
		before := all()
		name := fmt.Sprintf("call %d (%s, cut after %d)", i, o.Op, o.Cut)
		var part, rest []*rangedb.Record // of the call's stream, and of others
		for _, r := range before {
			if r.StreamName == a.Stream {
				part = append(part, r)
			} else {
				rest = append(rest, r)
			}
		}
		num := uint64(len(part))
		if n := len(part); n > 0 {
			num = part[n-1].StreamSequenceNumber
		}
		exp := uint64(int64(num) + o.Wrong)
		if o.Wrong < 0 && num == 0 {
			exp = 3
		}
		right := exp == num
		if o.Cut >= 0 {
			if len(subs) > 0 {
				settle(false)
			}
			w.CutAfter(o.Cut, o.Up)
		}
		count := w.Broke()
		var err error
		// refused says whether an answer is true.
		claim := func(err error, ok bool) {
			if err == nil {
				return
			}
			if u, is := err.(*rangedberror.UnexpectedSequenceNumber); is {
				if right || !ok || u.Expected != exp || u.ActualSequenceNumber != num {
					c.Failf("%s: %v, the stream was at %d", name, err, num)
				}
				return
			}
			if w.Broke() == count {
				c.Failf("%s: %v on an intact connection", name, err)
			}
			failed++
		}
		switch o.Op {
		case "save", "osave":
			var recs []*rangedb.EventRecord
			for _, e := range o.Ev {
				if o.Pad > 0 && e.Kind != "raw" {
					e.Text += string(bytes.Repeat([]byte("x"), o.Pad))
				}
				recs = append(recs, e.Record(a.Type, a.ID))
			}
			var n uint64
			if o.Op == "save" {
				right = true
				n, err = s.Save(bg, a.Stream, recs...)
			} else {
				n, err = s.OptimisticSave(bg, exp, a.Stream, recs...)
			}
			claim(err, o.Op == "osave")
			settled := all()
			if err != nil && w.Broke() > count {
				// The request may be under way still.
				for end := time.Now().Add(100 * time.Millisecond); len(settled) == len(before) && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
					settled = all()
				}
			}
			added := len(settled) - len(before)
			if err == nil && (!right || added != len(recs) || n != num+uint64(len(recs))) || err != nil && added != 0 && (!right || added != len(recs)) {
				c.Failf("%s with expectation %d on %d answered %d, %v and added %d events of %d", name, exp, num, n, err, added, len(recs))
			}
		case "del":
			err = s.OptimisticDeleteStream(bg, exp, a.Stream)
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() || len(part) > 0 {
				claim(err, true)
			}
			settled := all()
			if err != nil && w.Broke() > count {
				for end := time.Now().Add(100 * time.Millisecond); len(settled) == len(before) && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
					settled = all()
				}
			}
			switch len(settled) {
			case len(before):
				if err == nil && len(part) > 0 {
					c.Failf("%s answered without an error and deleted nothing", name)
				}
			case len(rest):
				if !right {
					c.Failf("%s deleted the stream at %d with the expectation %d", name, num, exp)
				}
			default:
				c.Failf("%s left %d events of %d", name, len(settled), len(before))
			}
			subs = nil // what they show of a deleted stream is not judged here
		case "total":
			right = true
			var n uint64
			n, err = s.TotalEventsInStream(bg, a.Stream)
			claim(err, false)
			if err == nil && n != uint64(len(part)) {
				c.Failf("%s: %d instead of %d", name, n, len(part))
			}
		case "all", "types", "stream":
			right = true
			var it rangedb.RecordIterator
			var want []*rangedb.Record
			missing := false
			switch o.Op {
			case "all":
				it = s.Events(bg, uint64(o.From))
				for _, r := range before {
					if r.GlobalSequenceNumber >= uint64(o.From) {
						want = append(want, r)
					}
				}
			case "types":
				it = s.EventsByAggregateTypes(bg, uint64(o.From), a.Type, "x")
				for _, r := range before {
					if r.GlobalSequenceNumber >= uint64(o.From) && (r.AggregateType == a.Type || r.AggregateType == "x") {
						want = append(want, r)
					}
				}
			default:
				it = s.EventsByStream(bg, uint64(o.From), a.Stream)
				for _, r := range part {
					if r.StreamSequenceNumber >= uint64(o.From) {
						want = append(want, r)
					}
				}
				missing = len(part) == 0
			}
			var got []*rangedb.Record
			got, err = kit.Drain(it)
			if err == nil && missing {
				c.Failf("%s of a stream without events: no error", name)
			}
			if err != nil && err.Error() == rangedb.ErrStreamNotFound.Error() {
				if !missing {
					c.Failf("%s: %v, it has %d events", name, err, len(part))
				}
			} else {
				claim(err, false)
			}
			if err == nil && len(got) != len(want) || len(got) > len(want) {
				c.Failf("%s gave %d events of %d and the error %v", name, len(got), len(want), err)
			}
			if err := same(got, want[:len(got)]); err != nil {
				c.Failf("%s: %v", name, err)
			}
		case "sub":
			x := &brokenSub{op: o, done: make(chan struct{}), s: s}
			last := uint64(0)
			if len(before) > 0 {
				last = before[len(before)-1].GlobalSequenceNumber
			}
			x.from = uint64(o.From)
			if o.Store {
				// The subscriptions of a remote store end for good when its connection breaks.
				conn := dial()
				y, err := remotestore.New(conn)
				if err != nil {
					c.Failf("remote store: %v", err)
				}
				kit.Bind(y)
				if o.Typed {
					x.sub = y.AggregateTypesSubscription(bg, 1000, x, a.Type)
				} else {
					x.sub = y.AllEventsSubscription(bg, 1000, x)
				}
				if o.Live {
					x.from = last + 1
					err = x.sub.Start()
				} else {
					err = x.sub.StartFrom(uint64(o.From))
				}
				if err != nil {
					c.Failf("subscribing: %v", err)
				}
				d, ok := x.sub.(interface{ Done() <-chan struct{} })
				if !ok {
					c.Failf("a subscription does not tell when it is done: %T", x.sub)
				}
				go func() { <-d.Done(); close(x.done) }()
				c.Cleanup(x.sub.Stop)
			} else {
				client := rangedbpb.NewRangeDBClient(conn)
				var in receiver
				var err error
				o.Live = o.Live && !o.Typed
				x.op = o
				switch {
				case o.Live:
					x.from = last + 1
					var st rangedbpb.RangeDB_SubscribeToLiveEventsClient
					st, err = client.SubscribeToLiveEvents(bg, &rangedbpb.SubscribeToLiveEventsRequest{})
					if err == nil {
						_, err = st.Header()
					}
					in = st
				case o.Typed:
					in, err = client.SubscribeToEventsByAggregateType(bg, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: []string{a.Type}, GlobalSequenceNumber: x.from})
				default:
					in, err = client.SubscribeToEvents(bg, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: x.from})
				}
				if err != nil {
					c.Failf("subscribing: %v", err)
				}
				go func() {
					defer close(x.done)
					for {
						r, err := in.Recv()
						if err != nil {
							x.err = err
							return
						}
						rec, err := rangedbpb.ToRecord(r, inner2)
						if err != nil {
							x.err = err
							return
						}
						x.Accept(rec)
					}
				}()
			}
			subs = append(subs, x)
			c.Class("subscription")
		case "cut":
			settle(false)
			w.Cut()
		}
		if w.Broke() > count {
			broken++
			settle(true)
			ready()
		} else if o.Cut >= 0 {
			w.Mend()
			if w.Broke() > count {
				settle(true)
				ready()
			}
		}
	}
	settle(false)
	if broken > 0 && (failed > 0 || len(all()) > 0) {
		c.NonTrivial()
	}
}

// inner2 reads records as the served store does.
var inner2 = func() rangedb.EventTypeIdentifier {
	s := jsonrecordserializer.New()
	kit.Bind(s)
	return s
}()

func init() {
	const rule = "an in-memory store served over a TCP connection that breaks after any number of bytes to or from the server; calls are judged by what the served store holds; non-trivial when a connection broke and events had been saved or a call failed"
	pbt.Reg("C17", "broken", pbt.Opt{Quick: 1600, Thorough: 40000, Shards: 16, Rule: "saves, optimistic saves, deletions, reads of all kinds and counts on " + rule},
		genBroken("save", "save", "save", "osave", "osave", "del", "all", "all", "types", "stream", "total"), runBroken)
	pbt.Reg("C18", "broken", pbt.Opt{Quick: 1200, Thorough: 40000, Shards: 16, Rule: "subscriptions through clients and on remote stores, and saves, on " + rule},
		genBroken("save", "save", "save", "sub", "sub", "cut", "all"), runBroken)
}
