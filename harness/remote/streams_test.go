package remote

import (
	"context"
	"fmt"
	"io"
	"log"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/remotestore"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// SSub describes one subscription over gRPC.
type SSub struct {
	Kind  string `json:"kind"` // live, all, types; store-live, store-all, store-types: on a remote store
	Types []int  `json:"types,omitempty"`
	From  int    `json:"from,omitempty"`
	Delay int    `json:"delay,omitempty"` // milliseconds per record; -1: stops reading after Stall records until the end
	Stall int    `json:"stall,omitempty"`
}

// SOp is a call.
type SOp struct {
	Op     string `json:"op"` // save, del, sub, cancel, sleep, stop (the server)
	A      int    `json:"a,omitempty"`
	N      int    `json:"n,omitempty"`
	Size   int    `json:"size,omitempty"` // of each event
	S      int    `json:"s,omitempty"`
	Settle bool   `json:"settle,omitempty"`
}

// SPlan is a history of saves and subscriptions over gRPC.
type SPlan struct {
	Backend string `json:"backend"`
	Types   int    `json:"types"`
	Subs    []SSub `json:"subs"`
	Ops     []SOp  `json:"ops"`
	Fail    int    `json:"fail,omitempty"` // 1: the store's reads fail at the end of the plan
}

func genS(t *rapid.T) SPlan {
	p := SPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb", "memmp"}).Draw(t, "backend"), Types: rapid.IntRange(1, 5).Draw(t, "types")}
	p.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SSub {
		s := SSub{
			Kind:  rapid.SampledFrom([]string{"live", "live", "all", "all", "types", "types", "store-all", "store-types", "store-live"}).Draw(t, "kind"),
			From:  rapid.IntRange(0, 12).Draw(t, "from"),
			Delay: rapid.SampledFrom([]int{0, 0, 0, 20, 300, -1}).Draw(t, "delay"),
		}
		if strings.HasSuffix(s.Kind, "types") {
			s.Types = rapid.SliceOfN(rapid.IntRange(0, p.Types), 1, 6).Draw(t, "types")
		}
		if s.Delay < 0 {
			s.Stall = rapid.IntRange(0, 5).Draw(t, "stall")
		}
		return s
	}), 1, 4).Draw(t, "subs")
	big := rapid.IntRange(0, 2).Draw(t, "big") == 0
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SOp {
		o := SOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "save", "del", "sub", "sub", "sub", "cancel", "sleep", "stop"}).Draw(t, "op"), Settle: rapid.Bool().Draw(t, "settle")}
		switch o.Op {
		case "save", "del":
			o.A = rapid.IntRange(0, p.Types-1).Draw(t, "a")
			o.N = rapid.IntRange(1, 4).Draw(t, "n")
			if big {
				o.N = rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(100, 300)).Draw(t, "many")
				o.Size = rapid.SampledFrom([]int{0, 1000, 10000, 30000}).Draw(t, "size")
			}
		case "sub", "cancel":
			o.S = rapid.IntRange(0, len(p.Subs)-1).Draw(t, "s")
		case "sleep":
			o.N = rapid.SampledFrom([]int{10, 90, 150, 1000}).Draw(t, "ms")
		case "stop":
			if rapid.IntRange(0, 5).Draw(t, "really") > 0 {
				o.Op = "sleep"
				o.N = 100
			}
		}
		return o
	}), 2, 16).Draw(t, "ops")
	return p
}

type ssub struct {
	spec      SSub
	mu        sync.Mutex
	got       []*rangedb.Record
	end       error // why the stream ended
	gone      bool
	cancel    context.CancelFunc
	quit      chan struct{}
	finished  chan struct{}
	started   bool
	cancelled bool
	leaving   bool // cancelled, but the server may not know yet
	endLow    int
	want      []*kit.MRec
}

func (s *ssub) take(r *rangedb.Record) {
	s.mu.Lock()
	s.got = append(s.got, r)
	n := len(s.got)
	s.mu.Unlock()
	if s.spec.Delay < 0 && n >= s.spec.Stall {
		<-s.quit
	} else if s.spec.Delay > 0 {
		time.Sleep(time.Duration(s.spec.Delay) * time.Millisecond)
	}
}

// Accept is for subscriptions on a remote store.
func (s *ssub) Accept(r *rangedb.Record) { s.take(r) }

func (s *ssub) slow() bool { return s.spec.Delay != 0 }

type receiver interface {
	Recv() (*rangedbpb.Record, error)
}

func runS(c *pbt.C, p SPlan) {
	log.SetOutput(io.Discard)
	ib := kit.OpenUnbound(p.Backend)
	c.Cleanup(ib.Close)
	conn, stopAll, stopServer := kit.ServeStoppable(ib.Store)
	c.Cleanup(stopAll)
	client := rangedbpb.NewRangeDBClient(conn)
	remote, err := remotestore.New(conn)
	if err != nil {
		c.Failf("%v", err)
	}
	kit.Bind(remote)
	ident := rangedb.NewEventIdentifier()
	kit.Bind(ident)
	bg := context.Background()
	m := &kit.Model{}
	tname := func(i int) string { return fmt.Sprintf("type%d", i) }
	subs := make([]*ssub, len(p.Subs))
	for i, spec := range p.Subs {
		subs[i] = &ssub{spec: spec, quit: make(chan struct{}), finished: make(chan struct{})}
	}
	wants := func(s *ssub, r *kit.MRec) bool {
		if strings.HasSuffix(s.spec.Kind, "types") {
			for _, t := range s.spec.Types {
				if tname(t) == r.AType {
					return true
				}
			}
			return false
		}
		return true
	}
	big := false
	for _, o := range p.Ops {
		big = big || o.N*o.Size > 1000 || o.Op == "save" && o.N > 4
	}
	deleted := map[*kit.MRec]bool{}
	// follow says how far into what it must get a subscription has come. One that
	// is slow may miss what was deleted before it came to it.
	follow := func(name string, s *ssub, got []*rangedb.Record) int {
		k := 0
		skip := func(until func() bool) {
			for k < len(s.want) && s.slow() && deleted[s.want[k]] && !until() {
				k++
			}
		}
		for i, r := range got {
			skip(func() bool { return s.want[k].Matches(r) == nil })
			if k >= len(s.want) {
				c.Failf("%s got %d events, of at most %d; the first extra one is %d of type %q", name, len(got), len(s.want), r.GlobalSequenceNumber, r.AggregateType)
			}
			if err := s.want[k].Matches(r); err != nil {
				c.Failf("%s, event %d: %v", name, i+1, err)
			}
			k++
		}
		skip(func() bool { return false })
		return k
	}
	settled, stopped := 0, false
	settle := func() {
		backlog := 40 * time.Second
		for _, s := range subs {
			if s.started && s.spec.Delay > 0 {
				backlog = max(backlog, time.Duration(len(s.want)*s.spec.Delay)*time.Millisecond+10*time.Second)
			}
		}
		time.Sleep(backlog)
		c.Wait()
		settled = len(m.Log())
		for _, s := range subs {
			s.leaving = false
		}
	}
	stalls := false
	check := func(when string, all bool) {
		for i, s := range subs {
			if !s.started {
				continue
			}
			name := fmt.Sprintf("%s: served %s, subscription %d (%+v)", when, p.Backend, i, s.spec)
			s.mu.Lock()
			got, end, gone := append([]*rangedb.Record(nil), s.got...), s.end, s.gone
			s.mu.Unlock()
			want := s.want
			pos := follow(name, s, got)
			if !all {
				continue
			}
			need := len(want)
			if s.cancelled {
				need = s.endLow
			}
			if pos >= need && !(stopped && !s.cancelled) {
				continue
			}
			stalled := s.spec.Delay < 0 && len(got) >= s.spec.Stall && len(got) > 0
			if stalled {
				continue // it is not being read
			}
			store := strings.HasPrefix(s.spec.Kind, "store")
			switch {
			case s.cancelled && !s.slow() && pos < need && !stopped:
				c.Failf("%s got %d events of %d before it was cancelled", name, len(got), need)
			case s.cancelled:
			case stopped && !store:
				if !gone || end == nil || end == io.EOF {
					c.Failf("%s: the server was stopped, but the stream did not end with an error (%v, ended %v)", name, end, gone)
				}
			case stopped:
			case !store && !gone:
				c.Failf("%s got %d events of %d and went silent; the first missing one is %d of type %q", name, len(got), need, want[pos].GSN, want[pos].AType)
			case !store && (end == nil || end == io.EOF):
				c.Failf("%s got %d events of %d and ended without an error", name, len(got), need)
			case !s.slow() && !stalls:
				c.Failf("%s got %d events of %d, though it takes every event in time (%v)", name, len(got), need, end)
			default:
				c.Class("dropped")
			}
		}
	}
	started := 0
	for i, o := range p.Ops {
		when := fmt.Sprintf("after call %d (%s)", i, o.Op)
		switch o.Op {
		case "save":
			ty := tname(o.A % p.Types)
			stream := ty + "!id"
			var recs []*rangedb.EventRecord
			var specs []kit.EvSpec
			for k := 0; k < o.N; k++ {
				e := kit.EvSpec{Kind: "thing", Num: int64(i*100 + k), Text: strings.Repeat("x", o.Size)}
				specs = append(specs, e)
				recs = append(recs, e.Record(ty, "id"))
			}
			ib.Clock.Set(int64(i + 1))
			if _, err := ib.Store.Save(bg, stream, recs...); err != nil {
				c.Failf("%s: %v", when, err)
			}
			for _, r := range m.Append(stream, ty, "id", uint64(i+1), specs) {
				for _, s := range subs {
					if s.started && (!s.cancelled || s.leaving) && !stopped && wants(s, r) && (int(r.GSN) >= s.spec.From || strings.HasSuffix(s.spec.Kind, "live")) {
						s.want = append(s.want, r)
					}
				}
			}
		case "del":
			stream := tname(o.A%p.Types) + "!id"
			if n := m.Len(stream); n > 0 {
				if err := ib.Store.OptimisticDeleteStream(bg, n, stream); err != nil {
					c.Failf("%s: %v", when, err)
				}
				for _, r := range m.Stream(stream, 0) {
					deleted[r] = true
				}
				m.Delete(stream)
				settle()
			}
		case "sub":
			s := subs[o.S%len(subs)]
			if s.started || stopped {
				continue
			}
			// Nothing is on its way when it starts, so what it must get is certain.
			settle()
			s.started = true
			started++
			var ctx context.Context
			ctx, s.cancel = context.WithCancel(bg)
			c.Cleanup(s.cancel)
			c.Cleanup(func() {
				select {
				case <-s.quit:
				default:
					close(s.quit)
				}
			})
			live := strings.HasSuffix(s.spec.Kind, "live")
			var catchingUp time.Duration
			if !live {
				for _, r := range m.All(uint64(s.spec.From)) {
					if wants(s, r) {
						s.want = append(s.want, r)
					}
				}
				if len(s.want) > 0 {
					c.Class("catches up")
				}
				// A read holds the store's lock until it is over, so a consumer that
				// stops reading a long one would keep every writer out.
				if big {
					s.spec.Stall += len(s.want)
				}
				catchingUp = time.Duration(len(s.want)*s.spec.Delay) * time.Millisecond
			}
			var names []string
			for _, t := range s.spec.Types {
				names = append(names, tname(t))
			}
			if strings.HasPrefix(s.spec.Kind, "store") {
				var sub rangedb.RecordSubscription
				if s.spec.Kind == "store-types" {
					sub = remote.AggregateTypesSubscription(ctx, 20, s, names...)
				} else {
					sub = remote.AllEventsSubscription(ctx, 20, s)
				}
				stalls = stalls || s.slow()
				go func() {
					var err error
					if live {
						err = sub.Start()
					} else {
						err = sub.StartFrom(uint64(s.spec.From))
					}
					s.mu.Lock()
					s.end = err
					s.mu.Unlock()
				}()
				if big && catchingUp > 0 {
					time.Sleep(catchingUp)
				}
				c.Wait()
				break
			}
			var r receiver
			var err error
			switch s.spec.Kind {
			case "live":
				st, e := client.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
				r, err = st, e
				if e == nil {
					_, err = st.Header()
				}
			case "all":
				r, err = client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: uint64(s.spec.From)})
			default:
				r, err = client.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: uint64(s.spec.From), AggregateTypes: names})
			}
			if err != nil {
				c.Failf("%s: %v", when, err)
			}
			go func() {
				defer close(s.finished)
				for {
					pb, err := r.Recv()
					if err != nil {
						s.mu.Lock()
						s.end, s.gone = err, true
						s.mu.Unlock()
						return
					}
					rec, err := rangedbpb.ToRecord(pb, ident)
					if err != nil {
						c.Report("%s: %v", when, err)
						return
					}
					s.take(rec)
				}
			}()
			if big && catchingUp > 0 {
				time.Sleep(catchingUp)
			}
			c.Wait()
		case "cancel":
			s := subs[o.S%len(subs)]
			if !s.started || s.cancelled || stopped {
				continue
			}
			s.cancelled, s.leaving = true, true
			for s.endLow = len(s.want); s.endLow > 0 && int(s.want[s.endLow-1].GSN) > settled; s.endLow-- {
			}
			s.cancel()
			c.Class("cancelled")
		case "stop":
			if !stopped {
				stopped = true
				stopServer()
				c.Class("server stopped")
			}
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
		if o.Settle {
			settle()
		}
		c.Check()
		check(when, o.Settle)
	}
	settle()
	check("at the end", true)
	// A consumer that stopped reading reads on: what it gets is still right, and
	// if anything is missing the stream ends with an error.
	for i, s := range subs {
		if !s.started || s.spec.Delay >= 0 {
			continue
		}
		close(s.quit)
		settle()
		name := fmt.Sprintf("served %s, subscription %d (%+v), reading on at the end", p.Backend, i, s.spec)
		s.mu.Lock()
		got, end, gone := append([]*rangedb.Record(nil), s.got...), s.end, s.gone
		s.mu.Unlock()
		pos := follow(name, s, got)
		if pos < len(s.want) && !s.cancelled && !strings.HasPrefix(s.spec.Kind, "store") && (!gone || end == nil || end == io.EOF) {
			c.Failf("%s got %d events of %d, and the stream did not end with an error (%v)", name, len(got), len(s.want), end)
		}
		if pos < len(s.want) {
			c.Class("overflowed")
		}
	}
	if started > 0 && len(m.Log()) > 2 {
		for _, s := range subs {
			if len(s.got) > 1 {
				c.NonTrivial()
			}
		}
	}
}

func init() {
	pbt.Reg("C18", "streams", pbt.Opt{Quick: 4000, Thorough: 120000, Shards: 8, Bubble: true,
		Rule: "a history of saves (up to 40 events of up to 30 kB each at once), deletions, and subscriptions through a gRPC client (live events, all events or aggregate types from a position) and on a remote store, whose consumers are immediate, slow or stop reading, are cancelled, or lose their server (fake clock); non-trivial when a subscription got more than one event"},
		genS, runS)
}
