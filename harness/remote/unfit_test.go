package remote

import (
	"context"
	"io"
	"log"
	"math"
	"slices"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/remotestore"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// UnfitPlan is a served store with events that the protocol cannot express.
type UnfitPlan struct {
	Stored []UnfitEv `json:"stored"`
	Live   []UnfitEv `json:"live"`
	From   int       `json:"from"`
	What   string    `json:"what"` // all, types, stream
	Subs   []string  `json:"subs"` // all, types, live
}

// UnfitEv is an event.
type UnfitEv struct {
	Other bool `json:"other,omitempty"`
	Bad   bool `json:"bad,omitempty"`
	Meta  bool `json:"meta,omitempty"`
}

func genUnfit(subs bool) func(t *rapid.T) UnfitPlan {
	return func(t *rapid.T) UnfitPlan {
		ev := rapid.Custom(func(t *rapid.T) UnfitEv {
			e := UnfitEv{Other: rapid.IntRange(0, 3).Draw(t, "other") == 0, Bad: rapid.IntRange(0, 4).Draw(t, "bad") == 0}
			e.Meta = e.Bad && rapid.Bool().Draw(t, "meta")
			return e
		})
		p := UnfitPlan{Stored: rapid.SliceOfN(ev, 0, 8).Draw(t, "stored"), From: rapid.IntRange(0, 6).Draw(t, "from"),
			What: rapid.SampledFrom([]string{"all", "types", "stream"}).Draw(t, "what")}
		if subs {
			p.Live = rapid.SliceOfN(ev, 0, 8).Draw(t, "live")
			p.Subs = rapid.SliceOfN(rapid.SampledFrom([]string{"all", "types", "live"}), 1, 3).Draw(t, "subs")
		}
		return p
	}
}

func runUnfit(c *pbt.C, p UnfitPlan) {
	log.SetOutput(io.Discard)
	b := kit.OpenUnbound("memmp")
	c.Cleanup(b.Close)
	bg := context.Background()
	var all []UnfitEv
	put := func(first int, es []UnfitEv) {
		for i, e := range es {
			typ := "type"
			if e.Other {
				typ = "other"
			}
			fit, x := map[string]any{"number": first + i}, any("text")
			if e.Bad {
				x = math.NaN()
			}
			r := &rangedb.EventRecord{Event: rangedb.NewRawEvent(typ, "id", "Odd", map[string]any{"x": x}), Metadata: fit}
			if e.Meta {
				r = &rangedb.EventRecord{Event: rangedb.NewRawEvent(typ, "id", "Odd", fit), Metadata: map[string]any{"x": x}}
			}
			if _, err := b.Store.Save(bg, typ+"!id", r); err != nil {
				panic(err)
			}
		}
	}
	want := func(from int, typed bool) (out []uint64, fit int) {
		fit = -1
		for i, e := range all {
			if i+1 >= from && !(typed && e.Other) {
				if e.Bad && fit < 0 {
					fit = len(out)
				}
				out = append(out, uint64(i+1))
			}
		}
		if fit < 0 {
			fit = len(out)
		}
		return out, fit
	}
	all = append(all, p.Stored...)
	put(0, p.Stored)
	conn, stop := kit.Serve(b.Store)
	c.Cleanup(stop)
	if p.Subs == nil {
		s, err := remotestore.New(conn)
		if err != nil {
			c.Failf("%v", err)
		}
		var it rangedb.RecordIterator
		exp, fit := want(p.From, p.What != "all")
		switch p.What {
		case "all":
			it = s.Events(bg, uint64(p.From))
		case "types":
			it = s.EventsByAggregateTypes(bg, uint64(p.From), "type")
		default:
			exp, fit = want(0, true)
			it = s.EventsByStream(bg, 0, "type!id")
		}
		got, err := kit.Drain(it)
		var nums []uint64
		for _, r := range got {
			nums = append(nums, r.GlobalSequenceNumber)
		}
		if err == nil && (len(exp) > 0 || p.What != "stream") && !slices.Equal(nums, exp) {
			c.Failf("reading (%s) gave the events %v of %v and no error (event %d of them cannot be expressed)", p.What, nums, exp, fit)
		}
		if len(nums) > len(exp) || !slices.Equal(nums, exp[:len(nums)]) || fit == len(exp) && err != nil && len(exp) > 0 {
			c.Failf("reading (%s) gave the events %v of %v and %v (event %d of them cannot be expressed)", p.What, nums, exp, err, fit)
		}
		if fit < len(exp) {
			c.NonTrivial()
		}
		return
	}
	type sub struct {
		in   receiver
		what string
	}
	client := rangedbpb.NewRangeDBClient(conn)
	ctx, cancel := context.WithTimeout(bg, pbt.Patience(30*time.Second))
	defer cancel()
	var subs []sub
	for _, what := range p.Subs {
		var in receiver
		var err error
		switch what {
		case "all":
			in, err = client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: uint64(p.From)})
		case "types":
			in, err = client.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{GlobalSequenceNumber: uint64(p.From), AggregateTypes: []string{"type"}})
		default:
			var st rangedbpb.RangeDB_SubscribeToLiveEventsClient
			st, err = client.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
			if err == nil {
				_, err = st.Header()
			}
			in = st
		}
		if err != nil {
			c.Failf("subscribing: %v", err)
		}
		subs = append(subs, sub{in, what})
	}
	all = append(all, p.Live...)
	saved := make(chan struct{})
	go func() { put(len(p.Stored), p.Live); close(saved) }()
	c.Cleanup(func() { cancel(); <-saved })
	for _, s := range subs {
		from := p.From
		if s.what == "live" {
			from = len(p.Stored) + 1
		}
		exp, fit := want(from, s.what == "types")
		var got []uint64
		for len(got) < len(exp) {
			r, err := s.in.Recv()
			if status.Code(err) == codes.DeadlineExceeded {
				c.Failf("the subscription (%s) gives nothing more, but goes on, after %v of %v (event %d of them cannot be expressed)", s.what, got, exp, fit)
			}
			if err == io.EOF {
				c.Failf("the subscription (%s) ended as if complete after %v of %v (event %d of them cannot be expressed)", s.what, got, exp, fit)
			}
			if err != nil {
				break
			}
			if s.what == "live" && len(got) == 0 && int(r.GlobalSequenceNumber) < from {
				if p.Stored[r.GlobalSequenceNumber-1].Bad {
					break
				}
				continue // saved before, but still being broadcast
			}
			if got = append(got, r.GlobalSequenceNumber); !slices.Equal(got, exp[:len(got)]) {
				c.Failf("the subscription (%s) gave the events %v of %v (event %d of them cannot be expressed)", s.what, got, exp, fit)
			}
		}
		// One that was stored may still have been broadcast to the new live subscription.
		if len(got) < fit && !(s.what == "live" && slices.ContainsFunc(p.Stored, func(e UnfitEv) bool { return e.Bad })) {
			c.Failf("the subscription (%s) ended after %v of %v (event %d of them cannot be expressed)", s.what, got, exp, fit)
		}
		if fit < len(exp) {
			c.NonTrivial()
		}
	}
}

func init() {
	const rule = "events of which some hold numbers that the protocol cannot express, in a served MessagePack store; "
	pbt.Reg("C17", "unfit", pbt.Opt{Quick: 3000, Thorough: 40000, Shards: 8, Rule: rule + "reads of all kinds; non-trivial when such an event was asked for"}, genUnfit(false), runUnfit)
	pbt.Reg("C18", "unfit", pbt.Opt{Quick: 3000, Thorough: 40000, Shards: 8, Rule: rule + "subscriptions; non-trivial when such an event was due"}, genUnfit(true), runUnfit)
}
