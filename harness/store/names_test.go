package store

import (
	"context"
	"errors"
	"fmt"
	"unicode/utf8"

	"github.com/inklabs/rangedb"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// NPlan is a history over names of arbitrary bytes.
type NPlan struct {
	Backend string   `json:"backend"`
	Streams [][]byte `json:"streams"`
	Types   [][]byte `json:"types"` // of the stream at the same index
	IDs     [][]byte `json:"ids"`
	Ops     []NOp    `json:"ops"`
}

// NOp is a save of N events (N > 0), or the deletion of the stream.
type NOp struct {
	A int `json:"a"`
	N int `json:"n"`
}

func genNPlan(t *rapid.T) NPlan {
	anything := rapid.SampledFrom([]string{"a", "a", "a", "b", "\xff", "\xfe", "\xc3", "\xa9", "\xc3\xa9", "\ufffd", "?", "\x00", "$!", "\xed\xa0\x80", "\xf0\x9f"})
	if rapid.Bool().Draw(t, "valid") {
		anything = rapid.SampledFrom([]string{"a", "b", "A", "\xc3\xa9", "e\u0301", "\ufffd", "?", "\x00", "$!", " ", "\n", "\u212b", "\u00c5", "\ufeff"})
	}
	names := func(label string, units *rapid.Generator[string]) []byte {
		var out []byte
		for _, u := range rapid.SliceOfN(units, 0, 3).Draw(t, label) {
			out = append(out, u...)
		}
		return out
	}
	p := NPlan{Backend: rapid.SampledFrom(localStores).Draw(t, "backend")}
	for i := 0; i < rapid.IntRange(2, 5).Draw(t, "streams"); i++ {
		p.Streams = append(p.Streams, names("stream", anything))
		p.Types = append(p.Types, names("type", anything))
		p.IDs = append(p.IDs, names("id", anything))
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) NOp {
		return NOp{A: rapid.IntRange(0, len(p.Streams)-1).Draw(t, "a"), N: rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "n")}
	}), 2, 10).Draw(t, "ops")
	return p
}

type nEvent struct {
	stream, atype, text string
	gsn                 uint64
}

func runNames(c *pbt.C, p NPlan) {
	b := kit.Open(p.Backend)
	c.Cleanup(b.Close)
	ctx := context.Background()
	streams := map[string][]nEvent{}
	types := map[string]bool{}
	gsn := uint64(0)
	json := p.Backend == "mem" || p.Backend == "ldb"
	serial := 0
	same := func(what string, want []nEvent, it rangedb.RecordIterator) {
		recs, err := kit.Drain(it)
		if len(want) == 0 && errors.Is(err, rangedb.ErrStreamNotFound) {
			return
		}
		if err != nil {
			c.Failf("backend %s: %s: %v", p.Backend, what, err)
		}
		var got []string
		for _, r := range recs {
			got = append(got, fmt.Sprintf("%d:%s in %q of %q", r.GlobalSequenceNumber, r.Data.(*kit.Thing).Text, r.StreamName, r.AggregateType))
		}
		var exp []string
		for _, e := range want {
			exp = append(exp, fmt.Sprintf("%d:%s in %q of %q", e.gsn, e.text, e.stream, e.atype))
		}
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			c.Failf("backend %s: %s returned %v instead of %v", p.Backend, what, got, exp)
		}
	}
	check := func() {
		var all []nEvent
		for _, s := range p.Streams {
			want := streams[string(s)]
			same(fmt.Sprintf("EventsByStream(%q)", s), want, b.Store.EventsByStream(ctx, 0, string(s)))
			n, err := b.Store.TotalEventsInStream(ctx, string(s))
			if err != nil || n != uint64(len(want)) {
				c.Failf("backend %s: TotalEventsInStream(%q) returned %d, %v instead of %d", p.Backend, s, n, err, len(want))
			}
		}
		for _, es := range streams {
			all = append(all, es...)
		}
		for i := range all {
			for j := i; j > 0 && all[j].gsn < all[j-1].gsn; j-- {
				all[j], all[j-1] = all[j-1], all[j]
			}
		}
		same("Events", all, b.Store.Events(ctx, 0))
		for _, at := range p.Types {
			var want []nEvent
			for _, e := range all {
				if e.atype == string(at) {
					want = append(want, e)
				}
			}
			same(fmt.Sprintf("EventsByAggregateTypes(%q)", at), want, b.Store.EventsByAggregateTypes(ctx, 0, string(at)))
		}
	}
	for _, o := range p.Ops {
		a := o.A % len(p.Streams)
		stream, atype := string(p.Streams[a]), string(p.Types[a])
		if o.N == 0 {
			err := b.Store.OptimisticDeleteStream(ctx, uint64(len(streams[stream])), stream)
			if had := len(streams[stream]) > 0; had != (err == nil) {
				c.Failf("backend %s: deletion of %q with %d events: %v", p.Backend, stream, len(streams[stream]), err)
			}
			delete(streams, stream)
		} else {
			var recs []*rangedb.EventRecord
			for i := 0; i < o.N; i++ {
				serial++
				gsn++
				e := nEvent{stream, atype, fmt.Sprintf("e%d", serial), gsn}
				streams[stream] = append(streams[stream], e)
				recs = append(recs, kit.EvSpec{Kind: "thing", Text: e.text}.Record(atype, string(p.IDs[a])))
			}
			n, err := b.Store.Save(ctx, stream, recs...)
			if err != nil && json && !(utf8.ValidString(stream) && utf8.ValidString(atype) && utf8.Valid(p.IDs[a])) {
				// Refused, because JSON cannot represent the name: nothing was saved.
				gsn -= uint64(o.N)
				if streams[stream] = streams[stream][:len(streams[stream])-o.N]; len(streams[stream]) == 0 {
					delete(streams, stream)
				}
				c.Class("refused")
				check()
				continue
			}
			if err != nil || n != uint64(len(streams[stream])) {
				c.Failf("backend %s: Save(%q) returned %d, %v instead of %d", p.Backend, stream, n, err, len(streams[stream]))
			}
			types[atype] = true
		}
		check()
	}
	if len(streams) > 1 || len(types) > 1 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C06", "bytes", pbt.Opt{Quick: 6000, Thorough: 60000, Shards: 4,
		Rule: "a history of saves and deletions over stream names, aggregate types and IDs of arbitrary bytes, also ones that are not UTF-8 and differ only in them; the events of every stream and type compared after each call; non-trivial when two streams or two types had events"},
		genNPlan, runNames)
}
