package remote

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/remotestore"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// FaultPlan is a served store with content, and calls on it of which some fail behind the server.
type FaultPlan struct {
	Backend string      `json:"backend"`
	Saves   []int       `json:"saves"` // aggregate of each event
	Calls   []FaultCall `json:"calls"`
}

// FaultCall is a call on the remote store.
type FaultCall struct {
	Op     string `json:"op"`   // all, types, stream, total, save, osave, del
	A      int    `json:"a"`    // aggregate
	From   uint64 `json:"from"` // position
	Fault  string `json:"fault,omitempty"`
	After  int    `json:"after,omitempty"` // records before a read fails
	Late   bool   `json:"late,omitempty"`
	Cancel int    `json:"cancel"` // records read before the client cancels; -1: never
	Exp    uint64 `json:"exp"`
}

var faults = map[string]error{
	"disk":     kit.ErrDisk,
	"conflict": &rangedberror.UnexpectedSequenceNumber{Expected: 1 << 63, ActualSequenceNumber: 7},
	"missing":  rangedb.ErrStreamNotFound,
	"cancel":   context.Canceled,
}

func runFault(c *pbt.C, p FaultPlan) {
	ib := kit.OpenUnbound(p.Backend)
	c.Cleanup(ib.Close)
	f := &kit.Faulty{Store: ib.Store}
	conn, stop := kit.Serve(f)
	c.Cleanup(stop)
	s, err := remotestore.New(conn)
	if err != nil {
		c.Failf("%v", err)
	}
	kit.Bind(s)
	m := &kit.Model{}
	bg := context.Background()
	agg := func(i int) (string, string, string) {
		t := fmt.Sprintf("t%d", i%3)
		return t + "!a", t, "a"
	}
	save := func(i, n int) {
		stream, ty, id := agg(i)
		e := kit.EvSpec{Kind: "thing", Num: int64(n)}
		if _, err := s.Save(bg, stream, e.Record(ty, id)); err != nil {
			c.Failf("save: %v", err)
		}
		m.Append(stream, ty, id, 0, []kit.EvSpec{e})
	}
	ib.Clock.Set(0)
	for n, i := range p.Saves {
		save(i, n)
	}
	for n, o := range p.Calls {
		stream, ty, id := agg(o.A)
		fault := faults[o.Fault]
		what := fmt.Sprintf("call %d (%s, fault %q after %d)", n, o.Op, o.Fault, o.After)
		read := func(open func(ctx context.Context) rangedb.RecordIterator, want []*kit.MRec, missing bool) {
			if fault != nil {
				f.Set(fault, o.After, o.Late, nil)
				defer f.Set(nil, 0, false, nil)
			}
			ctx, cancel := context.WithCancel(bg)
			defer cancel()
			if o.Cancel == 0 {
				cancel()
			}
			it := open(ctx)
			var got []*rangedb.Record
			for it.Next() {
				if it.Err() != nil {
					break
				}
				got = append(got, it.Record())
				if len(got) > len(want) {
					break
				}
				if len(got) == o.Cancel {
					cancel()
				}
			}
			err := it.Err()
			if len(got) > len(want) {
				c.Failf("%s: %d records of %d", what, len(got), len(want))
			}
			if e := kit.Same(want[:len(got)], got); e != nil {
				c.Failf("%s: %v", what, e)
			}
			if it.Next() {
				c.Failf("%s: goes on after its end", what)
			}
			cancelled := o.Cancel == 0 || o.Cancel > 0 && len(got) >= o.Cancel
			switch {
			case cancelled:
				if len(got) < len(want) && err == nil {
					c.Failf("%s: cancelled after %d records, ended after %d of %d without an error", what, o.Cancel, len(got), len(want))
				}
				if fault == nil && err != nil && !errors.Is(err, context.Canceled) && !(missing && errors.Is(err, rangedb.ErrStreamNotFound)) {
					c.Failf("%s: cancelled, the error is %T %v", what, err, err)
				}
				c.Class("cancelled")
			case fault != nil:
				if err == nil {
					c.Failf("%s: ended after %d of %d records without an error", what, len(got), len(want))
				}
				if !missing && len(got) != min(o.After, len(want)) {
					c.Failf("%s: %d records and then %v", what, len(got), err)
				}
				if !missing {
					sameError(c, what, fault, err)
				}
				if len(got) > 0 {
					c.NonTrivial()
				}
			case missing:
				if !errors.Is(err, rangedb.ErrStreamNotFound) {
					c.Failf("%s: the error is %v", what, err)
				}
			default:
				if err != nil || len(got) != len(want) {
					c.Failf("%s: %d records of %d, error %v", what, len(got), len(want), err)
				}
			}
		}
		write := func(do func() error, valid bool) {
			if fault != nil {
				f.Set(nil, 0, false, fault)
				defer f.Set(nil, 0, false, nil)
			}
			err := do()
			if fault != nil {
				if err == nil {
					c.Failf("%s: accepted", what)
				}
				if !(strings.HasSuffix(o.Op, "save") && o.Fault != "disk" && o.Fault != "conflict") && !(o.Op == "save" && o.Fault == "conflict") {
					sameError(c, what, fault, err)
				}
				return
			}
			if valid != (err == nil) {
				c.Failf("%s: error %v", what, err)
			}
		}
		cur := m.Len(stream)
		e := kit.EvSpec{Kind: "thing", Num: int64(n)}
		switch o.Op {
		case "all":
			read(func(ctx context.Context) rangedb.RecordIterator { return s.Events(ctx, o.From) }, m.All(o.From), false)
		case "types":
			read(func(ctx context.Context) rangedb.RecordIterator {
				return s.EventsByAggregateTypes(ctx, o.From, ty, "t0")
			}, m.Types(o.From, ty, "t0"), false)
		case "stream":
			read(func(ctx context.Context) rangedb.RecordIterator { return s.EventsByStream(ctx, o.From, stream) }, m.Stream(stream, o.From), cur == 0)
		case "total":
			if fault != nil {
				f.Set(fault, 0, false, nil)
			}
			n, err := s.TotalEventsInStream(bg, stream)
			f.Set(nil, 0, false, nil)
			if fault != nil && err == nil {
				c.Failf("%s: %d", what, n)
			}
			if fault == nil && (err != nil || n != cur) {
				c.Failf("%s: %d, %v, expected %d", what, n, err, cur)
			}
		case "save":
			write(func() error { _, err := s.Save(bg, stream, e.Record(ty, id)); return err }, true)
			if fault == nil {
				m.Append(stream, ty, id, 0, []kit.EvSpec{e})
			}
		case "osave":
			write(func() error { _, err := s.OptimisticSave(bg, o.Exp, stream, e.Record(ty, id)); return err }, o.Exp == cur)
			if fault == nil && o.Exp == cur {
				m.Append(stream, ty, id, 0, []kit.EvSpec{e})
			}
		case "del":
			write(func() error { return s.OptimisticDeleteStream(bg, o.Exp, stream) }, o.Exp == cur && cur > 0)
			if fault == nil && o.Exp == cur {
				m.Delete(stream)
			}
		}
	}
	if err := kit.CheckStore(m, s, []string{"t0!a", "t1!a", "t2!a"}, []string{"t0", "t1", "t2"}); err != nil {
		c.Failf("at the end: %v", err)
	}
}

// sameError judges an error that came from behind the server.
func sameError(c *pbt.C, what string, want, got error) {
	var u, w *rangedberror.UnexpectedSequenceNumber
	switch {
	case errors.As(want, &w):
		if strings.Contains(what, "save") || strings.Contains(what, "del") {
			if !errors.As(got, &u) || *u != *w {
				c.Failf("%s: the error is %T %v, the store's was %v", what, got, got, want)
			}
		}
	case errors.Is(want, rangedb.ErrStreamNotFound):
		if !errors.Is(got, want) {
			c.Failf("%s: the error is %T %v, the store's was %v", what, got, got, want)
		}
	}
	if !strings.Contains(got.Error(), want.Error()) {
		c.Failf("%s: the error is %v, the store's was %v", what, got, want)
	}
}

// RawPlan is a save request sent to the server as it is.
type RawPlan struct {
	Backend string     `json:"backend"`
	Opt     bool       `json:"opt,omitempty"`
	Exp     uint64     `json:"exp,omitempty"`
	Before  int        `json:"before"`
	Events  []RawEvent `json:"events"`
}

// RawEvent is an event of a save request.
type RawEvent struct {
	Type  string `json:"type"`
	Data  string `json:"data"`
	Meta  string `json:"meta"`
	Other string `json:"other,omitempty"` // aggregate ID differs
}

func runRaw(c *pbt.C, p RawPlan) {
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	conn, stop := kit.Serve(b.Store)
	c.Cleanup(stop)
	client := rangedbpb.NewRangeDBClient(conn)
	bg := context.Background()
	for i := 0; i < p.Before; i++ {
		if _, err := b.Store.Save(bg, "x!y", kit.EvSpec{Kind: "thing"}.Record("x", "y")); err != nil {
			c.Failf("%v", err)
		}
	}
	var events []*rangedbpb.Event
	valid, null := len(p.Events) > 0, false
	for i, e := range p.Events {
		id := "y"
		if e.Other != "" && i > 0 {
			id, valid = "y"+e.Other, false
		}
		events = append(events, &rangedbpb.Event{AggregateType: "x", AggregateID: id, EventType: e.Type, Data: e.Data, Metadata: e.Meta})
		valid = valid && json.Valid([]byte(e.Data)) && (e.Meta == "" || json.Valid([]byte(e.Meta)))
		null = null || strings.TrimSpace(e.Data) == "null"
	}
	var resp *rangedbpb.SaveResponse
	var err error
	if p.Opt {
		valid = valid && p.Exp == uint64(p.Before)
		resp, err = client.OptimisticSave(bg, &rangedbpb.OptimisticSaveRequest{StreamName: "x!y", Events: events, ExpectedStreamSequenceNumber: p.Exp})
	} else {
		resp, err = client.Save(bg, &rangedbpb.SaveRequest{StreamName: "x!y", Events: events})
	}
	if !valid && err == nil {
		c.Failf("the invalid request was accepted")
	}
	if valid && err != nil && !null {
		c.Failf("the valid request was refused: %v", err)
	}
	recs, rerr := kit.Drain(b.Store.Events(bg, 0))
	if rerr != nil {
		c.Failf("Events: %v", rerr)
	}
	want := p.Before
	if err == nil {
		want += len(events)
		if int(resp.EventsSaved) != len(events) || resp.LastStreamSequenceNumber != uint64(want) {
			c.Failf("%d events saved behind %d, the response says %v", len(events), p.Before, resp)
		}
		c.Class("accepted")
	} else {
		c.Class("refused")
	}
	if len(recs) != want {
		c.Failf("the stream has %d events, expected %d (error %v)", len(recs), want, err)
	}
	check := func(how string, recs []*rangedb.Record) {
		for i, r := range recs[p.Before:] {
			e := p.Events[i]
			if r.EventType != e.Type {
				c.Failf("%s: event %d has type %q, sent %q", how, i, r.EventType, e.Type)
			}
			if err := kit.SameJSON("data", exact(e.Data), r.Data); err != nil {
				c.Failf("%s: event %d: %v", how, i, err)
			}
			meta := e.Meta
			if meta == "" {
				meta = "null"
			}
			if err := kit.SameJSON("metadata", exact(meta), r.Metadata); err != nil {
				c.Failf("%s: event %d: %v", how, i, err)
			}
		}
	}
	check("in the store", recs)
	s, err := remotestore.New(conn)
	if err != nil {
		c.Failf("%v", err)
	}
	far, err := kit.Drain(s.Events(bg, 0))
	if err != nil || len(far) != len(recs) {
		c.Failf("reading back remotely: %d records, %v", len(far), err)
	}
	check("read remotely", far)
	if p.Before > 0 && len(p.Events) > 1 {
		c.NonTrivial()
	}
}

func exact(text string) any {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	_ = d.Decode(&v)
	return v
}

func init() {
	pbt.Reg("C17", "faults", pbt.Opt{Quick: 4000, Thorough: 80000, Shards: 8,
		Rule: "calls through a remote store of which some fail in the served store (a failing disk, a conflict, a missing stream, a cancellation, reads after any number of records) or are cancelled by the client; non-trivial when a read failed after it had delivered records"},
		func(t *rapid.T) FaultPlan {
			return FaultPlan{
				Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"),
				Saves:   rapid.SliceOfN(rapid.IntRange(0, 2), 0, 12).Draw(t, "saves"),
				Calls: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) FaultCall {
					return FaultCall{
						Op: rapid.SampledFrom([]string{"all", "all", "types", "types", "stream", "stream", "total", "save", "osave", "del"}).Draw(t, "op"),
						A:  rapid.IntRange(0, 2).Draw(t, "a"), From: rapid.Uint64Range(0, 6).Draw(t, "from"),
						Fault: rapid.SampledFrom([]string{"", "disk", "disk", "disk", "conflict", "missing", "cancel"}).Draw(t, "fault"),
						After: rapid.IntRange(0, 6).Draw(t, "after"), Late: rapid.Bool().Draw(t, "late"),
						Cancel: max(-1, rapid.IntRange(-8, 4).Draw(t, "cancel")), Exp: rapid.Uint64Range(0, 4).Draw(t, "exp"),
					}
				}), 1, 6).Draw(t, "calls"),
			}
		}, runFault)
	value := rapid.SampledFrom([]string{"{}", `{"a":1}`, `[1,2.5,{"b":null}]`, `"text"`, "true", "null", "0", "9007199254740993", "18446744073709551615", "-9223372036854775808", "123456789012345678901234567890", "0.1", `{"n":{"m":[9007199254740993]}}`, ` {"x" : "y"} `,
		"", "{", "}", `{"a":1`, `{"a":1}}`, `{"a":1} {"b":2}`, "nul", "'a'", "1,2", "\u0000", "1 garbage"})
	pbt.Reg("C17", "raw", pbt.Opt{Quick: 6000, Thorough: 100000, Shards: 8,
		Rule: "a save request with any JSON or broken text as event data and metadata sent to the server; the store is compared with what was accepted; non-trivial when the stream existed and several events were sent"},
		func(t *rapid.T) RawPlan {
			p := RawPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"), Opt: rapid.Bool().Draw(t, "opt"), Before: rapid.IntRange(0, 3).Draw(t, "before")}
			if p.Opt {
				p.Exp = uint64(p.Before)
				if rapid.IntRange(0, 4).Draw(t, "wrong") == 0 {
					p.Exp = rapid.Uint64Range(0, 4).Draw(t, "exp")
				}
			}
			p.Events = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) RawEvent {
				e := RawEvent{Type: rapid.SampledFrom([]string{"A", "Thing", "", "é"}).Draw(t, "type"), Data: value.Draw(t, "data"), Meta: rapid.OneOf(rapid.Just("null"), rapid.Just(""), value).Draw(t, "meta")}
				if rapid.IntRange(0, 7).Draw(t, "mixed") == 0 {
					e.Other = "z"
				}
				return e
			}), 0, 4).Draw(t, "events")
			return p
		}, runRaw)
}
