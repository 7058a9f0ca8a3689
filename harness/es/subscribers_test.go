package es

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"pgregory.net/rapid"

	"verifharness/fakees"
	"verifharness/kit"
	"verifharness/pbt"
)

// SOp is a step in the life of the subscribers of a store.
type SOp struct {
	Op    string `json:"op"` // save, drop, down, cut, unfit, foreign, sub
	A     int    `json:"a"`
	N     int    `json:"n,omitempty"`
	From  int    `json:"from,omitempty"`  // of sub: -1 for the events to come, otherwise the number of events before the first
	Types []int  `json:"types,omitempty"` // of sub: all events when empty
	When  string `json:"when,omitempty"`  // of save: a drop before or after the events are stored
	Other bool   `json:"other,omitempty"` // another store saves
}

// SPlan is the life of the subscribers of a store.
type SPlan struct {
	Prefix bool      `json:"prefix"`
	Early  int       `json:"early"` // events saved before the store is opened
	Aggs   []kit.Agg `json:"aggs"`
	Ops    []SOp     `json:"ops"`
}

func genSubs(t *rapid.T) SPlan {
	p := SPlan{Prefix: rapid.Bool().Draw(t, "prefix"), Early: rapid.IntRange(0, 3).Draw(t, "early"), Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SOp {
		o := SOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "sub", "sub", "drop", "down", "cut", "unfit", "foreign"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
		switch o.Op {
		case "save":
			o.N = rapid.IntRange(1, 4).Draw(t, "n")
			o.When = rapid.SampledFrom([]string{"", "", "before", "after"}).Draw(t, "when")
			o.Other = rapid.Bool().Draw(t, "other")
		case "cut":
			o.N = rapid.IntRange(1, 3).Draw(t, "n")
		case "sub":
			o.From = rapid.SampledFrom([]int{-1, -1, 0, 1, 3, 100}).Draw(t, "from")
			o.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 0, 2).Draw(t, "types")
		}
		return o
	}), 2, 12).Draw(t, "ops")
	return p
}

// listener is one subscriber and what it must get.
type listener struct {
	mu    sync.Mutex
	got   []string
	want  []string
	types []string
	from  int
	sub   rangedb.RecordSubscription
}

func (l *listener) has(n int) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.got) >= n
}

var esSeq struct {
	sync.Mutex
	n int
}

func runSubs(c *pbt.C, p SPlan) {
	esSeq.Lock()
	esSeq.n++
	name := fmt.Sprintf("subs%d", esSeq.n)
	esSeq.Unlock()
	db := fakees.Start(name, fakees.Options{StreamPositions: true, Internal: p.Prefix})
	c.Cleanup(db.Drop)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type event struct {
		text, typ string
		gsn       uint64
	}
	var log []event
	var subs []*listener
	types := append(kit.Types(p.Aggs), "no such type")
	bad, seq := false, 0
	open := func() (rangedb.Store, func() error) {
		s, closeStore, err := kit.OpenES(db, p.Prefix, false, &kit.Clock{}, shortuuid.NewUUIDGenerator())
		if err != nil {
			c.Failf("New: %v", err)
		}
		return s, closeStore
	}
	other, closeOther := open()
	stopped := false
	c.Cleanup(func() {
		if !stopped {
			_ = closeOther()
		}
	})
	save := func(s rangedb.Store, a kit.Agg, n int) {
		var recs []*rangedb.EventRecord
		for i := 0; i < n; i++ {
			e := event{text: fmt.Sprintf("%d.%d", seq, i), typ: a.Type}
			recs = append(recs, kit.EvSpec{Kind: "thing", Text: e.text, Ptr: true}.Record(a.Type, a.ID))
		}
		ssn, err := s.Save(ctx, a.Stream, recs...)
		for i := 0; err != nil && i < 5; i++ { // connections may be broken
			ssn, err = s.Save(ctx, a.Stream, recs...)
		}
		if err != nil {
			c.Failf("save: %v", err)
		}
		prefix := ""
		if p.Prefix {
			prefix = kit.ESPrefix
		}
		for i := 0; i < n; i++ {
			e := event{text: fmt.Sprintf("%d.%d", seq, i), typ: a.Type, gsn: db.Position(prefix+a.Stream, ssn-uint64(n-i))}
			log = append(log, e)
			for _, l := range subs {
				if len(l.types) == 0 || slices.Contains(l.types, a.Type) {
					l.want = append(l.want, e.text)
				}
			}
		}
		seq++
	}
	for i := 0; i < p.Early; i++ {
		save(other, p.Aggs[i%len(p.Aggs)], 1)
	}
	s, closeStore := open()
	b := &kit.Backend{ES: db, CloseStore: func() error {
		if err := closeOther(); err != nil {
			return err
		}
		stopped = true
		return closeStore()
	}}
	done := false
	c.Cleanup(func() {
		if !done {
			_ = closeStore()
		}
	})
	subscribe := func(from int, typ []string) {
		l := &listener{types: typ, from: from}
		accept := rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
			text := fmt.Sprintf("%T", r.Data)
			if t, ok := r.Data.(*kit.Thing); ok {
				text = t.Text
			}
			l.mu.Lock()
			l.got = append(l.got, text)
			l.mu.Unlock()
		})
		if len(typ) > 0 {
			l.sub = s.AggregateTypesSubscription(ctx, 1000, accept, typ...)
		} else {
			l.sub = s.AllEventsSubscription(ctx, 1000, accept)
		}
		if from < 0 {
			if err := l.sub.Start(); err != nil {
				c.Failf("Start: %v", err)
			}
			subs = append(subs, l)
			return
		}
		start := uint64(0)
		if from > 0 && len(log) > 0 {
			start = log[min(from, len(log)-1)].gsn
			if from >= len(log) {
				start++
			}
		}
		err := l.sub.StartFrom(start)
		if err != nil && bad {
			return // an event before cannot be read
		}
		if err != nil {
			c.Failf("StartFrom(%d): %v", start, err)
		}
		for _, e := range log {
			if e.gsn >= start && (len(typ) == 0 || slices.Contains(typ, e.typ)) {
				l.want = append(l.want, e.text)
			}
		}
		subs = append(subs, l)
	}
	// The first subscriber tells when the store has seen all events.
	subscribe(-1, nil)
	settle := func() {
		n := len(subs[0].want)
		if !within(pbt.Patience(60*time.Second), func() bool { return subs[0].has(n) }) {
			c.Failf("a saved event was not delivered in a minute: got %v of %v", subs[0].got, subs[0].want)
		}
	}
	lost := 0
	for _, o := range p.Ops {
		a := p.Aggs[o.A%len(p.Aggs)]
		switch o.Op {
		case "save":
			from := s
			if o.Other {
				from = other
			}
			if o.When == "before" {
				db.DropSubscriptions()
			}
			save(from, a, o.N)
			if o.When == "after" {
				db.DropSubscriptions()
			}
			if o.When != "" {
				lost++
			}
		case "drop":
			db.DropSubscriptions()
		case "down":
			db.Down()
			db.Up()
			r := &frun{b: &kit.Backend{ES: db, Store: s}}
			var err error
			for end := time.Now().Add(pbt.Patience(60 * time.Second)); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
				if _, err = kit.Drain(r.b.Store.EventsByStream(ctx, 0, "no such stream")); err != nil && err.Error() == rangedb.ErrStreamNotFound.Error() {
					break
				}
			}
			if err == nil || err.Error() != rangedb.ErrStreamNotFound.Error() {
				c.Failf("a minute after the server is back: %v", err)
			}
		case "cut":
			var once sync.Once
			n := o.N
			db.SetHook(func(kind string) (act fakees.Act) {
				if kind == "subscribe" {
					once.Do(func() { act.Cut = n })
				}
				return act
			})
			db.DropSubscriptions()
		case "unfit":
			stream := a.Stream
			if p.Prefix {
				stream = kit.ESPrefix + stream
			}
			db.Put(stream, "Thing", []byte(`{"rangeDBMetadata":{"streamName":"x","aggregateType":"y","eventType":"Thing"}}`), []byte(`["unfit"]`))
			bad = true
			c.Class("unreadable event")
		case "foreign":
			if p.Prefix {
				db.Put("someone else's", "whatever", []byte("no JSON"), []byte("no JSON"))
				c.Class("foreign event")
			}
		case "sub":
			settle()
			var typ []string
			for _, i := range o.Types {
				if n := types[i%len(types)]; !slices.Contains(typ, n) {
					typ = append(typ, n)
				}
			}
			subscribe(o.From, typ)
		}
	}
	for _, a := range p.Aggs {
		save(s, a, 1)
	}
	settle()
	for i, l := range subs {
		if !within(pbt.Patience(20*time.Second), func() bool { return l.has(len(l.want)) }) || !slices.Equal(l.got, l.want) {
			l.mu.Lock()
			defer l.mu.Unlock()
			c.Failf("subscriber %d (types %q, from %d) got %v of %v", i, l.types, l.from, l.got, l.want)
		}
		l.sub.Stop()
	}
	done = true
	if err := clean(b); err != nil {
		c.Failf("%v", err)
	}
	if lost > 0 && len(subs) > 1 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C31", "subscribers", pbt.Opt{Quick: 800, Thorough: 12000, Shards: 24,
		Rule: "subscribers to all events or some types, from now on or from an earlier event, of an EventStoreDB store while it and another store with the same server save, subscriptions are dropped before and after events are stored or after some were delivered, the server is away, and events that cannot be read or are someone else's appear; each subscriber gets every event once and in order, and after Close nothing of the store goes on; non-trivial when a subscription was dropped around a save and there was more than one subscriber"},
		genSubs, runSubs)
}
