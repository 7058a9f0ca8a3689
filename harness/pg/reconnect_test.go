package pg

import (
	"context"
	"fmt"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"pgregory.net/rapid"

	"verifharness/fakepg"
	"verifharness/kit"
	"verifharness/pbt"
)

// Outage is the life of one subscribed store around the loss of its connections.
type Outage struct {
	Before []int `json:"before"` // sizes of the batches saved before the loss
	Lost   []int `json:"lost"`   // while nobody listens
	Around []int `json:"around"` // about when the connection is found again
	After  []int `json:"after"`
	Pause  int   `json:"pause"`  // milliseconds between the batches around
	Listen int   `json:"listen"` // milliseconds before the answer to LISTEN
	Read   int   `json:"read"`   // milliseconds before and after the events are read
	Types  bool  `json:"types"`  // the subscription is to one type
	Twice  bool  `json:"twice"`  // the connections are lost twice
	Other  bool  `json:"other"`  // another store saves
}

// OPlan is several outages at the same time, as each takes ten seconds.
type OPlan struct {
	Outages []Outage `json:"outages"`
}

func genOutages(t *rapid.T) OPlan {
	sizes := func(name string, n int) []int {
		return rapid.SliceOfN(rapid.IntRange(1, 4), 0, n).Draw(t, name)
	}
	return OPlan{Outages: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Outage {
		return Outage{Before: sizes("before", 3), Lost: sizes("lost", 4), Around: sizes("around", 12), After: sizes("after", 2),
			Pause:  rapid.SampledFrom([]int{1, 10, 50, 150}).Draw(t, "pause"),
			Listen: rapid.SampledFrom([]int{0, 0, 20, 300}).Draw(t, "listen"),
			Read:   rapid.SampledFrom([]int{0, 20, 100}).Draw(t, "read"),
			Types:  rapid.Bool().Draw(t, "types"),
			Twice:  rapid.Bool().Draw(t, "twice"),
			Other:  rapid.Bool().Draw(t, "other"),
		}
	}), 20, 40).Draw(t, "outages")}
}

var outageSeq atomic.Int64

func runOutage(o Outage) (err error) {
	db := fakepg.Create(fmt.Sprintf("outage%d", outageSeq.Add(1)))
	defer db.Drop()
	clock := &kit.Clock{}
	opened := time.Now()
	s, closeS, err := kit.OpenPG(db, true, clock, true)
	if err != nil {
		return err
	}
	defer func() { _ = closeS() }()
	kit.Bind(s)
	saver := s
	if o.Other {
		other, closeOther, err := kit.OpenPG(db, true, clock, false)
		if err != nil {
			return err
		}
		defer func() { _ = closeOther() }()
		kit.Bind(other)
		saver = other
	}
	var mu sync.Mutex
	var got []string
	accept := rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
		mu.Lock()
		got = append(got, r.Data.(*kit.Thing).Text)
		mu.Unlock()
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	sub := s.AllEventsSubscription(ctx, 1000, accept)
	if o.Types {
		sub = s.AggregateTypesSubscription(ctx, 1000, accept, "thing")
	}
	if err := sub.StartFrom(0); err != nil {
		return err
	}
	defer sub.Stop()
	var want []string
	seq := 0
	save := func(n int) error {
		for try := 0; ; try++ {
			typ := "thing"
			if o.Types && seq%3 == 1 {
				typ = "other"
			}
			var recs []*rangedb.EventRecord
			var texts []string
			for i := 0; i < n; i++ {
				texts = append(texts, fmt.Sprintf("%d.%d", seq, i))
				recs = append(recs, kit.EvSpec{Kind: "thing", Text: texts[i], Ptr: true}.Record(typ, "one"))
			}
			seq++
			_, err := saver.Save(ctx, typ+"!one", recs...)
			if err == nil {
				if typ == "thing" {
					want = append(want, texts...)
				}
				return nil
			}
			if try == 5 { // pooled connections are dead at first
				return fmt.Errorf("save: %v", err)
			}
		}
	}
	saves := func(ns []int, pause time.Duration) error {
		for _, n := range ns {
			if err := save(n); err != nil {
				return err
			}
			time.Sleep(pause)
		}
		return nil
	}
	var lateGot []string // by a subscriber that starts before the loss, with the events saved from then on
	lateFrom := -1
	all := func() error {
		if err := save(1); err != nil {
			return err
		}
		if err := save(1); err != nil {
			return err
		}
		last := want[len(want)-1]
		if lateFrom >= 0 && !within(pbt.Patience(60*time.Second), func() bool { mu.Lock(); defer mu.Unlock(); return slices.Contains(lateGot, last) }) {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Errorf("event %s was not delivered to a later subscriber in a minute: got %v of %v", last, lateGot, want[lateFrom:])
		}
		if !within(pbt.Patience(60*time.Second), func() bool { mu.Lock(); defer mu.Unlock(); return slices.Contains(got, last) }) {
			mu.Lock()
			defer mu.Unlock()
			return fmt.Errorf("event %s was not delivered in a minute: got %v of %v", last, got, want)
		}
		mu.Lock()
		defer mu.Unlock()
		if !slices.Equal(got, want) {
			return fmt.Errorf("got %v, saved %v", got, want)
		}
		if lateFrom >= 0 && !slices.Equal(lateGot, want[lateFrom:]) {
			return fmt.Errorf("a later subscriber got %v, saved since it started %v", lateGot, want[lateFrom:])
		}
		return nil
	}
	lose := func() error {
		db.DropConnections()
		if err := saves(o.Lost, 0); err != nil {
			return err
		}
		// The listener reconnects ten seconds after it last connected.
		time.Sleep(time.Until(opened.Add(10*time.Second - time.Duration(len(o.Around)*o.Pause/2)*time.Millisecond)))
		return saves(o.Around, time.Duration(o.Pause)*time.Millisecond)
	}
	if err := saves(o.Before, 0); err != nil {
		return err
	}
	db.SetHook(func(kind string) fakepg.Act {
		switch kind {
		case "listen":
			return fakepg.Act{After: time.Duration(o.Listen) * time.Millisecond}
		case "select":
			return fakepg.Act{Delay: time.Duration(o.Read) * time.Millisecond / 4, After: time.Duration(o.Read) * time.Millisecond / 4}
		}
		return fakepg.Act{}
	})
	if len(o.Before)%2 == 0 {
		if err := all(); err != nil {
			return fmt.Errorf("before the outage: %v", err)
		}
		late := s.AggregateTypesSubscription(ctx, 1000, rangedb.RecordSubscriberFunc(func(r *rangedb.Record) {
			mu.Lock()
			lateGot = append(lateGot, r.Data.(*kit.Thing).Text)
			mu.Unlock()
		}), "thing")
		lateFrom = len(want)
		if err := late.Start(); err != nil {
			return err
		}
		defer late.Stop()
	}
	if err := lose(); err != nil {
		return err
	}
	if err := all(); err != nil {
		return err
	}
	if o.Twice {
		opened = time.Now()
		if err := lose(); err != nil {
			return err
		}
		if err := saves(o.After, 0); err != nil {
			return err
		}
		if err := all(); err != nil {
			return fmt.Errorf("second outage: %v", err)
		}
	}
	if err := saves(o.After, 0); err != nil {
		return err
	}
	return all()
}

func within(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func runOutages(c *pbt.C, p OPlan) {
	kit.Excuse(c)
	errs := make([]error, len(p.Outages))
	var wg sync.WaitGroup
	for i, o := range p.Outages {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			errs[i] = runOutage(o)
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	for i := 0; ; i++ {
		select {
		case <-done:
		case <-time.After(time.Second):
			if i < 250 {
				c.Alive()
			}
			continue
		}
		break
	}
	for i, err := range errs {
		if err != nil {
			c.Failf("outage %d (%+v): %v", i, p.Outages[i], err)
		}
		c.Class("outage")
		if len(p.Outages[i].Lost) > 0 {
			c.Class("events saved while nobody listened")
			c.NonTrivial()
		}
	}
}

func init() {
	pbt.Reg("C34", "reconnects", pbt.Opt{Quick: 8, Thorough: 160, Shards: 8,
		Rule: "20 to 40 subscribed PostgreSQL stores with pg_notify at the same time, whose connections are all lost once or twice while this or another store saves before, during, about when the listener is back, and after; each subscriber gets every event once and in order; non-trivial when events were saved while nobody listened"},
		genOutages, runOutages)
}
