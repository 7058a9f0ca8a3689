package subs

import (
	"context"
	"errors"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// Step is what happens at one moment of a subscription's life.
type Step struct {
	Save int  `json:"save,omitempty"` // records appended to the history
	Pump int  `json:"pump,omitempty"` // records broadcast, in order
	Stop bool `json:"stop,omitempty"` // Stop is called
	Quit bool `json:"quit,omitempty"` // the context is cancelled
}

// CatchPlan is a record subscriber and everything that happens around it.
type CatchPlan struct {
	History []bool `json:"history"` // whether each record is of a subscribed type
	From    int    `json:"from"`    // -1: Start, live only
	Buffer  int    `json:"buffer"`

	Reads    []Step       `json:"reads,omitempty"`    // when the n-th catch-up read begins
	Nexts    map[int]Step `json:"nexts,omitempty"`    // before the n-th record is read
	Before   Step         `json:"before"`             // when subscribing, before it takes effect
	After    Step         `json:"after"`              // after it took effect
	Consumed map[int]Step `json:"consumed,omitempty"` // while the n-th record is consumed
	Live     []Step       `json:"live,omitempty"`     // once it is started
	FailRead int          `json:"failread"`           // read number that fails, 0: none
	FailAt   int          `json:"failat,omitempty"`   // after this many records
	FailHow  int          `json:"failhow,omitempty"`  // 0: error ends the read, 1: error with Next true, 2: the read is an error iterator
	FailEat  int          `json:"faileat"`            // consumed record that fails, 0: none
}

func genStep(t *rapid.T, name string, stops bool) Step {
	s := Step{Save: rapid.IntRange(-2, 3).Draw(t, name+"-save"), Pump: rapid.IntRange(-2, 4).Draw(t, name+"-pump")}
	s.Save, s.Pump = max(s.Save, 0), max(s.Pump, 0)
	if stops {
		switch rapid.IntRange(0, 25).Draw(t, name+"-stop") {
		case 0:
			s.Stop = true
		case 1:
			s.Quit = true
		}
	}
	return s
}

func genCatch(t *rapid.T) CatchPlan {
	p := CatchPlan{
		History: rapid.SliceOfN(rapid.Bool(), 0, 12).Draw(t, "history"),
		Buffer:  rapid.SampledFrom([]int{0, 1, 2, 10, 100, 100}).Draw(t, "buffer"),
	}
	p.From = rapid.IntRange(-1, len(p.History)+3).Draw(t, "from")
	for i := 0; i < 2; i++ {
		p.Reads = append(p.Reads, genStep(t, "read", false))
	}
	steps := func(name string, n int) map[int]Step {
		m := map[int]Step{}
		for _, k := range rapid.SliceOfN(rapid.IntRange(0, 14), 0, n).Draw(t, name) {
			m[k] = genStep(t, name, true)
		}
		return m
	}
	p.Nexts, p.Consumed = steps("next", 3), steps("consumed", 3)
	p.Before, p.After = genStep(t, "before", false), genStep(t, "after", false)
	n := rapid.IntRange(0, 6).Draw(t, "live")
	for i := 0; i < n; i++ {
		p.Live = append(p.Live, genStep(t, "live", true))
	}
	if rapid.IntRange(0, 3).Draw(t, "fails") == 0 {
		p.FailRead = rapid.IntRange(1, 2).Draw(t, "failread")
		p.FailAt = rapid.IntRange(0, 4).Draw(t, "failat")
		p.FailHow = rapid.IntRange(0, 2).Draw(t, "failhow")
	}
	if rapid.IntRange(0, 3).Draw(t, "eatfails") == 0 {
		p.FailEat = rapid.IntRange(1, 10).Draw(t, "faileat")
	}
	return p
}

var (
	errRead = errors.New("the read failed")
	errEat  = errors.New("the consumer failed")
)

// world is the fake store and broadcaster the subscriber is driven with.
type world struct {
	c         *pbt.C
	p         CatchPlan
	log       []*rangedb.Record // records of subscribed types
	gsn       uint64
	pumped    int // index into log of the next record to broadcast
	sub       broadcast.RecordSubscriber
	dropped   bool
	unsubbed  int
	subbed    int
	reads     int
	nexts     int
	got       []*rangedb.Record
	failed    bool
	callback  bool
	stopping  func()
	quit      func()
	ended     bool // Stop or cancel was called
	gotAtEnd  int
	firstLive int
	iters     []*fakeIter
	cancelled bool // the context of the reads was cancelled
}

func (w *world) save(match bool) {
	w.gsn++
	if match {
		w.log = append(w.log, &rangedb.Record{GlobalSequenceNumber: w.gsn, AggregateType: "t"})
	}
}

// step runs at a moment at which the subscriber waits for the harness.
func (w *world) step(s Step) {
	for i := 0; i < s.Save; i++ {
		w.save((int(w.gsn)+i)%3 != 0)
	}
	for i := 0; i < s.Pump && w.pumped < len(w.log); i++ {
		r := w.log[w.pumped]
		w.pumped++
		if w.sub == nil {
			continue
		}
		// As the broadcaster does: wait for a while, then drop.
		sub := w.sub
		select {
		case sub.Receiver() <- r:
		case <-time.After(100 * time.Millisecond):
			w.dropped = true
			sub.Stop()
			w.sub = nil
		}
		if !w.callback {
			w.settle()
		}
	}
	if s.Stop && !w.ended {
		w.ended, w.gotAtEnd = true, len(w.got)
		w.stopping()
	}
	if s.Quit && !w.ended {
		w.ended, w.gotAtEnd = true, len(w.got)
		w.cancelled = true
		w.quit()
	}
}

// settle waits until the subscriber has done all it can do.
func (w *world) settle() {
	time.Sleep(time.Second)
	w.c.Wait()
}

// fakeIter is a snapshot read of the fake store.
type fakeIter struct {
	w    *world
	recs []*rangedb.Record
	i    int
	no   int
	cur  *rangedb.Record
	err  error
	done bool // read to its end, or failed
}

func (it *fakeIter) Next() bool {
	w := it.w
	w.callback = true
	defer func() { w.callback = false }()
	if s, ok := w.p.Nexts[w.nexts]; ok {
		w.step(s)
	}
	w.nexts++
	if it.err != nil {
		it.done = true
		return false
	}
	if it.no == w.p.FailRead && it.i == w.p.FailAt {
		it.err = errRead
		it.done = true
		w.failed = true
		return w.p.FailHow == 1
	}
	if it.i >= len(it.recs) {
		it.done = true
		return false
	}
	it.cur = it.recs[it.i]
	it.i++
	return true
}

func (it *fakeIter) NextContext(context.Context) bool { return it.Next() }
func (it *fakeIter) Record() *rangedb.Record          { return it.cur }
func (it *fakeIter) Err() error                       { return it.err }

func runCatch(c *pbt.C, p CatchPlan) {
	w := &world{c: c, p: p}
	for _, m := range p.History {
		w.save(m)
	}
	w.pumped = len(w.log) - len(w.log)%3 // the broadcaster may lag behind
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := recordsubscriber.New(recordsubscriber.Config{
		BufferSize: p.Buffer,
		GetRecords: func(g uint64) rangedb.RecordIterator {
			w.reads++
			w.callback = true
			if w.reads <= len(p.Reads) {
				w.step(p.Reads[w.reads-1])
			}
			w.callback = false
			if w.reads == p.FailRead && p.FailHow == 2 {
				w.failed = true
				return rangedb.NewRecordIteratorWithError(errRead)
			}
			it := &fakeIter{w: w, no: w.reads}
			w.iters = append(w.iters, it)
			for _, r := range w.log {
				if r.GlobalSequenceNumber >= g {
					it.recs = append(it.recs, r)
				}
			}
			return it
		},
		ConsumeRecord: func(r *rangedb.Record) error {
			if w.ended && len(w.got) > w.gotAtEnd {
				c.Report("record %d was consumed after the subscriber was stopped", r.GlobalSequenceNumber)
			}
			if w.failed {
				c.Report("record %d was consumed after a failure", r.GlobalSequenceNumber)
			}
			w.got = append(w.got, r)
			w.callback = true
			if s, ok := p.Consumed[len(w.got)]; ok {
				w.step(s)
			}
			w.callback = false
			if len(w.got) == p.FailEat {
				w.failed = true
				return errEat
			}
			return nil
		},
		Subscribe: func(sub broadcast.RecordSubscriber) {
			w.subbed++
			w.callback = true
			w.step(p.Before)
			w.sub = sub
			w.firstLive = w.pumped
			w.step(p.After)
			w.callback = false
		},
		Unsubscribe: func(sub broadcast.RecordSubscriber) {
			w.unsubbed++
			w.sub = nil
		},
		Ctx: ctx,
	})
	w.stopping, w.quit = s.Stop, cancel

	var err error
	if p.From < 0 {
		err = s.Start()
	} else {
		err = s.StartFrom(uint64(p.From))
	}
	w.settle()
	c.Check()
	// A read left half way keeps the store's reader, and what it holds, waiting
	// until the context ends, which nobody else may end.
	for i, it := range w.iters {
		if !it.done && it.i < len(it.recs) && !w.cancelled {
			c.Failf("the subscriber left read %d after %d of %d records while the context it reads with lives on", i+1, it.i, len(it.recs))
		}
	}
	from := uint64(max(p.From, 0))
	var want []*rangedb.Record
	expect := func() {
		want = nil
		for i, r := range w.log {
			if p.From < 0 && i < w.firstLive {
				continue
			}
			if r.GlobalSequenceNumber >= from {
				want = append(want, r)
			}
		}
	}
	prefix := func(when string) {
		expect()
		for i, r := range w.got {
			if i >= len(want) {
				c.Failf("%s: %d records consumed of %d", when, len(w.got), len(want))
			}
			if r != want[i] {
				c.Failf("%s: record number %d consumed is %d, expected %d", when, i+1, r.GlobalSequenceNumber, want[i].GlobalSequenceNumber)
			}
		}
	}
	prefix("after the start")
	if err != nil {
		if !w.failed && !w.ended && !w.dropped {
			c.Failf("the start failed with %v though nothing did", err)
		}
		if w.subbed > 0 && w.unsubbed == 0 && w.sub != nil {
			c.Failf("the start failed with %v but the subscriber is still subscribed", err)
		}
		n := len(w.got)
		w.step(Step{Save: 3, Pump: 100})
		w.settle()
		if len(w.got) != n {
			c.Failf("a record was consumed after the start failed")
		}
		c.Class("start failed")
		if w.failed {
			c.NonTrivial()
		}
		return
	}
	// A read that failed, or a consumer that failed during the catch-up, is reported.
	caughtUp := w.reads // nothing more is read once it is started
	if w.failed && (p.FailRead > 0 && p.FailRead <= caughtUp && len(w.got) < p.FailEat || p.FailEat == 0) {
		c.Failf("a read failed but the start reported no error")
	}
	for _, st := range p.Live {
		w.step(st)
		w.settle()
		c.Check()
		prefix("live")
	}
	w.step(Step{Pump: 1000})
	w.settle()
	c.Check()
	prefix("at the end")
	stopped := w.failed || w.ended || w.dropped
	select {
	case <-s.Done():
		if !stopped {
			c.Failf("the subscriber reports done though nothing stopped it")
		}
	default:
		if stopped {
			c.Failf("the subscriber was stopped (failed %v, ended %v, dropped %v) but does not report done", w.failed, w.ended, w.dropped)
		}
	}
	if stopped && w.unsubbed == 0 {
		c.Failf("the subscriber was stopped but is not unsubscribed")
	}
	if !stopped && len(w.got) != len(want) {
		c.Failf("%d records consumed of %d; the first one missing is %d", len(w.got), len(want), want[len(w.got)].GlobalSequenceNumber)
	}
	if w.dropped {
		c.Class("dropped")
	}
	if w.ended {
		c.Class("stopped")
	}
	if len(w.got) > 2 && !stopped || stopped && len(w.got) > 0 {
		c.NonTrivial()
	}
	if !stopped {
		c.Class("followed")
		s.Stop()
		w.settle()
		n := len(w.got)
		w.step(Step{Save: 3, Pump: 100})
		w.settle()
		if len(w.got) != n {
			c.Failf("a record was consumed after the subscriber was stopped")
		}
		select {
		case <-s.Done():
		default:
			c.Failf("the stopped subscriber does not report done")
		}
		if w.unsubbed == 0 {
			c.Failf("the stopped subscriber is not unsubscribed")
		}
	}
}

func init() {
	pbt.Reg("C12", "catchup", pbt.Opt{Quick: 200000, Thorough: 3000000, Shards: 8, Bubble: true,
		Rule: "a record subscriber between a fake store and a fake broadcaster that save and broadcast records at generated moments: when each catch-up read begins, before each record of a read, before and after subscribing takes effect, while a record is consumed, and once started; with any start position and buffer, reads and consumers failing at a chosen record, and stops, cancellations and drops; non-trivial when more than two records were followed to the end, or some were consumed before it failed or stopped"},
		genCatch, runCatch)
}
