package subs

import (
	"fmt"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// BSub describes one subscriber of a broadcaster.
type BSub struct {
	Types  []int `json:"types"`            // empty: all events
	Buffer int   `json:"buffer,omitempty"` // capacity of its channel
	Delay  int   `json:"delay,omitempty"`  // milliseconds it takes per record; -1: stalls after StallAt records
	Stall  int   `json:"stall,omitempty"`
	Twice  bool  `json:"twice,omitempty"` // subscribes twice
}

// BOp is one call on the broadcaster.
type BOp struct {
	Op   string `json:"op"` // sub, unsub, accept, settle, sleep
	S    int    `json:"s,omitempty"`
	Type int    `json:"type,omitempty"`
	N    int    `json:"n,omitempty"`
}

// BPlan is a history of calls.
type BPlan struct {
	Buffer  int    `json:"buffer"`
	Timeout int    `json:"timeout"` // milliseconds
	Subs    []BSub `json:"subs"`
	Ops     []BOp  `json:"ops"`
	Close   bool   `json:"close,omitempty"`
	After   bool   `json:"after,omitempty"` // used after it was closed
}

var btypes = []string{"alpha", "beta", "gamma"}

func genB(t *rapid.T) BPlan {
	p := BPlan{
		Buffer:  rapid.SampledFrom([]int{0, 1, 2, 5, 100}).Draw(t, "buffer"),
		Timeout: rapid.SampledFrom([]int{5, 100}).Draw(t, "timeout"),
		Close:   rapid.Bool().Draw(t, "close"),
		After:   rapid.Bool().Draw(t, "after"),
	}
	p.Subs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) BSub {
		s := BSub{
			Types:  rapid.SliceOfNDistinct(rapid.IntRange(0, 2), 0, 3, rapid.ID[int]).Draw(t, "types"),
			Buffer: rapid.SampledFrom([]int{0, 0, 1, 2, 50}).Draw(t, "subbuffer"),
			Delay:  rapid.SampledFrom([]int{0, 0, 0, 1, 2, p.Timeout / 2, p.Timeout * 2, p.Timeout * 5, -1, -1}).Draw(t, "delay"),
			Twice:  rapid.IntRange(0, 4).Draw(t, "twice") == 0,
		}
		if s.Delay < 0 {
			s.Stall = rapid.IntRange(0, 4).Draw(t, "stall")
		}
		return s
	}), 1, 4).Draw(t, "subs")
	// Sometimes many more subscribe at the start, of either kind.
	crowd := 0
	if rapid.IntRange(0, 3).Draw(t, "crowd") == 0 {
		crowd = rapid.IntRange(1, 12).Draw(t, "crowdsize")
		typed := rapid.IntRange(0, 12).Draw(t, "crowdtyped")
		for i := 0; i < crowd; i++ {
			s := BSub{Buffer: 100}
			if i < typed {
				s.Types = []int{i % 3}
			}
			p.Subs = append(p.Subs, s)
		}
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) BOp {
		o := BOp{Op: rapid.SampledFrom([]string{"sub", "sub", "accept", "accept", "accept", "accept", "unsub", "settle", "sleep"}).Draw(t, "op")}
		switch o.Op {
		case "sub", "unsub":
			o.S = rapid.IntRange(0, len(p.Subs)-1).Draw(t, "s")
		case "accept":
			o.Type = rapid.IntRange(0, 2).Draw(t, "type")
			o.N = rapid.IntRange(1, 3).Draw(t, "n")
		case "sleep":
			o.N = rapid.SampledFrom([]int{1, p.Timeout, p.Timeout * 3}).Draw(t, "ms")
		}
		return o
	}), 2, 30).Draw(t, "ops")
	var first []BOp
	for i := len(p.Subs) - crowd; i < len(p.Subs); i++ {
		first = append(first, BOp{Op: "sub", S: i})
	}
	p.Ops = append(first, p.Ops...)
	return p
}

type bsub struct {
	spec    BSub
	ch      chan *rangedb.Record
	mu      sync.Mutex
	got     []*rangedb.Record
	stopped int
	atStop  int // records taken from or left in the channel when stopped
	types   map[string]bool

	active   bool
	used     bool
	subLow   int // records certainly broadcast before it was subscribed
	subHigh  int // records accepted before it was subscribed
	unsub    bool
	endLow   int
	endHigh  int
	quit     chan struct{}
	finished chan struct{}
}

func (s *bsub) Receiver() broadcast.SendRecordChan { return s.ch }

func (s *bsub) Stop() {
	s.mu.Lock()
	s.stopped++
	s.mu.Unlock()
}

func (s *bsub) consume() {
	defer close(s.finished)
	n := 0
	for {
		if s.spec.Delay < 0 && n >= s.spec.Stall {
			<-s.quit
			return
		}
		select {
		case <-s.quit:
			return
		case r := <-s.ch:
			s.mu.Lock()
			s.got = append(s.got, r)
			s.mu.Unlock()
			n++
			if s.spec.Delay > 0 {
				time.Sleep(time.Duration(s.spec.Delay) * time.Millisecond)
			}
		}
	}
}

func (s *bsub) wants(r *rangedb.Record) bool { return len(s.types) == 0 || s.types[r.AggregateType] }

func runB(c *pbt.C, p BPlan) {
	timeout := time.Duration(p.Timeout) * time.Millisecond
	b := broadcast.New(p.Buffer, timeout)
	var subs []*bsub
	for _, spec := range p.Subs {
		s := &bsub{spec: spec, ch: make(chan *rangedb.Record, spec.Buffer), types: map[string]bool{}, quit: make(chan struct{}), finished: make(chan struct{})}
		for _, t := range spec.Types {
			s.types[btypes[t%3]] = true
		}
		go s.consume()
		subs = append(subs, s)
	}
	names := func(s *bsub) []string {
		var out []string
		for _, t := range s.spec.Types {
			out = append(out, btypes[t%3])
		}
		return out
	}
	var log []*rangedb.Record
	settled := 0
	settle := func() {
		// Long enough for every accepted record to be offered to everybody and taken.
		time.Sleep(time.Duration(len(log)+2) * 6 * timeout * time.Duration(len(subs)+1))
		c.Wait()
		settled = len(log)
	}
	for _, o := range p.Ops {
		switch o.Op {
		case "sub":
			s := subs[o.S%len(subs)]
			if s.used {
				continue
			}
			s.used, s.active = true, true
			s.subLow, s.subHigh = settled, len(log)
			for i := 0; i < 2; i++ {
				if len(s.types) == 0 {
					b.SubscribeAllEvents(s)
				} else {
					b.SubscribeAggregateTypes(s, names(s)...)
				}
				if !s.spec.Twice {
					break
				}
			}
			// While it is subscribed type by type, records already accepted may
			// reach it for some types only: drain them first.
			if len(s.types) > 1 {
				if s.subLow != s.subHigh {
					c.Class("types while busy")
				}
			}
		case "unsub":
			s := subs[o.S%len(subs)]
			if !s.active || s.unsub {
				continue
			}
			s.unsub, s.endLow, s.endHigh = true, settled, len(log)
			if len(s.types) == 0 {
				b.UnsubscribeAllEvents(s)
			} else {
				b.UnsubscribeAggregateTypes(s, names(s)...)
			}
		case "accept":
			for i := 0; i < o.N; i++ {
				r := &rangedb.Record{AggregateType: btypes[o.Type%3], GlobalSequenceNumber: uint64(len(log) + 1)}
				log = append(log, r)
				b.Accept(r)
			}
		case "settle":
			settle()
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
	}
	settle()
	if p.Close {
		b.Close()
		c.Wait()
		if p.After {
			afterClose(c, b, p.Buffer)
		}
	}
	dropped, followed := 0, 0
	for i, s := range subs {
		name := fmt.Sprintf("subscriber %d (types %v, buffer %d, delay %d)", i, s.spec.Types, s.spec.Buffer, s.spec.Delay)
		close(s.quit)
		<-s.finished
		for len(s.ch) > 0 {
			s.got = append(s.got, <-s.ch)
		}
		if !s.used {
			if len(s.got) > 0 || s.stopped > 0 {
				c.Failf("%s never subscribed but got %d records, stopped %d times", name, len(s.got), s.stopped)
			}
			continue
		}
		endLow, endHigh := len(log), len(log)
		if s.unsub {
			endLow, endHigh = s.endLow, s.endHigh
		}
		seen := map[uint64]bool{}
		last := uint64(0)
		for _, r := range s.got {
			g := r.GlobalSequenceNumber
			if seen[g] {
				c.Failf("%s got record %d twice", name, g)
			}
			if g < last {
				c.Failf("%s got record %d after %d", name, g, last)
			}
			seen[g], last = true, g
			if !s.wants(r) {
				c.Failf("%s got record %d of type %q", name, g, r.AggregateType)
			}
			if int(g) <= s.subLow {
				c.Failf("%s got record %d, broadcast before it was subscribed", name, g)
			}
			if int(g) > endHigh {
				c.Failf("%s got record %d, accepted after it was unsubscribed", name, g)
			}
		}
		// What was accepted between its subscription and its end must all be
		// there, up to the record it was dropped at.
		missing := 0
		for _, r := range log[min(s.subHigh, endLow):endLow] {
			if s.wants(r) && !seen[r.GlobalSequenceNumber] {
				missing = int(r.GlobalSequenceNumber)
				break
			}
		}
		slow := s.spec.Delay < 0 || s.spec.Delay >= p.Timeout
		stops := s.stopped
		if p.Close && stops > 0 && missing == 0 {
			stops = 0 // stopped because the broadcaster was closed
		}
		if missing > 0 {
			dropped++
			if s.stopped == 0 {
				c.Failf("%s did not get record %d, and was not stopped", name, missing)
			}
			if !slow {
				c.Failf("%s did not get record %d though it takes every record in time", name, missing)
			}
			for g := range seen {
				if int(g) > missing {
					c.Failf("%s got record %d after missing record %d", name, g, missing)
				}
			}
		} else if stops > 0 && !slow {
			c.Failf("%s was stopped though it takes every record in time", name)
		}
		if p.Close && s.stopped == 0 && !s.unsub {
			c.Failf("%s was not stopped when the broadcaster was closed", name)
		}
		if missing == 0 && len(s.got) > 0 {
			followed++
		}
	}
	if !p.Close {
		b.Close()
	}
	if dropped > 0 {
		c.Class("dropped")
	}
	if dropped > 0 && followed > 0 {
		c.Class("dropped beside a live one")
	}
	if followed > 0 && len(log) > 2 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C13", "feeds", pbt.Opt{Quick: 200000, Thorough: 3000000, Shards: 8, Bubble: true,
		Rule: "a history of up to 30 subscribe, unsubscribe, accept, settle and sleep calls (fake clock) on a broadcaster with any buffer, with up to four subscribers to all events or sets of aggregate types that take records at once, after a delay below or above the timeout, or stall after some records; non-trivial when a subscriber followed to its end while more than two records were broadcast"},
		genB, runB)
}

// afterClose uses a closed broadcaster: no call may block, and nobody may be
// left waiting for records.
func afterClose(c *pbt.C, b broadcast.Broadcaster, buffer int) {
	all := &bsub{ch: make(chan *rangedb.Record)}
	some := &bsub{ch: make(chan *rangedb.Record)}
	done := make(chan struct{})
	go func() {
		defer close(done)
		b.SubscribeAllEvents(all)
		b.SubscribeAggregateTypes(some, btypes...)
		for i := 0; i < buffer+3; i++ {
			b.Accept(&rangedb.Record{AggregateType: btypes[0], GlobalSequenceNumber: uint64(i + 1)})
		}
		b.UnsubscribeAggregateTypes(some, btypes...)
		b.UnsubscribeAllEvents(all)
	}()
	c.Wait()
	select {
	case <-done:
	default:
		c.Failf("a call on a closed broadcaster blocks")
	}
	if all.stopped == 0 || some.stopped == 0 {
		c.Failf("a subscriber of a closed broadcaster was not stopped")
	}
	c.Class("used after close")
}
