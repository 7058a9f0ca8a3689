package app

import (
	"context"
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/rangedbtest/bdd"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// BEv is an event of an aggregate.
type BEv struct {
	A  int        `json:"a"`
	Ev kit.EvSpec `json:"ev"`
}

// BPlan is a test case written with the bdd package, and what the command does.
type BPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Given   []BEv     `json:"given"`
	Raised  []BEv     `json:"raised"`
	Then    []BEv     `json:"then"`
	Inspect bool      `json:"inspect"`
	Batch   bool      `json:"batch"`            // the command saves the events of a stream at once
	Broken  bool      `json:"broken,omitempty"` // after the command, reads fail ...
	After   int       `json:"after,omitempty"`  // ... after so many records
	Late    bool      `json:"late,omitempty"`
}

func genB(t *rapid.T) BPlan {
	p := BPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"), Inspect: rapid.Bool().Draw(t, "inspect"), Batch: rapid.Bool().Draw(t, "batch")}
	p.Aggs = kit.GenAggs(1, 3, false).Draw(t, "aggs")
	ev := rapid.Custom(func(t *rapid.T) BEv {
		return BEv{rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"), kit.GenEv("thing", "other").Draw(t, "ev")}
	})
	p.Given = rapid.SliceOfN(ev, 0, 4).Draw(t, "given")
	p.Raised = rapid.SliceOfN(ev, 0, 4).Draw(t, "raised")
	p.Then = append([]BEv(nil), p.Raised...)
	if p.Broken = rapid.IntRange(0, 7).Draw(t, "broken") == 0; p.Broken {
		p.After, p.Late = rapid.IntRange(0, 3).Draw(t, "after"), rapid.Bool().Draw(t, "late")
	}
	if p.Inspect {
		return p
	}
	for i := rapid.IntRange(0, 2).Draw(t, "changes"); i > 0; i-- {
		k := 0
		if len(p.Then) > 0 {
			k = rapid.IntRange(0, len(p.Then)-1).Draw(t, "at")
		}
		how := rapid.SampledFrom([]string{"drop", "swap", "change", "add", "repeat", "move", "given", "clear", "kind"}).Draw(t, "how")
		switch {
		case how == "add":
			p.Then = append(p.Then, ev.Draw(t, "extra"))
		case how == "given":
			p.Then = append(append([]BEv(nil), p.Given...), p.Then...)
		case how == "clear":
			p.Then = nil
		case len(p.Then) == 0:
		case how == "drop":
			p.Then = append(p.Then[:k:k], p.Then[k+1:]...)
		case how == "swap":
			j := rapid.IntRange(0, len(p.Then)-1).Draw(t, "with")
			p.Then[k], p.Then[j] = p.Then[j], p.Then[k]
		case how == "change":
			p.Then[k].Ev.Text += "x"
		case how == "kind":
			p.Then[k].Ev.Kind = map[string]string{"thing": "other", "other": "thing"}[p.Then[k].Ev.Kind]
		case how == "repeat":
			p.Then = append(p.Then, p.Then[k])
		case how == "move":
			p.Then[k].A = (p.Then[k].A + 1) % len(p.Aggs)
		}
	}
	return p
}

type bcommand struct{ a kit.Agg }

func (c bcommand) AggregateID() string   { return c.a.ID }
func (c bcommand) AggregateType() string { return c.a.Type }
func (c bcommand) CommandType() string   { return "Do" }

// passes runs a test as go test does, and tells whether it passed.
func passes(f func(t *testing.T)) bool {
	return testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "bdd", F: f}})
}

func runB(c *pbt.C, p BPlan) {
	event := func(e BEv, value bool) rangedb.Event {
		s := e.Ev
		if value {
			s.Ptr = false
		}
		return s.Event(p.Aggs[e.A].Type, p.Aggs[e.A].ID)
	}
	stream := func(e BEv) string { return rangedb.GetEventStream(event(e, false)) }
	events := func(es []BEv, value bool) (out []rangedb.Event) {
		for _, e := range es {
			out = append(out, event(e, value))
		}
		return out
	}
	byStream := func(es []BEv) map[string][]rangedb.Event {
		out := map[string][]rangedb.Event{}
		for _, e := range es {
			out[stream(e)] = append(out[stream(e)], event(e, true))
		}
		return out
	}
	raised, then := byStream(p.Raised), byStream(p.Then)
	good := true
	for s, want := range then {
		good = good && reflect.DeepEqual(want, raised[s])
	}
	if len(p.Then) == 0 {
		good = len(p.Raised) == 0
	}
	good = good && !p.Broken
	var failure string
	try := func() (passed bool, took time.Duration) {
		b := kit.Open(p.Backend)
		defer b.Close()
		f := &kit.Faulty{Store: b.Store}
		bad := func(format string, args ...any) {
			if failure == "" {
				failure = fmt.Sprintf(format, args...)
			}
		}
		dispatched := 0
		tc := bdd.New(f, func(cmd bdd.Command) {
			dispatched++
			defer func() {
				if p.Broken {
					f.Set(kit.ErrDisk, p.After, p.Late, nil)
				}
			}()
			if cmd != (bcommand{p.Aggs[0]}) {
				bad("the command dispatched is %v", cmd)
			}
			got, err := kit.Drain(b.Store.Events(context.Background(), 0))
			if err != nil || len(got) != len(p.Given) {
				bad("%d events were given, the command sees %d, %v", len(p.Given), len(got), err)
			} else {
				for i, r := range got {
					e := p.Given[i]
					if r.StreamName != stream(e) || e.Ev.CheckData(p.Aggs[e.A].Type, p.Aggs[e.A].ID, r.Data) != nil {
						bad("event %d the command sees is %v of %q, given was %+v", i, r.Data, r.StreamName, e)
					}
				}
			}
			if p.Batch {
				batches := map[string][]*rangedb.EventRecord{}
				var order []string
				for _, e := range p.Raised {
					if batches[stream(e)] == nil {
						order = append(order, stream(e))
					}
					batches[stream(e)] = append(batches[stream(e)], &rangedb.EventRecord{Event: event(e, false)})
				}
				for _, s := range order {
					if _, err := b.Store.Save(context.Background(), s, batches[s]...); err != nil {
						panic(err)
					}
				}
				return
			}
			for _, e := range p.Raised {
				if _, err := b.Store.Save(context.Background(), stream(e), &rangedb.EventRecord{Event: event(e, false)}); err != nil {
					panic(err)
				}
			}
		}).Given(events(p.Given, false)...).When(bcommand{p.Aggs[0]})
		start := time.Now()
		if p.Inspect {
			called := 0
			passed = passes(tc.ThenInspectEvents(func(t *testing.T, got []rangedb.Event) {
				called++
				if p.Broken {
					return
				}
				seen := map[string][]rangedb.Event{}
				for _, e := range got {
					s := rangedb.GetEventStream(e)
					seen[s] = append(seen[s], e)
				}
				if !reflect.DeepEqual(seen, raised) {
					bad("the events to inspect are %v, raised were %v", seen, raised)
				}
			}))
			if passed && called != 1 {
				bad("the inspection ran %d times", called)
			}
		} else {
			passed = passes(tc.Then(events(p.Then, true)...))
		}
		took = time.Since(start)
		if passed && dispatched != 1 {
			bad("the command was dispatched %d times", dispatched)
		}
		return passed, took
	}
	passed, took := try()
	for i := 0; i < 3 && !passed && good && took > time.Second; i++ { // the helpers have timeouts
		failure = ""
		passed, took = try()
	}
	if failure != "" {
		c.Failf("%s", failure)
	}
	if passed != good && !p.Inspect {
		c.Failf("the test case passed: %v; raised were %v, expected %v, so it should: %v", passed, raised, then, good)
	}
	if p.Inspect && passed == p.Broken {
		if passed {
			c.Failf("events were inspected that could not be read")
		}
		c.Failf("the inspection of events failed")
	}
	if !good {
		c.Class("must fail")
	}
	if len(p.Given) > 0 && len(p.Raised) > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C36", "bdd", pbt.Opt{Quick: 4000, Thorough: 80000, Shards: 8,
		Rule: "a test case of given events, a command that raises events of one to three streams, one by one or a batch per stream, and expected events that are those raised or differ: dropped, added, repeated, swapped, changed, of another stream or type, the given ones too, or none; run as go test runs it. It passes exactly when the events raised on each stream named are the ones expected, or none were raised when none are; an inspection gets what was raised; nothing passes when the events cannot be read; non-trivial when events were given and raised"},
		genB, runB)
}
