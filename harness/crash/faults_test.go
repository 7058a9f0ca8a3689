package crash

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// FOp is one call on a store whose disk may fail.
type FOp struct {
	COp
	Kind string `json:"kind,omitempty"` // what fails: read, write, any; nothing when empty
	At   int    `json:"at,omitempty"`   // the first of the call's file operations that fails
	N    int    `json:"n,omitempty"`    // how many fail from there on
	From uint64 `json:"from,omitempty"`
}

// FPlan is a history of calls with failing file operations.
type FPlan struct {
	MsgPack bool      `json:"mp"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []FOp     `json:"ops"`
}

func genFaults(t *rapid.T) FPlan {
	p := FPlan{MsgPack: rapid.Bool().Draw(t, "mp"), Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
	big := rapid.IntRange(0, 19).Draw(t, "big") == 0
	op := rapid.Custom(func(t *rapid.T) FOp {
		var o FOp
		o.Op = rapid.SampledFrom([]string{"save", "save", "osave", "del", "reopen", "reopen", "total", "all", "types", "stream"}).Draw(t, "op")
		o.A = rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")
		switch o.Op {
		case "save", "osave":
			o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 3).Draw(t, "ev")
			if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
				o.Rep = rapid.IntRange(2, 30).Draw(t, "rep")
			}
			if big && rapid.IntRange(0, 3).Draw(t, "pad") == 0 {
				o.Rep, o.Pad = 3, rapid.IntRange(300, 900).Draw(t, "kb")
			}
		case "all", "types", "stream":
			o.From = uint64(rapid.IntRange(0, 6).Draw(t, "from"))
		}
		if o.Op != "reopen" && rapid.IntRange(0, 2).Draw(t, "faulty") != 0 {
			o.Kind = rapid.SampledFrom([]string{"read", "read", "write", "any"}).Draw(t, "kind")
			o.At = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4, 6}).Draw(t, "at")
			o.N = rapid.SampledFrom([]int{1, 1, 2, 100}).Draw(t, "n")
		}
		return o
	})
	p.Ops = rapid.SliceOfN(op, 2, 14).Draw(t, "ops")
	return p
}

var errDisk = errors.New("input/output error")

// faulter fails file operations of calls of the store: those on table files (the
// library cannot cope with a failing manifest), and not those of its background
// compaction.
type faulter struct {
	mu    sync.Mutex
	op    *FOp
	seen  int
	fired int
}

func (f *faulter) hook(op storage.VerifOp) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.op == nil || f.op.Kind == "" || !strings.HasSuffix(op.File, ".ldb") || op.Op == "remove" {
		return nil
	}
	read := op.Op == "read" || op.Op == "open"
	if (f.op.Kind == "read" && !read) || (f.op.Kind == "write" && read) {
		return nil
	}
	buf := make([]byte, 1<<14)
	if !strings.Contains(string(buf[:runtime.Stack(buf, false)]), "leveldbstore.") {
		return nil
	}
	f.seen++
	if f.seen > f.op.At && f.seen <= f.op.At+f.op.N {
		f.fired++
		return errDisk
	}
	return nil
}

func (f *faulter) set(op *FOp) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.fired
	f.op, f.seen, f.fired = op, 0, 0
	return n
}

func runFaults(c *pbt.C, p FPlan) {
	r := &crasher{c: c, p: CPlan{MsgPack: p.MsgPack, Aggs: p.Aggs}, clock: &kit.Clock{}, rnd: rand.New(rand.NewSource(1)),
		streams: append(kit.Streams(p.Aggs), "no such stream"), types: append(kit.Types(p.Aggs), "no such type")}
	dir := kit.ScratchDir()
	defer os.RemoveAll(dir)
	f := &faulter{}
	storage.SetVerifHook(f.hook)
	defer storage.SetVerifHook(nil)
	s, err := open(dir, p.MsgPack, r.clock)
	if err != nil {
		c.Failf("open: %v", err)
	}
	defer func() { _ = s.Stop() }()
	m := &kit.Model{}
	fired := 0
	for i, o := range p.Ops {
		o := o
		if o.Op == "reopen" {
			if err := s.Stop(); err != nil {
				c.Failf("call %d: close: %v", i, err)
			}
			if s, err = open(dir, p.MsgPack, r.clock); err != nil {
				c.Failf("call %d: open: %v", i, err)
			}
			continue
		}
		f.set(&o)
		err := r.faultyCall(s, m, o, t0+int64(i)*10, f)
		if err != nil {
			c.Failf("call %d (%s): %v", i, o.Op, err)
		}
		n := f.set(nil)
		fired += n
		if n > 0 {
			c.Class("failed-during-" + o.Op)
		}
		if n > 0 || i%3 == 0 {
			if err := kit.CheckStore(m, s, r.streams, r.types); err != nil {
				c.Failf("after call %d (%s), during which %d file operations failed: %v", i, o.Op, n, err)
			}
		}
	}
	if err := s.Stop(); err != nil {
		c.Failf("close: %v", err)
	}
	if s, err = open(dir, p.MsgPack, r.clock); err != nil {
		c.Failf("open: %v", err)
	}
	if err := kit.CheckStore(m, s, r.streams, r.types); err != nil {
		c.Failf("at the end, reopened: %v", err)
	}
	if fired > 0 {
		c.NonTrivial()
	}
}

// faultyCall makes one call; it may fail, but not answer wrong, nor with an
// error that misleads about the state.
func (r *crasher) faultyCall(s rangedb.Store, m *kit.Model, o FOp, ts int64, f *faulter) error {
	ctx := context.Background()
	a := r.p.Aggs[o.A%len(r.p.Aggs)]
	misleads := func(err error, exists bool) error {
		var unexpected *rangedberror.UnexpectedSequenceNumber
		if errors.As(err, &unexpected) {
			return fmt.Errorf("a right expectation is refused: %v", err)
		}
		if exists && errors.Is(err, rangedb.ErrStreamNotFound) {
			return fmt.Errorf("a stream with events is reported as not found")
		}
		return nil
	}
	failed := func(err error, exists bool) error {
		if mis := misleads(err, exists); mis != nil {
			return mis
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		if f.fired == 0 {
			return fmt.Errorf("no file operation failed, yet: %v", err)
		}
		r.c.Class("call-failed")
		return nil
	}
	exists := m.Len(a.Stream) > 0
	var want []*kit.MRec
	var it rangedb.RecordIterator
	switch o.Op {
	case "save", "osave":
		m2 := cloneModel(m)
		err := r.do(s, m2, o.COp, ts)
		if err != nil {
			return failed(errors.Unwrap(err), exists)
		}
		*m = *m2
		return nil
	case "del":
		cur := m.Len(a.Stream)
		err := s.OptimisticDeleteStream(ctx, cur, a.Stream)
		if err == nil && cur == 0 {
			return errors.New("a missing stream is deleted")
		}
		if err == nil {
			m.Delete(a.Stream)
			return nil
		}
		if cur == 0 && errors.Is(err, rangedb.ErrStreamNotFound) {
			return nil
		}
		return failed(err, exists)
	case "total":
		n, err := s.TotalEventsInStream(ctx, a.Stream)
		if err != nil {
			return failed(err, exists)
		}
		if n != m.Len(a.Stream) {
			return fmt.Errorf("%d events are counted in a stream of %d", n, m.Len(a.Stream))
		}
		return nil
	case "all":
		want, it, exists = m.All(o.From), s.Events(ctx, o.From), true
	case "types":
		types := kit.Types(r.p.Aggs)[:1+int(o.From)%len(kit.Types(r.p.Aggs))]
		want, it, exists = m.Types(o.From, types...), s.EventsByAggregateTypes(ctx, o.From, types...), true
	case "stream":
		want, it = m.Stream(a.Stream, o.From), s.EventsByStream(ctx, o.From, a.Stream)
	}
	got, err := kit.Drain(it)
	if err != nil {
		if len(got) > len(want) {
			return fmt.Errorf("%d records read, %d expected", len(got), len(want))
		}
		if err := kit.Same(want[:len(got)], got); err != nil {
			return err
		}
		if !exists && errors.Is(err, rangedb.ErrStreamNotFound) {
			return nil
		}
		return failed(err, exists)
	}
	return kit.Same(want, got)
}

func init() {
	pbt.Reg("C32", "faults", pbt.Opt{Quick: 3000, Thorough: 60000, Shards: 8, Rule: "a history of calls on a LevelDB store during which reads or writes of its table files fail; non-trivial when some file operation of a call did fail"}, genFaults, runFaults)
}
