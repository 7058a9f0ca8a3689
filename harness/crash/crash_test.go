package crash

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// COp is one step of the history that is going to crash.
type COp struct {
	Op  string       `json:"op"` // save, osave, del, reopen
	A   int          `json:"a"`
	Ev  []kit.EvSpec `json:"ev,omitempty"`
	Rep int          `json:"rep,omitempty"`
	Pad int          `json:"pad,omitempty"` // kilobytes added to each event
	Bad string       `json:"bad,omitempty"` // a call that must fail: exp, bomb, type
}

// CPlan is a history and how it crashes.
type CPlan struct {
	MsgPack bool      `json:"mp"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []COp     `json:"ops"`
	Power   bool      `json:"power"` // unsynced data may be lost
	Watch   bool      `json:"watch"`
	Points  int       `json:"points"` // how many crash points are tried, of those there are
	Again   int       `json:"again"`  // of those, how many crash again while recovering
	Seed    int64     `json:"seed"`   // which, and how much of the unsynced data survives
}

func genPlan(power bool) func(t *rapid.T) CPlan {
	return func(t *rapid.T) CPlan {
		p := CPlan{
			MsgPack: rapid.Bool().Draw(t, "mp"),
			Aggs:    kit.GenAggs(1, 3, rapid.Bool().Draw(t, "wild")).Draw(t, "aggs"),
			Power:   power,
			Watch:   rapid.IntRange(0, 2).Draw(t, "watch") == 0,
			Points:  rapid.SampledFrom([]int{40, 40, 400}).Draw(t, "points"),
			Again:   rapid.IntRange(0, 3).Draw(t, "again"),
			Seed:    int64(rapid.Uint32().Draw(t, "seed")),
		}
		big := rapid.IntRange(0, 19).Draw(t, "big") == 0
		op := rapid.Custom(func(t *rapid.T) COp {
			o := COp{Op: rapid.SampledFrom([]string{"save", "save", "save", "osave", "del", "reopen"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
			switch o.Op {
			case "save", "osave":
				o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 4).Draw(t, "ev")
				if rapid.IntRange(0, 5).Draw(t, "isbad") == 0 {
					o.Bad = rapid.SampledFrom([]string{"exp", "bomb", "type"}).Draw(t, "bad")
				}
				if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
					o.Rep = rapid.IntRange(2, 30).Draw(t, "rep")
				}
				if big && rapid.IntRange(0, 3).Draw(t, "pad") == 0 {
					o.Rep, o.Pad = 3, rapid.IntRange(300, 900).Draw(t, "kb")
				}
			case "del":
				if rapid.IntRange(0, 5).Draw(t, "isbad") == 0 {
					o.Bad = "exp"
				}
			}
			return o
		})
		p.Ops = rapid.SliceOfN(op, 1, 12).Draw(t, "ops")
		if big && len(p.Ops) > 6 {
			p.Ops = p.Ops[:6]
		}
		if big {
			p.Points = 12
		}
		return p
	}
}

// recorder notes the file operations on one database directory.
type recorder struct {
	mu   sync.Mutex
	dir  string
	log  []storage.VerifOp
	slow bool
}

func (r *recorder) hook(op storage.VerifOp) error {
	if (filepath.Dir(op.File) != r.dir && op.File != r.dir) || op.Op == "read" || op.Op == "open" {
		return nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	op.File = filepath.Base(op.File)
	if op.To != "" {
		op.To = filepath.Base(op.To)
	}
	op.Data = append([]byte(nil), op.Data...)
	r.log = append(r.log, op)
	if r.slow && strings.HasPrefix(op.File, "MANIFEST") && op.Op == "write" {
		// Whoever is told of events before they are committed gets to show it.
		time.Sleep(time.Millisecond)
	}
	return nil
}

func (r *recorder) len() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.log) }

// disk is the simulated content of a database directory.
type disk map[string]*file

type file struct {
	data   []byte
	synced int
}

// unsyncedManifest, set to show the known findings, tries their crashes too.
var unsyncedManifest = os.Getenv("PBT_KNOWN") != ""

func (d disk) clone() disk {
	out := disk{}
	for n, f := range d {
		out[n] = &file{append([]byte(nil), f.data...), f.synced}
	}
	return out
}

func (d disk) apply(op storage.VerifOp) {
	if strings.HasPrefix(op.File, "CURRENT") && op.File != "CURRENT.bak" && !unsyncedManifest {
		// The leveldb library of this version switches to a new manifest it has
		// not synced (the known finding of this property); except in the check of
		// that finding, what a manifest starts with counts as synced from here on.
		for n, f := range d {
			if strings.HasPrefix(n, "MANIFEST") {
				f.synced = len(f.data)
			}
		}
	}
	switch op.Op {
	case "create":
		d[op.File] = &file{}
	case "write":
		if f := d[op.File]; f != nil {
			f.data = append(f.data, op.Data...)
		}
	case "sync":
		if f := d[op.File]; f != nil {
			f.synced = len(f.data)
		}
	case "remove":
		delete(d, op.File)
	case "rename":
		if f := d[op.File]; f != nil {
			delete(d, op.File)
			d[op.To] = f
		}
	}
}

// write puts the disk as a crash leaves it into a fresh directory.
func (d disk) write(power bool, rnd *rand.Rand) string {
	dir := kit.ScratchDir()
	for n, f := range d {
		data := f.data
		if power && f.synced < len(data) {
			lost := len(data) - f.synced
			switch rnd.Intn(3) {
			case 0:
				data = data[:f.synced]
			case 1:
				data = data[:f.synced+rnd.Intn(lost+1)]
			}
		}
		if err := os.WriteFile(filepath.Join(dir, n), data, 0o644); err != nil {
			panic(err)
		}
	}
	return dir
}

func open(dir string, mp bool, clock *kit.Clock) (*leveldbstoreT, error) {
	opts := []leveldbstore.Option{leveldbstore.WithClock(clock)}
	if mp {
		opts = append(opts, leveldbstore.WithSerializer(msgpackrecordserializer.New()))
	}
	s, err := leveldbstore.New(dir, opts...)
	if err != nil {
		return nil, err
	}
	kit.Bind(s)
	return &leveldbstoreT{s, s.Stop}, nil
}

type leveldbstoreT struct {
	rangedb.Store
	Stop func() error
}

func cloneModel(m *kit.Model) *kit.Model {
	out := *m
	out.Recs = append([]*kit.MRec(nil), m.Recs...)
	return &out
}

type told struct {
	gsn uint64
	pos int
}

type crasher struct {
	c       *pbt.C
	p       CPlan
	streams []string
	types   []string
	clock   *kit.Clock
	rnd     *rand.Rand
}

const t0 = 1_600_000_000

func padded(sp kit.EvSpec, kb int) kit.EvSpec {
	if kb > 0 {
		sp.Kind = "other"
		sp.Text += strings.Repeat("0123456789abcdef", kb*64)
	}
	return sp
}

// do performs one call; the model is changed when the call must succeed.
func (r *crasher) do(s rangedb.Store, m *kit.Model, o COp, ts int64) error {
	ctx := context.Background()
	a := r.p.Aggs[o.A%len(r.p.Aggs)]
	cur := m.Len(a.Stream)
	r.clock.Set(ts)
	switch o.Op {
	case "save", "osave":
		specs := o.Ev
		for k := 1; k < o.Rep; k++ {
			specs = append(specs[:len(specs):len(specs)], o.Ev...)
		}
		var recs []*rangedb.EventRecord
		var saved []kit.EvSpec
		for i, sp := range specs {
			sp = padded(sp, o.Pad)
			saved = append(saved, sp)
			t := a.Type
			if i == len(specs)-1 && o.Bad == "bomb" {
				sp.Kind = "bomb"
			}
			if i == len(specs)-1 && o.Bad == "type" && len(specs) > 1 {
				t += "x"
			}
			recs = append(recs, sp.Record(t, a.ID))
		}
		bad := o.Bad == "bomb" || (o.Bad == "type" && len(specs) > 1)
		var n uint64
		var err error
		if o.Op == "osave" {
			exp := cur
			if o.Bad == "exp" {
				exp, bad = cur+1, true
			}
			n, err = s.OptimisticSave(ctx, exp, a.Stream, recs...)
		} else {
			n, err = s.Save(ctx, a.Stream, recs...)
		}
		if bad {
			if err == nil {
				return fmt.Errorf("a save that must fail (%s) succeeded", o.Bad)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("save: %w", err)
		}
		m.Append(a.Stream, a.Type, a.ID, uint64(ts), saved)
		if n != m.Len(a.Stream) {
			return fmt.Errorf("save returned %d, the stream has %d events", n, m.Len(a.Stream))
		}
	case "del":
		exp := cur
		if o.Bad == "exp" {
			exp++
		}
		err := s.OptimisticDeleteStream(ctx, exp, a.Stream)
		if cur == 0 || o.Bad == "exp" {
			if err == nil {
				return errors.New("a deletion that must fail succeeded")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("delete: %v", err)
		}
		m.Delete(a.Stream)
	}
	return nil
}

// cut is a call of the history with the file operations around it.
type cut struct {
	start, end int
	after      *kit.Model
}

func runCrash(c *pbt.C, p CPlan) {
	r := &crasher{c: c, p: p, clock: &kit.Clock{}, rnd: rand.New(rand.NewSource(p.Seed)),
		streams: append(kit.Streams(p.Aggs), "no such stream", "after"), types: append(kit.Types(p.Aggs), "no such type", "after")}
	dir := kit.ScratchDir()
	defer os.RemoveAll(dir)
	log, cuts, heard := r.history(dir, p.Ops, &kit.Model{}, p.Watch)
	c.Class(fmt.Sprintf("file-operations<%d", (len(log)/50+1)*50))

	// Which crash points are tried.
	var points []int
	for k := created(log); k <= len(log); k++ {
		if k > 0 && !p.Power && (log[k-1].Op == "sync" || log[k-1].Op == "syncdir") {
			continue // the same as the point before
		}
		points = append(points, k)
	}
	if len(points) > p.Points {
		r.rnd.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
		points = points[:p.Points]
	}
	again := map[int]bool{}
	for i := 0; i < p.Again; i++ {
		again[points[r.rnd.Intn(len(points))]] = true
	}
	wanted := map[int]bool{}
	for _, k := range points {
		wanted[k] = true
	}

	d := disk{}
	inside := 0
	for k := 0; k <= len(log); k++ {
		if k > 0 {
			d.apply(log[k-1])
		}
		if !wanted[k] {
			continue
		}
		st := d
		what := fmt.Sprintf("after file operation %d of %d (%s)", k, len(log), describe(log, k))
		if k < len(log) && log[k].Op == "write" && len(log[k].Data) > 1 && r.rnd.Intn(3) == 0 {
			// In the middle of a write.
			st = d.clone()
			part := log[k]
			part.Data = part.Data[:1+r.rnd.Intn(len(part.Data)-1)]
			st.apply(part)
			what += fmt.Sprintf(" and %d bytes of the next write", len(part.Data))
		}
		before, after, in := around(cuts, k)
		if in {
			inside++
			c.Class("inside-a-call")
		} else {
			c.Class("between-calls")
		}
		var must uint64
		for _, h := range heard {
			if h.pos <= k && h.gsn > must {
				must = h.gsn
			}
		}
		if err := r.recover(st, before, after, must, again[k]); err != nil {
			c.Failf("crash %s, %s: %v", map[bool]string{true: "with power loss", false: "of the process"}[p.Power], what, err)
		}
	}
	if inside > 0 {
		c.NonTrivial()
	}
}

// created is the first crash point at which the database exists. A crash while it
// is being created can leave a directory the library refuses to open (a known
// finding).
func created(log []storage.VerifOp) int {
	if unsyncedManifest {
		return 0
	}
	for k, op := range log {
		if op.Op == "rename" && op.To == "CURRENT" {
			return k + 1
		}
	}
	return len(log)
}

func describe(log []storage.VerifOp, k int) string {
	if k == 0 {
		return "nothing done"
	}
	op := log[k-1]
	return fmt.Sprintf("%s %s %s", op.Op, op.File, op.To)
}

// around returns the states that may be found after a crash at point k.
func around(cuts []cut, k int) (before, after *kit.Model, in bool) {
	before = cuts[0].after
	for _, u := range cuts[1:] {
		if u.end <= k {
			before = u.after
			continue
		}
		if u.start < k {
			return before, u.after, true
		}
		break
	}
	return before, before, false
}

// history runs calls against the real store, recording its file operations. The
// first cut is the state the history starts from.
func (r *crasher) history(dir string, ops []COp, m *kit.Model, watch bool) ([]storage.VerifOp, []cut, []told) {
	rec := &recorder{dir: dir, slow: watch}
	storage.SetVerifHook(rec.hook)
	defer func() { storage.SetVerifHook(nil) }()
	s, err := open(dir, r.p.MsgPack, r.clock)
	if err != nil {
		r.c.Failf("open: %v", err)
	}
	cuts := []cut{{after: cloneModel(m)}}
	var mu sync.Mutex
	var heard []told
	var live *kit.Live
	listen := func() {
		if watch {
			live = kit.WatchWith(s.Store, func(rec2 *rangedb.Record) {
				mu.Lock()
				heard = append(heard, told{rec2.GlobalSequenceNumber, rec.len()})
				mu.Unlock()
			})
		}
	}
	hush := func() {
		if live != nil {
			live.Stop()
		}
	}
	listen()
	for i, o := range ops {
		u := cut{start: rec.len()}
		if o.Op == "reopen" {
			hush()
			if err := s.Stop(); err != nil {
				r.c.Failf("call %d: close: %v", i, err)
			}
			if s, err = open(dir, r.p.MsgPack, r.clock); err != nil {
				r.c.Failf("call %d: open: %v", i, err)
			}
			listen()
		} else if err := r.do(s, m, o, t0+int64(i)*10); err != nil {
			_ = s.Stop()
			r.c.Failf("call %d (%s): %v", i, o.Op, err)
		}
		u.end = rec.len()
		u.after = cloneModel(m)
		cuts = append(cuts, u)
	}
	hush()
	if err := s.Stop(); err != nil {
		r.c.Failf("close: %v", err)
	}
	// A record may still be on its way to the listener.
	mu.Lock()
	said := append([]told(nil), heard...)
	mu.Unlock()
	rec.mu.Lock()
	defer rec.mu.Unlock()
	return rec.log, cuts, said
}

// recover opens what a crash left and judges it.
func (r *crasher) recover(d disk, before, after *kit.Model, must uint64, again bool) error {
	dir := d.write(r.p.Power, r.rnd)
	defer os.RemoveAll(dir)
	var rec *recorder
	var base disk
	if again {
		base = disk{}
		names, _ := os.ReadDir(dir)
		for _, e := range names {
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				panic(err)
			}
			base[e.Name()] = &file{b, len(b)}
		}
		rec = &recorder{dir: dir}
		storage.SetVerifHook(rec.hook)
		defer func() { storage.SetVerifHook(nil) }()
	}
	s, err := open(dir, r.p.MsgPack, r.clock)
	if err != nil {
		return fmt.Errorf("reopening fails: %v", err)
	}
	m, err := r.judge(s, before, after, must)
	if err != nil {
		_ = s.Stop()
		return err
	}
	// Life goes on.
	cuts := []cut{{after: cloneModel(m)}}
	next := []COp{
		{Op: "save", A: r.rnd.Intn(len(r.p.Aggs)), Ev: []kit.EvSpec{{Kind: "thing", Text: "after"}, {Kind: "other"}}},
		{Op: "del", A: r.rnd.Intn(len(r.p.Aggs))},
		{Op: "osave", A: r.rnd.Intn(len(r.p.Aggs)), Ev: []kit.EvSpec{{Kind: "thing", Num: 7}}},
	}
	if !again {
		next = next[:1]
	}
	for i, o := range next {
		u := cut{}
		if rec != nil {
			u.start = rec.len()
		}
		if err := r.do(s, m, o, t0+1000+int64(i)); err != nil {
			_ = s.Stop()
			return fmt.Errorf("after recovery: %v", err)
		}
		if rec != nil {
			u.end = rec.len()
		}
		u.after = cloneModel(m)
		cuts = append(cuts, u)
	}
	if err := kit.CheckStore(m, s, r.streams, r.types); err != nil {
		_ = s.Stop()
		return fmt.Errorf("after recovery and a save: %v", err)
	}
	if err := s.Stop(); err != nil {
		return fmt.Errorf("close after recovery: %v", err)
	}
	if !again {
		return nil
	}
	storage.SetVerifHook(nil)
	// Crash while recovering.
	rec.mu.Lock()
	log := rec.log
	rec.mu.Unlock()
	r.c.Class("crash-in-recovery")
	k := r.rnd.Intn(len(log) + 1)
	for _, op := range log[:k] {
		base.apply(op)
	}
	before2, after2, _ := around(cuts, k)
	if err := r.recover(base, before2, after2, 0, false); err != nil {
		return fmt.Errorf("then a second crash after file operation %d (%s): %v", k, describe(log, k), err)
	}
	return nil
}

// judge says which of the two permitted states a store is in.
func (r *crasher) judge(s rangedb.Store, before, after *kit.Model, must uint64) (*kit.Model, error) {
	check := func(m *kit.Model) error {
		if must > 0 && m.GSN < must {
			return fmt.Errorf("a live subscriber had been sent event %d", must)
		}
		return kit.CheckStore(m, s, r.streams, r.types)
	}
	err := check(before)
	if err == nil {
		r.c.Class("interrupted-call-undone")
		return cloneModel(before), nil
	}
	if after == before {
		return nil, err
	}
	if err2 := check(after); err2 != nil {
		return nil, fmt.Errorf("neither the state before the interrupted call (%v) nor the one after it (%v)", err, err2)
	}
	r.c.Class("interrupted-call-complete")
	return cloneModel(after), nil
}

const rule = "one history of saves, deletions and reopenings of a LevelDB store, then a crash at each of many points between (or within) its file operations; non-trivial when some crash falls inside a call. "

func init() {
	pbt.Reg("C10", "kill", pbt.Opt{Quick: 160, Thorough: 4000, Shards: 4, Rule: rule + "The process is killed: the files hold what was written so far."}, genPlan(false), runCrash)
	pbt.Reg("C10", "powerloss", pbt.Opt{Quick: 160, Thorough: 4000, Shards: 4, Rule: rule + "Power is lost: of what was written after the last sync of a file an arbitrary part is lost."}, genPlan(true), runCrash)
}
