package crypto

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/cryptotest"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// Note is an event about a subject other than its aggregate, encrypting
// itself as generated events do.
type Note struct {
	AID     string
	Subject string
	Text    string
	Public  string
}

func (e Note) AggregateID() string   { return e.AID }
func (e Note) AggregateType() string { return "customer" }
func (e Note) EventType() string     { return "Note" }
func (e *Note) Encrypt(encryptor crypto.Encryptor) error {
	x, err := encryptor.Encrypt(e.Subject, e.Text)
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Text = ""
		}
		return err
	}
	e.Text = x
	return nil
}
func (e *Note) Decrypt(encryptor crypto.Encryptor) error {
	x, err := encryptor.Decrypt(e.Subject, e.Text)
	if err != nil {
		if err == crypto.ErrKeyWasDeleted {
			e.Text = ""
		}
		return err
	}
	e.Text = x
	return nil
}

// Open is an event without personal data.
type Open struct{ AID, Text string }

func (e Open) AggregateID() string   { return e.AID }
func (e Open) AggregateType() string { return "customer" }
func (e Open) EventType() string     { return "Open" }

// SEvent describes one event.
type SEvent struct {
	Kind    string `json:"k"` // signed, birth, note, open
	Ptr     bool   `json:"p,omitempty"`
	Subject int    `json:"s"` // of a note
	Text    string `json:"t,omitempty"`
	N       int    `json:"n,omitempty"`
}

// SOp is one step.
type SOp struct {
	Op     string   `json:"op"` // save, forget, del, read, join, rejoin
	A      int      `json:"a"`  // aggregate, or subject to forget
	Ev     []SEvent `json:"ev,omitempty"`
	Expect int      `json:"x,omitempty"` // 0 plain, 1 right, 2 wrong and then right with the same events, 3 wrong
	How    int      `json:"h,omitempty"`
	From   uint64   `json:"from,omitempty"`
	Twice  bool     `json:"2,omitempty"`
	Ctx    int      `json:"ctx,omitempty"` // 1: read with contexts, 2: the last one is cancelled
}

// SPlan is a history on an encrypted store.
type SPlan struct {
	Inner  string `json:"inner"`
	Engine string `json:"engine"`
	Ops    []SOp  `json:"ops"`
}

const aggregates = 3

func genSPlan(t *rapid.T) SPlan {
	p := SPlan{
		Inner:  rapid.SampledFrom([]string{"mem", "mem", "memmp", "ldb", "ldbmp", "remote"}).Draw(t, "inner"),
		Engine: rapid.SampledFrom([]string{"gcm", "xchacha", "cbc"}).Draw(t, "engine"),
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SOp {
		o := SOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "forget", "read", "read", "join", "del", "outage"}).Draw(t, "op"), A: rapid.IntRange(0, aggregates-1).Draw(t, "a")}
		switch o.Op {
		case "save":
			o.Expect = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "expect")
			o.Ev = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) SEvent {
				return SEvent{
					Kind:    rapid.SampledFrom([]string{"signed", "signed", "birth", "note", "note", "open"}).Draw(t, "kind"),
					Ptr:     rapid.Bool().Draw(t, "ptr"),
					Subject: rapid.IntRange(0, aggregates-1).Draw(t, "subject"),
					Text:    kit.GenText().Draw(t, "text"),
					N:       rapid.IntRange(0, 99).Draw(t, "n"),
				}
			}), 1, 4).Draw(t, "ev")
		case "read", "join", "outage":
			o.How = rapid.IntRange(0, 2).Draw(t, "how")
			o.From = uint64(rapid.IntRange(0, 8).Draw(t, "from"))
			o.Twice = rapid.Bool().Draw(t, "twice")
			o.Ctx = rapid.IntRange(0, 2).Draw(t, "ctx")
		}
		return o
	}), 3, 16).Draw(t, "ops")
	return p
}

func init() {
	pbt.Reg("C23", "histories", pbt.Opt{Quick: 900, Thorough: 30000, Shards: 6, Race: true,
		Rule: "a case is a history of saves, retries, reads, subscriptions and forgotten subjects on an encrypted store, beside raw reads and subscriptions of the store inside; non-trivial when personal data was saved and read back"},
		genSPlan, runSecrets)
}

// saved is the model of one saved event.
type saved struct {
	spec    SEvent
	agg     int
	marker  string
	subject int // -1: no personal data
	gsn     uint64
	ssn     uint64
	deleted bool
}

func subjectName(i int) string { return []string{"ann", "bob", "cy"}[i] }

// the personal number of an event, long enough not to occur by chance
func number(e *saved) int { return 700000000 + e.spec.N*1000000 + int(e.markerN()) }

func (e *saved) markerN() int64 {
	var n int64
	fmt.Sscanf(e.marker, "personal-%d-", &n)
	return n
}

func (e *saved) clear() rangedb.Event {
	id := subjectName(e.agg)
	switch e.spec.Kind {
	case "signed":
		ev := cryptotest.CustomerSignedUp{ID: id, Name: e.marker + e.spec.Text, Email: e.spec.Text, Status: "status " + e.spec.Text}
		if e.spec.Ptr {
			return &ev
		}
		return ev
	case "birth":
		ev := cryptotest.CustomerAddedBirth{ID: id, BirthMonth: e.spec.N - 50, BirthYear: number(e)}
		if e.spec.Ptr {
			return &ev
		}
		return ev
	case "note":
		ev := Note{AID: id, Subject: subjectName(e.spec.Subject), Text: e.marker + e.spec.Text, Public: "public " + e.spec.Text}
		if e.spec.Ptr {
			return &ev
		}
		return ev
	}
	ev := Open{AID: id, Text: e.spec.Text}
	if e.spec.Ptr {
		return &ev
	}
	return ev
}

// leaked says whether text has personal data of the event in clear.
func (e *saved) leaked(text string) bool {
	if e.subject < 0 {
		return false
	}
	return strings.Contains(text, e.marker) || e.spec.Kind == "birth" && strings.Contains(text, fmt.Sprint(number(e)))
}

// judge compares what a decrypting read or subscription delivers with what was saved.
func (e *saved) judge(r *rangedb.Record, forgotten bool) error {
	if r == nil {
		return fmt.Errorf("no record for event %d", e.gsn)
	}
	if r.GlobalSequenceNumber != e.gsn || r.StreamSequenceNumber != e.ssn || r.AggregateID != subjectName(e.agg) {
		return fmt.Errorf("record %d/%d of %s, not event %d/%d of %s", r.GlobalSequenceNumber, r.StreamSequenceNumber, r.AggregateID, e.gsn, e.ssn, subjectName(e.agg))
	}
	got, err := json.Marshal(r.Data)
	if err != nil {
		return err
	}
	if !forgotten || e.subject < 0 {
		want, _ := json.Marshal(e.clear())
		if string(got) != string(want) {
			return fmt.Errorf("event %d is %s, saved %s", e.gsn, got, want)
		}
		return nil
	}
	if e.leaked(string(got)) {
		return fmt.Errorf("event %d of a forgotten subject still gives %s", e.gsn, got)
	}
	switch x := r.Data.(type) {
	case *cryptotest.CustomerSignedUp:
		if x.Name != "" || x.Email != "" || x.Status != "status "+e.spec.Text || x.ID != subjectName(e.agg) {
			return fmt.Errorf("event %d of a forgotten subject is %s", e.gsn, got)
		}
	case *cryptotest.CustomerAddedBirth:
		if x.BirthMonth != 0 || x.BirthYear != 0 || x.ID != subjectName(e.agg) {
			return fmt.Errorf("event %d of a forgotten subject is %s", e.gsn, got)
		}
	case *Note:
		if x.Text != "" || x.Public != "public "+e.spec.Text || x.Subject != subjectName(e.spec.Subject) {
			return fmt.Errorf("event %d of a forgotten subject is %s", e.gsn, got)
		}
	default:
		return fmt.Errorf("event %d is a %T", e.gsn, r.Data)
	}
	return nil
}

// feed is a subscription.
type feed struct {
	mu     sync.Mutex
	got    []*rangedb.Record
	texts  []string // the data as delivered
	raw    bool
	from   uint64 // first event wanted
	judged int
	forgot int // for how many of them the subject had been forgotten
}

func (f *feed) Accept(r *rangedb.Record) {
	b, _ := json.Marshal(r.Data)
	f.mu.Lock()
	f.got = append(f.got, r)
	f.texts = append(f.texts, string(b))
	f.mu.Unlock()
}

func (f *feed) count() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.got) }

func openInner(c *pbt.C, name string) (rangedb.Store, string, func()) {
	var ser rangedb.RecordSerializer = jsonrecordserializer.New()
	if strings.HasSuffix(name, "mp") {
		ser = msgpackrecordserializer.New()
	}
	switch name {
	case "mem", "memmp":
		return inmemorystore.New(inmemorystore.WithSerializer(ser)), "", func() {}
	case "remote":
		s, stop := kit.Remote(inmemorystore.New())
		return s, "", stop
	}
	dir := kit.ScratchDir()
	s, err := leveldbstore.New(dir, leveldbstore.WithSerializer(ser))
	if err != nil {
		c.Failf("%v", err)
	}
	var once sync.Once
	return s, dir, func() { once.Do(func() { _ = s.Stop() }) }
}

func runSecrets(c *pbt.C, p SPlan) {
	ctx, cancel := context.WithCancel(context.Background())
	inner, dir, stop := openInner(c, p.Inner)
	c.Cleanup(func() {
		cancel()
		stop()
		if dir != "" {
			_ = os.RemoveAll(dir)
		}
	})
	c.Class("inner " + p.Inner)
	keyFaults := &faults{}
	keys := &flaky{KeyStore: inmemorykeystore.New(), f: keyFaults}
	store := encryptedstore.New(inner, eventencryptor.New(keys, engine(p.Engine)))
	store.Bind(&cryptotest.CustomerSignedUp{}, &cryptotest.CustomerAddedBirth{}, &Note{}, &Open{})

	var log []*saved
	forgotten := map[int]bool{}
	var gsn uint64
	markers := 0
	var feeds []*feed
	join := func(raw bool, how int, from uint64) {
		f := &feed{raw: raw, from: gsn + 1}
		s := rangedb.Store(store)
		if raw {
			s = inner
		}
		var sub rangedb.RecordSubscription
		if how == 2 {
			sub = s.AggregateTypesSubscription(ctx, 1000, f, "customer", "other")
		} else {
			sub = s.AllEventsSubscription(ctx, 1000, f)
		}
		var err error
		if how == 1 {
			err = sub.Start()
		} else {
			f.from = from
			err = sub.StartFrom(from)
		}
		if err != nil {
			c.Failf("cannot subscribe: %v", err)
		}
		for _, e := range log {
			if e.gsn >= f.from && !e.deleted && e.subject >= 0 && forgotten[e.subject] {
				f.forgot++
			}
		}
		feeds = append(feeds, f)
	}
	// settle waits for every feed to have what it is owed, and judges it.
	settle := func() {
		deadline := time.Now().Add(60 * time.Second)
		for i, f := range feeds {
			var want []*saved
			for _, e := range log {
				if e.gsn >= f.from {
					want = append(want, e)
				}
			}
			// Events deleted before the feed began are not owed; they are left out below.
			for f.count() < len(want) {
				if time.Now().After(deadline) {
					c.Failf("feed %d (raw %v) got %d of %d events", i, f.raw, f.count(), len(want))
				}
				time.Sleep(100 * time.Microsecond)
			}
			f.mu.Lock()
			if len(f.got) > len(want) {
				c.Failf("feed %d (raw %v) got %d events, %d were saved", i, f.raw, len(f.got), len(want))
			}
			for ; f.judged < len(want); f.judged++ {
				e := want[f.judged]
				if f.raw {
					if e.leaked(f.texts[f.judged]) {
						c.Failf("a subscriber of the store inside gets event %d in clear: %s", e.gsn, f.texts[f.judged])
					}
				} else if err := e.judge(f.got[f.judged], forgotten[e.subject]); err != nil {
					c.Failf("feed %d: %v", i, err)
				}
			}
			f.mu.Unlock()
		}
	}
	join(true, 1, 0)
	join(false, 1, 0)
	join(false, 1, 0)

	stream := func(a int) string { return "customer!" + subjectName(a) }
	live := func(a int) (n uint64) {
		for _, e := range log {
			if e.agg == a && !e.deleted {
				n++
			}
		}
		return n
	}
	for i, o := range p.Ops {
		switch o.Op {
		case "save":
			var batch []*saved
			var records []*rangedb.EventRecord
			blocked := false
			n := live(o.A)
			for _, spec := range o.Ev {
				markers++
				e := &saved{spec: spec, agg: o.A, subject: -1, marker: fmt.Sprintf("personal-%d-", markers), ssn: n + uint64(len(batch)) + 1, gsn: gsn + uint64(len(batch)) + 1}
				switch spec.Kind {
				case "signed", "birth":
					e.subject = o.A
				case "note":
					e.subject = spec.Subject
				}
				blocked = blocked || e.subject >= 0 && forgotten[e.subject]
				batch = append(batch, e)
				records = append(records, &rangedb.EventRecord{Event: e.clear(), Metadata: "meta"})
			}
			var last uint64
			var err error
			switch o.Expect {
			case 0:
				last, err = store.Save(ctx, stream(o.A), records...)
			case 2, 3:
				if _, err := store.OptimisticSave(ctx, n+7, stream(o.A), records...); err == nil {
					c.Failf("op %d: a wrong expectation is accepted", i)
				}
				c.Class("retry")
				if o.Expect == 3 {
					// Judged below: nothing of it may show up.
					settle()
					continue
				}
				last, err = store.OptimisticSave(ctx, n, stream(o.A), records...)
			default:
				last, err = store.OptimisticSave(ctx, n, stream(o.A), records...)
			}
			if blocked {
				if err == nil {
					c.Failf("op %d: an event of a forgotten subject is accepted", i)
				}
				c.Class("blocked")
				break
			}
			if err != nil {
				c.Failf("op %d: save: %v", i, err)
			}
			if want := n + uint64(len(batch)); last != want {
				c.Failf("op %d: save gives %d, want %d", i, last, want)
			}
			gsn += uint64(len(batch))
			log = append(log, batch...)
		case "forget":
			settle()
			if err := keys.Delete(subjectName(o.A)); err != nil {
				c.Failf("%v", err)
			}
			forgotten[o.A] = true
			c.Class("forget")
		case "del":
			settle()
			if n := live(o.A); n > 0 {
				if err := store.OptimisticDeleteStream(ctx, n, stream(o.A)); err != nil {
					c.Failf("op %d: delete: %v", i, err)
				}
				for _, e := range log {
					if e.agg == o.A {
						e.deleted = true
					}
				}
			}
		case "read":
			readSecrets(c, ctx, store, inner, log, forgotten, o, i)
		case "outage":
			// From some key access on, the key store fails.
			settle()
			down := make([]string, 300)
			for i := range down {
				if i >= int(o.From)%5 {
					down[i] = "net before"
				}
			}
			keyFaults.set(down...)
			readDuringOutage(c, ctx, store, log, forgotten, o, i)
			if keyFaults.count() > 0 {
				c.Class("read during an outage")
			}
			keyFaults.set()
			// Keys that were never there are not keys that were deleted.
			stranger := encryptedstore.New(inner, eventencryptor.New(inmemorykeystore.New(), engine(p.Engine)))
			readDuringOutage(c, ctx, stranger, log, nil, o, i)
			for j := range down[:3] {
				down[j] = ""
				if j >= int(o.From)%3 {
					down[j] = "net before"
				}
			}
			keyFaults.set(down...)
			markers++
			e := &saved{spec: SEvent{Kind: "note", Ptr: o.Twice, Subject: o.A}, agg: o.A, subject: o.A, marker: fmt.Sprintf("personal-%d-", markers)}
			if _, err := store.Save(ctx, stream(o.A), &rangedb.EventRecord{Event: &Open{AID: subjectName(o.A)}}, &rangedb.EventRecord{Event: e.clear()}, &rangedb.EventRecord{Event: e.clear()}, &rangedb.EventRecord{Event: e.clear()}); err == nil {
				c.Failf("op %d: events are saved although they cannot be encrypted", i)
			}
			keyFaults.set()
		case "join":
			settle()
			// A feed that begins in the past is only owed what is still there.
			from := o.From
			for _, e := range log {
				if e.deleted && e.gsn >= from {
					from = e.gsn + 1
				}
			}
			join(false, o.How, from)
		}
		settle()
	}
	for how := 0; how < 3; how++ {
		for a := 0; a < aggregates; a++ {
			readSecrets(c, ctx, store, inner, log, forgotten, SOp{How: how, A: a, Twice: true}, len(p.Ops))
		}
	}
	if n, err := store.TotalEventsInStream(ctx, stream(0)); err != nil || n != live(0) {
		c.Failf("%d events counted (%v), want %d", n, err, live(0))
	}
	// What the inner subscriber holds must not have been decrypted behind its back.
	for _, f := range feeds {
		if !f.raw {
			continue
		}
		f.mu.Lock()
		for _, r := range f.got {
			b, _ := json.Marshal(r.Data)
			for _, e := range log {
				if e.leaked(string(b)) {
					c.Failf("a record of the store inside shows event %d in clear later on: %s", e.gsn, b)
				}
			}
		}
		f.mu.Unlock()
	}
	if dir != "" {
		stop()
		_ = filepath.Walk(dir, func(f string, info os.FileInfo, err error) error {
			if err == nil && !info.IsDir() {
				b, _ := os.ReadFile(f)
				for n := 1; n <= markers; n++ {
					if bytes.Contains(b, []byte(fmt.Sprintf("personal-%d-", n))) {
						c.Failf("file %s holds personal data in clear", filepath.Base(f))
					}
				}
			}
			return nil
		})
	}
}

// readDuringOutage reads while keys cannot be fetched: what is delivered without an
// error is right, and the read does not look complete when it is not.
func readDuringOutage(c *pbt.C, ctx context.Context, store rangedb.Store, log []*saved, forgotten map[int]bool, o SOp, i int) {
	var want []*saved
	for _, e := range log {
		if !e.deleted && (o.How != 2 || e.agg == o.A) {
			want = append(want, e)
		}
	}
	var it rangedb.RecordIterator
	switch o.How {
	case 0:
		it = store.Events(ctx, 0)
	case 1:
		it = store.EventsByAggregateTypes(ctx, 0, "customer")
	default:
		it = store.EventsByStream(ctx, 0, "customer!"+subjectName(o.A))
	}
	n := 0
	for it.Next() {
		r := it.Record()
		if it.Err() != nil {
			break
		}
		if n >= len(want) {
			c.Failf("op %d: more than the %d events there are", i, len(want))
		}
		if err := want[n].judge(r, forgotten[want[n].subject]); err != nil {
			c.Failf("op %d: while keys cannot be fetched: %v", i, err)
		}
		n++
	}
	if it.Err() == nil && n < len(want) {
		c.Failf("op %d: the read ends without an error after %d of %d events", i, n, len(want))
	}
}

func readSecrets(c *pbt.C, ctx context.Context, store, inner rangedb.Store, log []*saved, forgotten map[int]bool, o SOp, i int) {
	var want []*saved
	for _, e := range log {
		if e.deleted || o.How == 2 && e.agg != o.A {
			continue
		}
		pos := e.gsn
		if o.How == 2 {
			pos = e.ssn
		}
		if pos >= o.From {
			want = append(want, e)
		}
	}
	ctx, stop := context.WithCancel(ctx)
	defer stop() // a read that is left unfinished holds the store
	read := func(s rangedb.Store) rangedb.RecordIterator {
		switch o.How {
		case 0:
			return s.Events(ctx, o.From)
		case 1:
			return s.EventsByAggregateTypes(ctx, o.From, "customer")
		}
		return s.EventsByStream(ctx, o.From, "customer!"+subjectName(o.A))
	}
	empty := o.How == 2
	for _, e := range log {
		if e.agg == o.A && !e.deleted {
			empty = false
		}
	}
	it := read(store)
	next := it.Next
	if o.Ctx > 0 {
		next = func() bool {
			ctx, stop := context.WithCancel(ctx)
			defer stop()
			return it.NextContext(ctx)
		}
	}
	for n, e := range want {
		if o.Ctx == 2 && n == len(want)/2 {
			cut, stop := context.WithCancel(ctx)
			stop()
			if !it.NextContext(cut) {
				if it.Err() == nil {
					c.Failf("op %d: the read looks complete when it is cut off after %d of %d events", i, n, len(want))
				}
				if it.Record() != nil {
					c.Failf("op %d: there is a record although the read was cut off", i)
				}
				c.Class("cut off")
				return
			}
		} else if !next() {
			c.Failf("op %d: the read ends before event %d of %d: %v", i, e.gsn, len(want), it.Err())
		}
		r := it.Record()
		if it.Err() != nil {
			c.Failf("op %d: reading event %d fails: %v", i, e.gsn, it.Err())
		}
		if o.Twice {
			if again := it.Record(); it.Err() != nil || again == nil {
				c.Failf("op %d: asking for event %d again fails: %v", i, e.gsn, it.Err())
			} else {
				r = again
			}
		}
		if err := e.judge(r, forgotten[e.subject]); err != nil {
			c.Failf("op %d: %v", i, err)
		}
		if e.subject >= 0 {
			c.NonTrivial()
			if forgotten[e.subject] {
				c.Class("read of a forgotten subject")
			}
		}
	}
	if next() {
		c.Failf("op %d: the read goes on after %d events", i, len(want))
	}
	if err := it.Err(); err != nil && !(empty && err == rangedb.ErrStreamNotFound) {
		c.Failf("op %d: the read ends with %v", i, err)
	}
	it = read(inner)
	for n := 0; it.Next(); n++ {
		b, _ := json.Marshal(it.Record())
		for _, e := range want {
			if e.leaked(string(b)) {
				c.Failf("op %d: the store inside holds event %d in clear: %s", i, e.gsn, b)
			}
		}
		if x, ok := it.Record().Data.(*cryptotest.CustomerAddedBirth); ok && (x.BirthMonth != 0 || x.BirthYear != 0) {
			c.Failf("op %d: the store inside holds a birth in clear: %s", i, b)
		}
	}
}
