package codec

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordiostream"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"github.com/inklabs/rangedb/provider/ndjsonrecordiostream"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

func stream(name string, bound bool) rangedb.RecordIoStream {
	var s rangedb.RecordIoStream
	switch name {
	case "json":
		s = jsonrecordiostream.New()
	case "ndjson":
		s = ndjsonrecordiostream.New()
	default:
		s = msgpackrecordiostream.New()
	}
	if bound {
		bind(s)
	}
	return s
}

// StreamPlan is a sequence of records written to a stream and read back.
type StreamPlan struct {
	Format string `json:"format"`
	Bound  bool   `json:"bound"`
	Recs   []Rec  `json:"recs"`
	Fault  string `json:"fault,omitempty"` // source, source-late, marshal, output, cut, readfail, damage
	At     int    `json:"at,omitempty"`    // record the fault comes at
	Byte   int    `json:"byte,omitempty"`
	Chunk  int    `json:"chunk"` // bytes per read
	Edits  []Edit `json:"edits,omitempty"`
}

var (
	errSource = errors.New("the source failed")
	errOutput = errors.New("the output failed")
	errInput  = errors.New("the input failed")
)

// listIter iterates over records, and may fail.
type listIter struct {
	recs   []*rangedb.Record
	i      int
	failAt int // -1: never
	late   bool
	err    error
	sticky bool // Record keeps returning the last record after the end
	fails  error
}

func (it *listIter) Next() bool {
	if it.err != nil {
		return false
	}
	if it.i == it.failAt {
		it.err = it.fails
		it.i++
		return it.late
	}
	if it.i >= len(it.recs) {
		if !it.sticky {
			it.i = len(it.recs) + 1
		}
		return false
	}
	it.i++
	return true
}

func (it *listIter) NextContext(context.Context) bool { return it.Next() }
func (it *listIter) Err() error                       { return it.err }
func (it *listIter) Record() *rangedb.Record {
	if it.i == 0 || it.i > len(it.recs) || (it.err != nil && !it.sticky) {
		return nil
	}
	return it.recs[it.i-1]
}

// cutWriter fails after some bytes.
type cutWriter struct {
	buf   bytes.Buffer
	limit int
}

func (w *cutWriter) Write(p []byte) (int, error) {
	room := w.limit - w.buf.Len()
	if len(p) <= room {
		return w.buf.Write(p)
	}
	n, _ := w.buf.Write(p[:max(0, room)])
	return n, errOutput
}

// cutReader returns some bytes at a time, and then fails or ends.
type cutReader struct {
	b     []byte
	chunk int
	end   error
}

func (r *cutReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.end
	}
	n := min(len(p), len(r.b), max(1, r.chunk))
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

// writeAll writes records and returns the bytes and the error reported.
func writeAll(s rangedb.RecordIoStream, w io.Writer, it rangedb.RecordIterator) error {
	var first error
	for err := range s.Write(w, it) {
		if first == nil {
			first = err
		}
		if err == nil {
			first = errors.New("a nil error was reported")
		}
	}
	return first
}

func runStream(c *pbt.C, p StreamPlan) {
	var recs []*rangedb.Record
	for i := range p.Recs {
		p.Recs[i].noNumbers()
		recs = append(recs, p.Recs[i].record())
	}
	s := stream(p.Format, p.Bound)
	at := 0
	if len(recs) > 0 {
		at = p.At % (len(recs) + 1)
	}
	// written returns the stream of the first n records.
	written := func(n int) []byte {
		var buf bytes.Buffer
		if err := writeAll(s, &buf, &listIter{recs: recs[:n], failAt: -1}); err != nil {
			c.Failf("%s: writing failed with %v", p.Format, err)
		}
		return buf.Bytes()
	}
	full := written(len(recs))
	// read reads a stream to its end.
	read := func(what string, r io.Reader) ([]*rangedb.Record, error) {
		it := stream(p.Format, p.Bound).Read(r)
		got, err := kit.Drain(it)
		if it.Next() || (err != nil) != (it.Err() != nil) {
			c.Failf("%s, %s: the iterator went on after its end", p.Format, what)
		}
		return got, err
	}
	// expect judges the first n records read.
	expect := func(what string, got []*rangedb.Record, n int) {
		if len(got) != n {
			c.Failf("%s, %s: %d records read of %d", p.Format, what, len(got), n)
		}
		for i, r := range got {
			if err := p.Recs[i].same(r, p.Bound); err != nil {
				c.Failf("%s, %s: record %d: %v", p.Format, what, i, err)
			}
		}
	}
	if len(recs) > 1 {
		c.NonTrivial()
	}
	c.Class("fault:" + p.Fault)
	switch p.Fault {
	case "":
		got, err := read("complete", &cutReader{b: full, chunk: p.Chunk, end: io.EOF})
		if err != nil {
			c.Failf("%s: reading what was written failed with %v", p.Format, err)
		}
		expect("complete", got, len(recs))
	case "source", "source-late", "marshal":
		var buf bytes.Buffer
		it := &listIter{recs: recs, failAt: at, late: p.Fault == "source-late", fails: errSource}
		if p.Fault == "marshal" {
			bad := *(Rec{Data: "raw", Val: Val{Kind: "str"}}).record()
			bad.Data = kit.EvSpec{Kind: "bomb"}.Event("a", "b")
			it = &listIter{recs: append(append([]*rangedb.Record{}, recs[:at]...), &bad), failAt: -1}
		}
		err := writeAll(s, &buf, it)
		if err == nil {
			c.Failf("%s: the source failed at record %d (%s), but writing reported no error", p.Format, at, p.Fault)
		}
		if p.Fault != "marshal" && !errors.Is(err, errSource) {
			c.Failf("%s: the source failed with %v, reported as %v", p.Format, errSource, err)
		}
		if p.Format == "json" {
			got, err := read("source failed", bytes.NewReader(buf.Bytes()))
			expect("source failed", got, at)
			if err == nil && buf.Len() > 0 {
				c.Failf("json: what was written until the source failed reads as complete: %q", buf.String())
			}
		}
	case "output":
		w := &cutWriter{limit: p.Byte % (len(full) + 1)}
		err := writeAll(s, w, &listIter{recs: recs, failAt: -1})
		if w.limit < len(full) && err == nil {
			c.Failf("%s: the output took %d of %d bytes, but writing reported no error", p.Format, w.limit, len(full))
		}
		if w.limit == len(full) && err != nil {
			c.Failf("%s: writing failed with %v", p.Format, err)
		}
	case "cut", "readfail":
		k := p.Byte % (len(full) + 1)
		end := io.EOF
		if p.Fault == "readfail" {
			end = errInput
		}
		got, err := read("cut short", &cutReader{b: full[:k], chunk: p.Chunk, end: end})
		// The records that lie completely in front of the cut.
		n, boundary := 0, k == 0 || k == len(full)
		for i := len(recs); i > 0; i-- {
			size := len(written(i))
			if p.Format == "json" {
				size--
			}
			if size <= k {
				n = i
				boundary = boundary || p.Format != "json" && (k == size || p.Format == "ndjson" && k == size+1)
				break
			}
		}
		if p.Format == "json" {
			boundary = k == 0 || k == len(full)
		}
		if len(got) > n || len(got) < n {
			c.Failf("%s, cut at byte %d of %d: %d records read of the %d before the cut", p.Format, k, len(full), len(got), n)
		}
		expect("cut short", got, n)
		if p.Fault == "readfail" {
			if k < len(full) && err == nil {
				c.Failf("%s: the input failed at byte %d of %d, but reading ended cleanly after %d records", p.Format, k, len(full), n)
			}
		} else if !boundary && err == nil {
			c.Failf("%s: the input ends at byte %d of %d, but reading ended cleanly after %d records", p.Format, k, len(full), n)
		} else if boundary && err != nil && k > 0 {
			c.Failf("%s: the input ends behind record %d, but reading failed with %v", p.Format, n, err)
		}
	case "damage":
		in := apply(full, p.Edits)
		if bytes.Equal(in, full) {
			return
		}
		got, err := read("damaged", &cutReader{b: in, chunk: p.Chunk, end: io.EOF})
		// What lies in front of the first changed byte is read as it was written.
		same := 0
		for same < len(in) && same < len(full) && in[same] == full[same] {
			same++
		}
		n := 0
		for i := 1; i <= len(recs); i++ {
			size := len(written(i))
			if p.Format == "json" {
				size--
			}
			// A number at the end could have been made longer.
			if size < same {
				n = i
			}
		}
		if len(got) < n {
			c.Failf("%s: damaged at byte %d, behind record %d, but %d records were read (%v)", p.Format, same, n, len(got), err)
		}
		expect("damaged", got[:n], n)
		if err == nil {
			if bad := unreadable(p.Format, in, len(got)); bad != nil {
				c.Failf("%s: the input cannot be parsed (%v), but reading ended cleanly after %d records: %q", p.Format, bad, len(got), in)
			}
		} else {
			c.Class("refused")
		}
	}
}

// unreadable is an independent judgement of a JSON input read as n records.
func unreadable(format string, in []byte, n int) error {
	d := json.NewDecoder(bytes.NewReader(in))
	switch format {
	case "json":
		if len(bytes.TrimSpace(in)) == 0 {
			return nil
		}
		var list []json.RawMessage
		if err := d.Decode(&list); err != nil {
			return err
		}
		if len(list) != n {
			return fmt.Errorf("%d values", len(list))
		}
	case "ndjson":
		for i := 0; ; i++ {
			var v json.RawMessage
			err := d.Decode(&v)
			if err == io.EOF {
				if i != n {
					return fmt.Errorf("%d values", i)
				}
				return nil
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

// MergePlan is a set of iterators over the records 1 to N.
type MergePlan struct {
	Owner []int       `json:"owner"`          // the iterator of each record
	Gaps  []bool      `json:"gaps,omitempty"` // a number is left out before the record
	Iters []MergeIter `json:"iters"`
	Ctx   bool        `json:"ctx,omitempty"`
}

type MergeIter struct {
	Kind   string `json:"kind"`             // chan, list, sticky
	Fail   int    `json:"fail"`             // records before it fails, -1: never
	Buffer int    `json:"buffer,omitempty"` // of the channel
	Late   bool   `json:"late,omitempty"`   // the failing call to Next returns true
}

func genMerge(t *rapid.T) MergePlan {
	n := rapid.IntRange(0, 5).Draw(t, "n")
	p := MergePlan{Ctx: rapid.Bool().Draw(t, "ctx")}
	fails := rapid.IntRange(0, 2).Draw(t, "fails") == 0
	for i := 0; i < n; i++ {
		it := MergeIter{Kind: rapid.SampledFrom([]string{"chan", "chan", "list", "sticky"}).Draw(t, "kind"), Fail: -1, Buffer: rapid.IntRange(0, 3).Draw(t, "buffer"), Late: rapid.Bool().Draw(t, "late")}
		if fails && rapid.Bool().Draw(t, "this") {
			it.Fail = rapid.IntRange(0, 6).Draw(t, "fail")
		}
		p.Iters = append(p.Iters, it)
	}
	if n > 0 {
		p.Owner = rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 40).Draw(t, "owner")
		p.Gaps = rapid.SliceOfN(rapid.Bool(), 0, len(p.Owner)).Draw(t, "gaps")
	}
	return p
}

func runMerge(c *pbt.C, p MergePlan) {
	lists := make([][]*rangedb.Record, len(p.Iters))
	var all []*rangedb.Record
	owner := map[uint64]int{}
	g := uint64(0)
	for i, o := range p.Owner {
		if len(p.Iters) == 0 {
			break
		}
		o %= len(p.Iters)
		g++
		if i < len(p.Gaps) && p.Gaps[i] {
			g += uint64(i%3 + 1)
		}
		r := &rangedb.Record{GlobalSequenceNumber: g, StreamName: fmt.Sprint(o)}
		owner[g] = o
		lists[o] = append(lists[o], r)
		all = append(all, r)
	}
	var its []rangedb.RecordIterator
	failing := map[error]int{}
	failAt := map[int]int{}
	for i, spec := range p.Iters {
		err := fmt.Errorf("iterator %d failed", i)
		if spec.Fail >= 0 {
			failing[err] = i
			failAt[i] = min(spec.Fail, len(lists[i]))
		}
		if spec.Kind == "chan" {
			ch := make(chan rangedb.ResultRecord, spec.Buffer)
			recs := lists[i]
			go func() {
				defer close(ch)
				for k, r := range recs {
					if k == spec.Fail {
						break
					}
					ch <- rangedb.ResultRecord{Record: r}
				}
				if spec.Fail >= 0 {
					ch <- rangedb.ResultRecord{Err: err}
				}
			}()
			its = append(its, rangedb.NewRecordIterator(ch))
		} else {
			fail := spec.Fail
			if fail > len(lists[i]) {
				fail = len(lists[i])
			}
			its = append(its, &listIter{recs: lists[i], failAt: fail, fails: err, late: spec.Late, sticky: spec.Kind == "sticky"})
		}
	}
	it := rangedb.MergeRecordIteratorsInOrder(its)
	next := it.Next
	if p.Ctx {
		next = func() bool { return it.NextContext(context.Background()) }
	}
	var got []*rangedb.Record
	for next() {
		if it.Err() != nil {
			break
		}
		got = append(got, it.Record())
		if len(got) > len(all) {
			c.Failf("%d records merged of %d", len(got), len(all))
		}
	}
	err := it.Err()
	for i, r := range got {
		if r != all[i] {
			c.Failf("record %d of the merge is %d of iterator %s, expected %d of iterator %s", i, r.GlobalSequenceNumber, r.StreamName, all[i].GlobalSequenceNumber, all[i].StreamName)
		}
	}
	if len(failing) == 0 {
		if err != nil {
			c.Failf("the merge failed with %v though no iterator did", err)
		}
		if len(got) != len(all) {
			c.Failf("%d records merged of %d", len(got), len(all))
		}
		if len(p.Iters) > 1 && len(all) > 2 {
			c.NonTrivial()
		}
	} else {
		if err == nil {
			c.Failf("the merge ended without an error after %d of %d records, though an iterator failed", len(got), len(all))
		}
		if _, ok := failing[err]; !ok {
			c.Failf("the merge failed with %v, the iterators with %v", err, failing)
		}
		// Nothing follows what a failing iterator did not deliver.
		for i, n := range failAt {
			if n < len(lists[i]) && len(got) > 0 && got[len(got)-1].GlobalSequenceNumber >= lists[i][n].GlobalSequenceNumber {
				c.Failf("the merge went on to record %d past record %d, which iterator %d failed to deliver", got[len(got)-1].GlobalSequenceNumber, lists[i][n].GlobalSequenceNumber, i)
			}
		}
		c.Class("failed")
		if len(p.Iters) > 1 && len(got) > 0 {
			c.NonTrivial()
		}
	}
	for k := 0; k < 3; k++ {
		if next() {
			c.Failf("the merge went on after its end")
		}
		if it.Err() != err {
			c.Failf("the merge ended with %v, and then reports %v", err, it.Err())
		}
	}
}

func init() {
	pbt.Reg("C15", "streams", pbt.Opt{Quick: 60000, Thorough: 2000000, Shards: 8,
		Rule: "up to five records written to a JSON, NDJSON or MessagePack stream and read back in chunks of any size, complete or with one fault: the source failing at any record, a record that cannot be encoded, the output failing at any byte, the input ending or failing at any byte, or bytes damaged; non-trivial with at least two records"},
		func(t *rapid.T) StreamPlan {
			p := StreamPlan{
				Format: rapid.SampledFrom([]string{"json", "ndjson", "msgpack"}).Draw(t, "format"),
				Bound:  rapid.Bool().Draw(t, "bound"),
				Recs:   rapid.SliceOfN(genRec(), 0, 5).Draw(t, "recs"),
				Fault:  rapid.SampledFrom([]string{"", "source", "source-late", "marshal", "output", "cut", "cut", "cut", "readfail", "damage", "damage"}).Draw(t, "fault"),
				At:     rapid.IntRange(0, 5).Draw(t, "at"),
				Byte:   rapid.IntRange(0, 1<<20).Draw(t, "byte"),
				Chunk:  rapid.SampledFrom([]int{1, 2, 7, 512, 1 << 20}).Draw(t, "chunk"),
			}
			if p.Fault == "damage" {
				p.Edits = genEdits(3).Draw(t, "edits")
			}
			return p
		}, runStream)
	pbt.Reg("C16", "merge", pbt.Opt{Quick: 200000, Thorough: 8000000, Shards: 6,
		Rule: "up to 40 records with gaps in their numbers spread over up to five iterators of three kinds, some failing after a chosen number of records; non-trivial when more than two records of several iterators were merged, or one failed after records had been merged"},
		genMerge, runMerge)
}
