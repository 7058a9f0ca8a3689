package codec

import (
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/google/uuid"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/jsontools"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// PbPlan is a record carried over gRPC, possibly damaged on the way.
type PbPlan struct {
	Bound bool   `json:"bound"`
	Rec   Rec    `json:"rec"`
	Field string `json:"field,omitempty"` // data or metadata is damaged
	Edits []Edit `json:"edits,omitempty"`
}

func runPb(c *pbt.C, p PbPlan) {
	ident := rangedb.NewEventIdentifier()
	if p.Bound {
		bind(ident)
	}
	orig := p.Rec.record()
	kept := *orig
	m, err := rangedbpb.ToPbRecord(orig)
	if err != nil {
		c.Failf("to protobuf: %v", err)
	}
	if kit.Show(kept) != kit.Show(*orig) {
		c.Failf("the conversion changed the record")
	}
	// Over the wire.  Protobuf strings are UTF-8, as are the generated ones.
	wire, err := proto.Marshal(m)
	if err != nil {
		c.Failf("encoding the message: %v", err)
	}
	back := &rangedbpb.Record{}
	if err := proto.Unmarshal(wire, back); err != nil {
		c.Failf("decoding the message: %v", err)
	}
	switch p.Field {
	case "":
		got, err := rangedbpb.ToRecord(back, ident)
		if err != nil {
			if p.Bound && p.Rec.Data != "plain" && p.Rec.Data != "raw" || !p.Bound {
				c.Failf("from protobuf: %v", err)
			}
			c.Failf("from protobuf (plain data): %v", err)
		}
		if err := p.Rec.same(got, p.Bound); err != nil {
			c.Failf("gRPC record: %v", err)
		}
		if p.Rec.Meta != nil && p.Rec.Val.Kind != "nil" {
			c.NonTrivial()
		}
		return
	case "data":
		back.Data = string(apply([]byte(back.Data), p.Edits))
	default:
		back.Metadata = string(apply([]byte(back.Metadata), p.Edits))
	}
	c.Class("damaged " + p.Field)
	got, err := rangedbpb.ToRecord(back, ident)
	damaged := back.Data
	if p.Field != "data" {
		damaged = back.Metadata
	}
	var first json.RawMessage
	bad := json.NewDecoder(strings.NewReader(damaged)).Decode(&first)
	if err == nil && bad != nil {
		c.Failf("the %s %q cannot be parsed, but a record was returned", p.Field, damaged)
	}
	if (err == nil) != (got != nil) {
		c.Failf("record %v with error %v", got, err)
	}
}

// ErrPlan is a sequence-number conflict reported as text.
type ErrPlan struct {
	Expected uint64 `json:"expected"`
	Actual   uint64 `json:"actual"`
	Prefix   string `json:"prefix"`
	Suffix   string `json:"suffix"`
	Other    string `json:"other,omitempty"` // a text which is no such conflict
}

func runErr(c *pbt.C, p ErrPlan) {
	e := &rangedberror.UnexpectedSequenceNumber{Expected: p.Expected, ActualSequenceNumber: p.Actual}
	got := rangedberror.NewUnexpectedSequenceNumberFromString(p.Prefix + e.Error() + p.Suffix)
	if got == nil || *got != *e {
		c.Failf("%q was read as %v", p.Prefix+e.Error()+p.Suffix, got)
	}
	var as *rangedberror.UnexpectedSequenceNumber
	if !errors.As(fmt.Errorf("wrapped: %w", e), &as) || *as != *e {
		c.Failf("the error is not recognised when wrapped")
	}
	if p.Expected > math.MaxInt32 || p.Actual > math.MaxInt32 || p.Prefix != "" {
		c.NonTrivial()
	}
	if got := rangedberror.NewUnexpectedSequenceNumberFromString(p.Other); got == nil {
		c.Failf("%q was read as a nil error", p.Other)
	} else if !strings.Contains(p.Other, "unexpected sequence number") && (got.Expected != 0 || got.ActualSequenceNumber != 0) {
		c.Failf("%q was read as %v", p.Other, got)
	}
}

// NamePlan is an aggregate, and a text taken for a stream name.
type NamePlan struct {
	Type string `json:"type"`
	ID   string `json:"id"`
	Type2,
	ID2 string
	Text string `json:"text"`
}

type named struct{ ty, id string }

func (n named) AggregateType() string { return n.ty }
func (n named) AggregateID() string   { return n.id }

func runName(c *pbt.C, p NamePlan) {
	// An aggregate type does not contain the separator.
	p.Type, p.Type2 = strings.ReplaceAll(p.Type, "!", ""), strings.ReplaceAll(p.Type2, "!", "")
	name := rangedb.GetStream(p.Type, p.ID)
	if other := rangedb.GetEventStream(named{p.Type, p.ID}); other != name {
		c.Failf("the stream of an event is %q and of its aggregate %q", other, name)
	}
	ty, id := rangedb.ParseStream(name)
	if ty != p.Type || id != p.ID {
		c.Failf("the stream name %q of (%q, %q) was parsed as (%q, %q)", name, p.Type, p.ID, ty, id)
	}
	if (p.Type2 != p.Type || p.ID2 != p.ID) && rangedb.GetStream(p.Type2, p.ID2) == name {
		c.Failf("(%q, %q) and (%q, %q) have the same stream name", p.Type, p.ID, p.Type2, p.ID2)
	}
	rangedb.ParseStream(p.Text)
	if strings.Contains(p.ID, "!") || p.Type2+p.ID2 == p.Type+p.ID {
		c.NonTrivial()
	}
}

// UUIDPlan reads 16 bytes as a short UUID and draws some new ones.
type UUIDPlan struct {
	Bytes []byte `json:"bytes"`
	N     int    `json:"n"`
	JSON  Val    `json:"json"`
	Text  string `json:"text"`
}

func runUUID(c *pbt.C, p UUIDPlan) {
	var u shortuuid.ShortUUID
	copy(u[:], p.Bytes)
	s := u.String()
	if len(s) != 32 || strings.ToLower(s) != s {
		c.Failf("short UUID %q", s)
	}
	back, err := hex.DecodeString(s)
	if err != nil || string(back) != string(u[:]) {
		c.Failf("short UUID %q of %x reads back as %x, %v", s, u[:], back, err)
	}
	if full, err := uuid.Parse(s); err != nil || full != uuid.UUID(u) {
		c.Failf("short UUID %q is read as UUID %v, %v; it is %v", s, full, err, uuid.UUID(u))
	}
	seen := map[string]bool{}
	gen := shortuuid.NewUUIDGenerator()
	for i := 0; i < p.N; i++ {
		id := gen.New()
		if i%2 == 0 {
			id = shortuuid.New().String()
		}
		if seen[id] || len(id) != 32 {
			c.Failf("new short UUID %q, already drawn: %v", id, seen[id])
		}
		seen[id] = true
	}
	// Indented JSON is the same value.
	b, err := json.Marshal(p.JSON.Go())
	if err != nil {
		c.Failf("%v", err)
	}
	if err := kit.SameJSON("indented JSON", json.RawMessage(b), json.RawMessage(jsontools.PrettyJSON(b))); err != nil {
		c.Failf("%v", err)
	}
	jsontools.PrettyJSONString(p.Text)
	c.NonTrivial()
}

// ReadNPlan reads up to N records.
type ReadNPlan struct {
	Recs   int  `json:"recs"`
	N      int  `json:"n"`
	Fail   int  `json:"fail"`
	Late   bool `json:"late,omitempty"`
	Sticky bool `json:"sticky,omitempty"`
	Chan   bool `json:"chan,omitempty"`
}

func runReadN(c *pbt.C, p ReadNPlan) {
	var recs []*rangedb.Record
	for i := 0; i < p.Recs; i++ {
		recs = append(recs, &rangedb.Record{GlobalSequenceNumber: uint64(i + 1)})
	}
	fail := p.Fail
	if fail > p.Recs {
		fail = -1
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancelled := 0
	ended := make(chan struct{})
	got := rangedb.ReadNRecords(uint64(p.N), func() (rangedb.RecordIterator, context.CancelFunc) {
		done := func() { cancelled++; cancel() }
		if !p.Chan {
			close(ended)
			return &listIter{recs: recs, failAt: fail, fails: errSource, late: p.Late, sticky: p.Sticky}, done
		}
		ch := make(chan rangedb.ResultRecord)
		go func() {
			defer close(ended)
			defer close(ch)
			for i, r := range recs {
				if i == fail {
					break
				}
				if !rangedb.PublishRecordOrCancel(ctx, ch, r, 1) {
					return
				}
			}
			if fail >= 0 {
				rangedb.PublishErrorOrCancel(ctx, ch, errSource, 1)
			}
		}()
		return rangedb.NewRecordIterator(ch), done
	})
	want := p.Recs
	if fail >= 0 {
		want = fail
	}
	want = min(want, p.N)
	if len(got) != want {
		c.Failf("%d records returned, expected %d", len(got), want)
	}
	for i, r := range got {
		if r != recs[i] {
			c.Failf("record %d returned in place %d", r.GlobalSequenceNumber, i)
		}
	}
	if cancelled == 0 {
		c.Failf("the read was not cancelled")
	}
	select {
	case <-ended:
	case <-time.After(20 * time.Second):
		c.Failf("the producer of the records was not released")
	}
	if p.N > 0 && p.N < p.Recs {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C28", "protobuf", pbt.Opt{Quick: 40000, Thorough: 1500000, Shards: 6,
		Rule: "a record with any data and metadata converted to a gRPC message, encoded, decoded and converted back, bound or not; or with its data or metadata damaged; non-trivial with data and metadata and no damage"},
		func(t *rapid.T) PbPlan {
			p := PbPlan{Bound: rapid.Bool().Draw(t, "bound"), Rec: genRec().Draw(t, "rec"), Field: rapid.SampledFrom([]string{"", "", "", "data", "metadata"}).Draw(t, "field")}
			if p.Field != "" {
				p.Edits = genEdits(3).Draw(t, "edits")
			}
			return p
		}, runPb)
	num := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 20), rapid.SampledFrom([]uint64{math.MaxUint64, math.MaxInt64, 1 << 63, 1 << 53}))
	pbt.Reg("C28", "conflict", pbt.Opt{Quick: 60000, Thorough: 2000000, Shards: 4,
		Rule: "any two sequence numbers written as an error text, with what a transport puts around it, and read back, and other texts read; non-trivial with large numbers or a prefix"},
		func(t *rapid.T) ErrPlan {
			return ErrPlan{Expected: num.Draw(t, "expected"), Actual: num.Draw(t, "actual"),
				Prefix: rapid.OneOf(rapid.SampledFrom([]string{"", "rpc error: code = FailedPrecondition desc = ", "unable to save to store: ", "12, actual: 3 "}), rapid.String()).Draw(t, "prefix"),
				Suffix: rapid.SampledFrom([]string{"", "\n", " (retry)", ", actual: 9", "\"}"}).Draw(t, "suffix"),
				Other:  rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "unexpected sequence number", "unexpected sequence number:", "unexpected sequence number: 1", "unexpected sequence number: -1, actual: x", "unexpected sequence number: 99999999999999999999999, actual: 1"})).Draw(t, "other")}
		}, runErr)
	pbt.Reg("C28", "streamname", pbt.Opt{Quick: 100000, Thorough: 3000000, Shards: 4,
		Rule: "aggregate types and IDs put together to stream names and taken apart again, and other texts taken apart; non-trivial when the ID contains the separator or two aggregates differ only in where it goes"},
		func(t *rapid.T) NamePlan {
			s := rapid.OneOf(kit.GenText(), rapid.StringOfN(rapid.SampledFrom([]rune("ab!")), 0, 6, -1), rapid.String())
			p := NamePlan{Type: s.Draw(t, "type"), ID: s.Draw(t, "id"), Type2: s.Draw(t, "type2"), ID2: s.Draw(t, "id2"), Text: s.Draw(t, "text")}
			if rapid.Bool().Draw(t, "shift") {
				all := []rune(strings.ReplaceAll(p.Type, "!", "") + p.ID)
				n := rapid.IntRange(0, len(all)).Draw(t, "n")
				p.Type2, p.ID2 = string(all[:n]), string(all[n:])
			}
			return p
		}, runName)
	pbt.Reg("C28", "shortuuid", pbt.Opt{Quick: 20000, Thorough: 1000000, Shards: 4,
		Rule: "any 16 bytes written as a short UUID and read back, up to 40 new ones, and any JSON value indented; every case is non-trivial"},
		func(t *rapid.T) UUIDPlan {
			return UUIDPlan{Bytes: rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "bytes"), N: rapid.IntRange(0, 40).Draw(t, "n"), JSON: genVal(3).Draw(t, "json"), Text: rapid.String().Draw(t, "text")}
		}, runUUID)
	pbt.Reg("C28", "readn", pbt.Opt{Quick: 40000, Thorough: 1000000, Shards: 4,
		Rule: "up to N of some records read from an iterator, which may fail on the way; non-trivial when there are more than N"},
		func(t *rapid.T) ReadNPlan {
			return ReadNPlan{Recs: rapid.IntRange(0, 12).Draw(t, "recs"), N: rapid.IntRange(0, 14).Draw(t, "n"), Fail: rapid.IntRange(-6, 12).Draw(t, "fail"), Late: rapid.Bool().Draw(t, "late"), Sticky: rapid.Bool().Draw(t, "sticky"), Chan: rapid.Bool().Draw(t, "chan")}
		}, runReadN)
}
