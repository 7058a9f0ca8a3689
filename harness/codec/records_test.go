package codec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// Rich is a bound event with fields of many kinds.
type Rich struct {
	ID      string            `json:"id"`
	At      time.Time         `json:"at"`
	I8      int8              `json:"i8"`
	I64     int64             `json:"i64"`
	U64     uint64            `json:"u64"`
	F64     float64           `json:"f64"`
	Flag    bool              `json:"flag"`
	Text    string            `json:"text"`
	Opt     *string           `json:"opt,omitempty"`
	List    []int64           `json:"list"`
	Strs    []string          `json:"strs"`
	Map     map[string]uint64 `json:"map"`
	Nested  []RichPart        `json:"nested"`
	Blob    []byte            `json:"blob"`
	Hidden  string            `json:"-"`
	Renamed string            `json:"re named"`
	RichBase
}

type RichPart struct {
	Name string    `json:"name"`
	Part *RichPart `json:"part"`
}

type RichBase struct {
	BaseText string `json:"baseText"`
}

func (r Rich) AggregateID() string   { return r.ID }
func (r Rich) AggregateType() string { return "rich" }
func (r Rich) EventType() string     { return "Rich" }

// Val is a plain JSON-like value.
type Val struct {
	Kind string  `json:"k"` // nil, bool, int, uint, num, float, str, list, map
	I    int64   `json:"i,omitempty"`
	U    uint64  `json:"u,omitempty"`
	F    float64 `json:"f,omitempty"`
	S    string  `json:"s,omitempty"`
	L    []Val   `json:"l,omitempty"`
}

func genVal(depth int) *rapid.Generator[Val] {
	return rapid.Custom(func(t *rapid.T) Val {
		kinds := []string{"nil", "bool", "int", "uint", "num", "float", "str", "str"}
		if depth > 0 {
			kinds = append(kinds, "list", "map", "map")
		}
		v := Val{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch v.Kind {
		case "bool", "int", "num":
			v.I = rapid.OneOf(rapid.Int64(), rapid.Int64Range(-2, 300)).Draw(t, "i")
		case "uint":
			v.U = rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 127, 128, 255, 256, 65535, 65536, math.MaxUint64, 1 << 63})).Draw(t, "u")
		case "float":
			v.F = rapid.OneOf(rapid.Float64Range(-1e6, 1e6), rapid.SampledFrom([]float64{0, 0.1, 1e300, -5e-324, 1 << 53, 3})).Draw(t, "f")
		case "str":
			v.S = genStr().Draw(t, "s")
		case "list", "map":
			v.L = rapid.SliceOfN(genVal(depth-1), 0, 4).Draw(t, "l")
			v.S = genStr().Draw(t, "key")
		}
		return v
	})
}

// Go returns the Go value.
func (v Val) Go() any {
	switch v.Kind {
	case "bool":
		return v.I%2 == 0
	case "int":
		return v.I
	case "uint":
		return v.U
	case "num":
		return json.Number(fmt.Sprint(v.I))
	case "float":
		return v.F
	case "str":
		return v.S
	case "list":
		l := []any{}
		for _, x := range v.L {
			l = append(l, x.Go())
		}
		return l
	case "map":
		m := map[string]any{}
		for i, x := range v.L {
			m[fmt.Sprintf("%s%d", v.S, i)] = x.Go()
		}
		return m
	}
	return nil
}

func genStr() *rapid.Generator[string] {
	return rapid.OneOf(kit.GenText(), rapid.StringN(0, 12, -1), rapid.Custom(func(t *rapid.T) string {
		return string(bytes.Repeat([]byte("x"), rapid.SampledFrom([]int{31, 32, 255, 256, 65535, 65536}).Draw(t, "n")))
	}))
}

// Rec describes a record.
type Rec struct {
	Stream string `json:"st"`
	Type   string `json:"ty"`
	ID     string `json:"id"`
	GSN    uint64 `json:"g"`
	SSN    uint64 `json:"s"`
	TS     uint64 `json:"t"`
	EvID   string `json:"ei"`
	EvType string `json:"et"`
	Data   string `json:"d"` // rich, richval, thing, plain, raw
	Val    Val    `json:"v"`
	Text   string `json:"x"`
	Meta   *Val   `json:"m,omitempty"`
}

func genRec() *rapid.Generator[Rec] {
	num := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 300), rapid.SampledFrom([]uint64{1 << 53, 1<<53 + 1, math.MaxUint64, math.MaxInt64, 1 << 63}))
	short := rapid.OneOf(kit.GenText(), rapid.StringN(0, 8, -1))
	return rapid.Custom(func(t *rapid.T) Rec {
		r := Rec{
			Stream: short.Draw(t, "stream"), Type: short.Draw(t, "type"), ID: short.Draw(t, "id"),
			GSN: num.Draw(t, "gsn"), SSN: num.Draw(t, "ssn"), TS: num.Draw(t, "ts"),
			EvID: short.Draw(t, "evid"),
			Data: rapid.SampledFrom([]string{"rich", "rich", "richval", "thing", "plain", "plain", "raw"}).Draw(t, "data"),
			Text: genStr().Draw(t, "text"),
		}
		r.Val = genVal(3).Draw(t, "val")
		switch r.Data {
		case "rich", "richval":
			r.EvType = "Rich"
		case "thing":
			r.EvType = "Thing"
		default:
			r.EvType = rapid.SampledFrom([]string{"Plain", "", "é"}).Draw(t, "evtype")
		}
		if rapid.Bool().Draw(t, "hasmeta") {
			v := genVal(2).Draw(t, "meta")
			r.Meta = &v
		}
		return r
	})
}

func (r Rec) rich() *Rich {
	n := int64(r.GSN ^ r.SSN)
	e := &Rich{ID: r.ID, At: time.Unix(int64(r.TS%(1<<33)), int64(r.SSN%1e9)).UTC(), I8: int8(n), I64: n, U64: r.GSN, F64: r.Val.F, Flag: n%2 == 0, Text: r.Text, Renamed: r.EvID, RichBase: RichBase{BaseText: r.Stream}}
	if n%3 == 0 {
		e.Opt = &r.Type
	}
	for i, v := range r.Val.L {
		e.List = append(e.List, v.I)
		e.Strs = append(e.Strs, v.S)
		if e.Map == nil {
			e.Map = map[string]uint64{}
		}
		e.Map[fmt.Sprint(v.S, i)] = v.U
		e.Nested = append(e.Nested, RichPart{Name: v.S, Part: &RichPart{Name: v.Kind}})
		e.Blob = append(e.Blob, byte(v.I), byte(v.U))
	}
	return e
}

func (r Rec) data() any {
	switch r.Data {
	case "rich":
		return r.rich()
	case "richval":
		return *r.rich()
	case "thing":
		return kit.EvSpec{Kind: "thing", Ptr: true, Num: r.Val.I, Text: r.Text, Deep: int(r.GSN % 3)}.Event(r.Type, r.ID)
	case "raw":
		return rangedb.NewRawEvent(r.Type, r.ID, r.EvType, r.Val.Go())
	}
	return r.Val.Go()
}

func (r Rec) record() *rangedb.Record {
	rec := &rangedb.Record{StreamName: r.Stream, AggregateType: r.Type, AggregateID: r.ID, GlobalSequenceNumber: r.GSN, StreamSequenceNumber: r.SSN,
		InsertTimestamp: r.TS, EventID: r.EvID, EventType: r.EvType, Data: r.data()}
	if r.Meta != nil {
		rec.Metadata = r.Meta.Go()
	}
	return rec
}

// same judges a record read back.  With bound false no event type was bound.
func (r Rec) same(got *rangedb.Record, bound bool) error {
	if got == nil {
		return fmt.Errorf("no record")
	}
	want := r.record()
	a, b := *want, *got
	a.Data, b.Data, a.Metadata, b.Metadata = nil, nil, nil, nil
	if !reflect.DeepEqual(a, b) {
		return fmt.Errorf("record is %+v, was %+v", b, a)
	}
	if r.Meta == nil && got.Metadata != nil {
		return fmt.Errorf("metadata is %s, there was none", kit.Show(got.Metadata))
	}
	if err := kit.SameJSON("metadata", want.Metadata, got.Metadata); err != nil {
		return err
	}
	if bound && (r.Data == "rich" || r.Data == "richval") {
		e := r.rich()
		g, ok := got.Data.(*Rich)
		if !ok {
			return fmt.Errorf("data is a %T, bound as *Rich", got.Data)
		}
		if !g.At.Equal(e.At) {
			return fmt.Errorf("time is %v, was %v", g.At, e.At)
		}
		c := *g
		c.At = e.At
		if !reflect.DeepEqual(&c, e) {
			return fmt.Errorf("data is %+v, was %+v", c, *e)
		}
		return nil
	}
	if bound && r.Data == "thing" {
		if !reflect.DeepEqual(got.Data, r.data()) {
			return fmt.Errorf("data is %s, was %s", kit.Show(got.Data), kit.Show(r.data()))
		}
		return nil
	}
	if r.Data == "rich" || r.Data == "richval" {
		// The time is written in the format's own way.
		var w, g map[string]any
		if err := plain(r.rich(), &w); err != nil {
			return err
		}
		if err := plain(got.Data, &g); err != nil {
			return err
		}
		delete(w, "at")
		delete(g, "at")
		return kit.SameJSON("data", w, g)
	}
	return kit.SameJSON("data", r.data(), got.Data)
}

func plain(v any, out *map[string]any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("data cannot be encoded: %v", err)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(out)
}

func bind(b rangedb.EventBinder) {
	kit.Bind(b)
	b.Bind(&Rich{})
}

func serializer(name string, bound bool) rangedb.RecordSerializer {
	var s rangedb.RecordSerializer = jsonrecordserializer.New()
	if name == "msgpack" {
		s = msgpackrecordserializer.New()
	}
	if bound {
		bind(s)
	}
	return s
}

// RoundPlan is one record written and read back.
type RoundPlan struct {
	Format string `json:"format"`
	Bound  bool   `json:"bound"`
	Rec    Rec    `json:"rec"`
	Hops   int    `json:"hops,omitempty"` // further round trips, formats alternating
}

// noNumbers replaces JSON numbers, which MessagePack writes as text, by integers.
func (r *Rec) noNumbers() {
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.Kind == "num" {
			v.Kind = "int"
		}
		for i := range v.L {
			walk(&v.L[i])
		}
	}
	walk(&r.Val)
	if r.Meta != nil {
		walk(r.Meta)
	}
}

func (r Rec) empty() bool { return (r.Data == "plain" || r.Data == "raw") && r.Val.Kind == "nil" }

func runRound(c *pbt.C, p RoundPlan) {
	format := p.Format
	if format == "msgpack" {
		p.Rec.noNumbers()
	}
	rec := p.Rec.record()
	for hop := 0; hop <= p.Hops; hop++ {
		s := serializer(format, p.Bound)
		b, err := s.Serialize(rec)
		if format == "json" && err != nil && p.Rec.empty() {
			c.Class("refused without data")
			return
		}
		if err != nil {
			c.Failf("%s: %v", format, err)
		}
		before := append([]byte(nil), b...)
		got, err := s.Deserialize(b)
		if err != nil {
			c.Failf("%s: reading back %s: %v", format, kit.Show(rec), err)
		}
		if err := p.Rec.same(got, p.Bound); err != nil {
			c.Failf("%s (round trip %d): %v", format, hop+1, err)
		}
		if !bytes.Equal(before, b) {
			c.Failf("%s: reading changed the serialized record", format)
		}
		if r, ok := p.Rec.data().(*Rich); ok && hop == 0 {
			_ = r
			c.Class("rich")
		}
		rec = got
		if format == "json" {
			// Bound data survives; plain data and metadata do not.
			if p.Bound && p.Rec.Meta == nil && p.Rec.Data != "plain" && p.Rec.Data != "raw" {
				format = "msgpack"
				continue
			}
			break // numbers of plain data are json.Numbers now, which MessagePack writes as text
		}
		format = map[string]string{"json": "msgpack", "msgpack": "json"}[format]
		if !p.Bound && (p.Rec.Data == "rich" || p.Rec.Data == "richval" || p.Rec.Data == "thing") {
			break // a time and bytes are no plain data for the other format
		}
	}
	if p.Rec.Val.Kind == "map" || p.Rec.Val.Kind == "list" || p.Rec.Meta != nil {
		c.NonTrivial()
	}
}

// MangledPlan is a serialized record that was damaged.
type MangledPlan struct {
	Format string `json:"format"`
	Bound  bool   `json:"bound"`
	Rec    *Rec   `json:"rec,omitempty"`
	Edits  []Edit `json:"edits"`
	Raw    []byte `json:"raw,omitempty"`
}

// Edit changes bytes.
type Edit struct {
	At   int    `json:"at"`
	Cut  int    `json:"cut,omitempty"`
	Put  []byte `json:"put,omitempty"`
	Flip byte   `json:"flip,omitempty"`
}

func genEdits(n int) *rapid.Generator[[]Edit] {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Edit {
		e := Edit{At: rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 2000)).Draw(t, "at")}
		switch rapid.IntRange(0, 3).Draw(t, "what") {
		case 0:
			e.Cut = rapid.IntRange(1, 30).Draw(t, "cut")
		case 1:
			e.Put = rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 1, 6),
				rapid.SampledFrom([][]byte{{0xc0}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0x7f, 0xff, 0xff, 0xff}, {0xc6, 0xff, 0xff, 0xff, 0xff}, {0xdb, 0xff, 0xff, 0xff, 0xff}, {0xc1}, {0x91}, {0xd4, 0xff, 0}, []byte("null"), []byte("]"), []byte("}"), []byte("{"), []byte("["), []byte(`"`), []byte(","), []byte("\\u12"), []byte("1e999"), []byte("-")})).Draw(t, "put")
			if rapid.Bool().Draw(t, "replace") {
				e.Cut = len(e.Put)
			}
		case 2:
			e.Flip = rapid.Byte().Draw(t, "flip")
		default:
			e.Cut = 1 << 20
		}
		return e
	}), 1, n)
}

func apply(b []byte, edits []Edit) []byte {
	b = append([]byte(nil), b...)
	for _, e := range edits {
		if len(b) == 0 {
			return append(b, e.Put...)
		}
		at := e.At % len(b)
		if e.Flip != 0 {
			b[at] ^= e.Flip
			continue
		}
		end := min(len(b), at+e.Cut)
		b = append(append(append([]byte(nil), b[:at]...), e.Put...), b[end:]...)
	}
	return b
}

func runMangled(c *pbt.C, p MangledPlan) {
	s := serializer(p.Format, p.Bound)
	in := p.Raw
	if p.Rec != nil {
		if p.Rec.empty() {
			p.Rec.Val = Val{Kind: "str"}
		}
		b, err := s.Serialize(p.Rec.record())
		if err != nil {
			c.Failf("%v", err)
		}
		in = apply(b, p.Edits)
		if !bytes.Equal(in, b) {
			c.NonTrivial()
		}
	}
	rec, err := s.Deserialize(in)
	if err == nil && rec == nil {
		c.Failf("%s: neither a record nor an error for %q", p.Format, in)
	}
	if err != nil {
		c.Class("refused")
		return
	}
	c.Class("decoded")
	// What was decoded can be used like any record.
	_, _ = s.Serialize(rec)
}

func init() {
	formats := rapid.SampledFrom([]string{"json", "msgpack"})
	pbt.Reg("C14", "roundtrip", pbt.Opt{Quick: 80000, Thorough: 2000000, Shards: 6,
		Rule: "a record with arbitrary text and numbers, data of a bound struct type with fields of many kinds or arbitrary plain data, and arbitrary plain metadata, written and read back in one format, and again in the other; non-trivial when data or metadata is structured"},
		func(t *rapid.T) RoundPlan {
			return RoundPlan{Format: formats.Draw(t, "format"), Bound: rapid.Bool().Draw(t, "bound"), Rec: genRec().Draw(t, "rec"), Hops: rapid.IntRange(0, 2).Draw(t, "hops")}
		}, runRound)
	pbt.Reg("C14", "mangled", pbt.Opt{Quick: 80000, Thorough: 4000000, Shards: 6,
		Rule: "a serialized record with bytes cut, inserted, replaced or flipped, or arbitrary bytes; non-trivial when the bytes differ from the serialized record's"},
		func(t *rapid.T) MangledPlan {
			p := MangledPlan{Format: formats.Draw(t, "format"), Bound: rapid.Bool().Draw(t, "bound")}
			if rapid.IntRange(0, 5).Draw(t, "raw") == 0 {
				p.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
			} else {
				r := genRec().Draw(t, "rec")
				p.Rec, p.Edits = &r, genEdits(3).Draw(t, "edits")
			}
			return p
		}, runMangled)
}
