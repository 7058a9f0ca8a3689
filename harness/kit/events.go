// Package kit holds what the harness packages share: event types, the
// reference model of an event store, generators and backends.
package kit

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/inklabs/rangedb"
	"github.com/vmihailenco/msgpack/v4"
)

// EvSpec is the serialisable description of one event to save.
type EvSpec struct {
	Kind string `json:"k"` // thing, other, raw, unbound, bomb
	Ptr  bool   `json:"p,omitempty"`
	Num  int64  `json:"n,omitempty"`
	Text string `json:"t,omitempty"`
	Deep int    `json:"d,omitempty"` // extra structure
	Meta int    `json:"m,omitempty"` // metadata shape
}

// Thing and Other are bound event types with a rich payload.
type Thing struct {
	AType string            `json:"atype"`
	AID   string            `json:"aid"`
	Num   int64             `json:"num"`
	Text  string            `json:"text"`
	Big   uint64            `json:"big"`
	Flag  bool              `json:"flag"`
	List  []string          `json:"list"`
	Attrs map[string]string `json:"attrs"`
	Blob  []byte            `json:"blob"`
	Sub   *ThingSub         `json:"sub"`
	Ratio float64           `json:"ratio"`
}

type ThingSub struct {
	Label string  `json:"label"`
	Nums  []int64 `json:"nums"`
}

func (t Thing) AggregateID() string   { return t.AID }
func (t Thing) AggregateType() string { return t.AType }
func (t Thing) EventType() string     { return "Thing" }

type Other struct {
	AType string `json:"atype"`
	AID   string `json:"aid"`
	Text  string `json:"text"`
}

func (t Other) AggregateID() string   { return t.AID }
func (t Other) AggregateType() string { return t.AType }
func (t Other) EventType() string     { return "Other" }

// Unbound is never bound, so it is read back as plain data.
type Unbound struct {
	AType string `json:"atype"`
	AID   string `json:"aid"`
	Num   int64  `json:"num"`
	Text  string `json:"text"`
}

func (t Unbound) AggregateID() string   { return t.AID }
func (t Unbound) AggregateType() string { return t.AType }
func (t Unbound) EventType() string     { return "Unbound" }

// Bomb cannot be serialised.
type Bomb struct{ AType, AID string }

var ErrBomb = errors.New("bomb")

func (t Bomb) AggregateID() string                      { return t.AID }
func (t Bomb) AggregateType() string                    { return t.AType }
func (t Bomb) EventType() string                        { return "Bomb" }
func (t Bomb) MarshalJSON() ([]byte, error)             { return nil, ErrBomb }
func (t Bomb) EncodeMsgpack(enc *msgpack.Encoder) error { return ErrBomb }

// Bind binds the bound event types.
func Bind(b rangedb.EventBinder) { b.Bind(&Thing{}, Other{}) }

// Hooked runs hook the first time the store asks the event for its identity.
type hooked struct {
	rangedb.Event
	hook func()
}

func (h *hooked) AggregateID() string {
	h.hook()
	return h.Event.AggregateID()
}

func (h *hooked) MarshalJSON() ([]byte, error) { return json.Marshal(h.Event) }

func (h *hooked) EncodeMsgpack(enc *msgpack.Encoder) error { return enc.Encode(h.Event) }

// Hook wraps an event so that f runs when the store reads its aggregate ID.
func Hook(e rangedb.Event, f func()) rangedb.Event { return &hooked{e, f} }

// Event builds the event of a spec in an aggregate.
func (s EvSpec) Event(atype, aid string) rangedb.Event {
	switch s.Kind {
	case "other":
		o := Other{AType: atype, AID: aid, Text: s.Text}
		if s.Ptr {
			return &o
		}
		return o
	case "unbound":
		return &Unbound{AType: atype, AID: aid, Num: s.Num, Text: s.Text}
	case "raw":
		return rangedb.NewRawEvent(atype, aid, "RawKind", s.rawData())
	case "null":
		return rangedb.NewRawEvent(atype, aid, "NullKind", nil)
	case "bomb":
		return &Bomb{AType: atype, AID: aid}
	case "misfit": // data that cannot be read back as the event type says
		return rangedb.NewRawEvent(atype, aid, "Thing", []any{s.Text})
	default:
		t := Thing{AType: atype, AID: aid, Num: s.Num, Text: s.Text, Big: uint64(s.Num) * 3, Flag: s.Num%2 == 0, Ratio: float64(s.Num%1000) / 8}
		if s.Deep > 0 {
			t.List = []string{s.Text, "", "x"}
			t.Attrs = map[string]string{s.Text: "v", "k\"ey": s.Text}
			t.Blob = []byte(s.Text + "\x00\x01")
		}
		if s.Deep > 1 {
			t.Sub = &ThingSub{Label: s.Text, Nums: []int64{s.Num, -s.Num, math.MaxInt64, math.MinInt64}}
			t.Big = math.MaxUint64
		}
		if s.Ptr {
			return &t
		}
		return t
	}
}

func (s EvSpec) rawData() any {
	switch s.Deep {
	case 0:
		return map[string]any{"num": s.Num, "text": s.Text}
	case 1:
		return []any{s.Num, s.Text, nil, true, map[string]any{"a": []any{}}}
	case 2:
		return s.Text
	default:
		return map[string]any{"big": int64(math.MaxInt64), "deep": map[string]any{"list": []any{s.Num, map[string]any{"x": s.Text}}}}
	}
}

// Metadata returns what is saved as metadata.
func (s EvSpec) Metadata() any {
	switch s.Meta {
	case 1:
		return map[string]string{"k": s.Text}
	case 2:
		return "meta:" + s.Text
	case 3:
		return map[string]any{"n": s.Num, "l": []any{s.Text, nil}}
	}
	return nil
}

// Record returns the event record to save.
func (s EvSpec) Record(atype, aid string) *rangedb.EventRecord {
	return &rangedb.EventRecord{Event: s.Event(atype, aid), Metadata: s.Metadata()}
}

// EventType returns the event type the spec is saved under.
func (s EvSpec) EventType() string { return s.Event("", "").EventType() }

// Bound says whether the spec is of a bound type, read back as a typed pointer.
func (s EvSpec) Bound() bool {
	return s.Kind != "raw" && s.Kind != "null" && s.Kind != "unbound" && s.Kind != "bomb" && s.Kind != "misfit"
}

// CheckData judges data read back for an event saved with this spec.
func (s EvSpec) CheckData(atype, aid string, got any) error {
	e := s.Event(atype, aid)
	if s.Bound() {
		want := reflect.ValueOf(e)
		if want.Kind() != reflect.Ptr {
			p := reflect.New(want.Type())
			p.Elem().Set(want)
			want = p
		}
		if !reflect.DeepEqual(want.Interface(), got) {
			return fmt.Errorf("data is %s, saved %s", Show(got), Show(want.Interface()))
		}
		return nil
	}
	var want any = e
	if s.Kind == "null" {
		want = nil
	}
	if s.Kind == "raw" {
		want = s.rawData()
	}
	return SameJSON("data", want, got)
}

// CheckMetadata judges metadata read back.
func (s EvSpec) CheckMetadata(got any) error { return SameJSON("metadata", s.Metadata(), got) }

// SameJSON compares two values by their JSON text, key order aside.
func SameJSON(what string, want, got any) error {
	w, err := canonical(want)
	if err != nil {
		return err
	}
	g, err := canonical(got)
	if err != nil {
		return fmt.Errorf("%s cannot be encoded: %v", what, err)
	}
	if w != g {
		return fmt.Errorf("%s is %s, saved %s", what, g, w)
	}
	return nil
}

func canonical(v any) (string, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return "", err
	}
	return Canon(b)
}

// Canon normalises JSON text without losing number precision.
func Canon(b []byte) (string, error) {
	d := json.NewDecoder(newReader(b))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return "", err
	}
	out, err := json.Marshal(x)
	return string(out), err
}

// Show prints a value for a failure message.
func Show(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%T %+v", v, v)
	}
	s := string(b)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return fmt.Sprintf("%T %s", v, s)
}
