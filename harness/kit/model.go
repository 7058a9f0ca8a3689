package kit

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
)

func newReader(b []byte) io.Reader { return bytes.NewReader(b) }

// MRec is a record of the reference model.
type MRec struct {
	Stream, AType, AID string
	GSN, SSN           uint64
	TS                 uint64
	Spec               EvSpec
	EventID            string // learnt on first read
}

// Model is the obviously correct event log the stores are compared with.
type Model struct {
	Recs []*MRec
	GSN  uint64
	// Gaps says that the store may leave global sequence numbers out, so that they
	// are learnt when an event is first read.
	Gaps bool
	log  []*MRec // every event ever accepted
}

// Learn reads the numbers that were given to the events just appended to a
// stream; they must be higher than all before.
func (m *Model) Learn(s rangedb.Store, recs []*MRec) error {
	if !m.Gaps || len(recs) == 0 {
		return nil
	}
	got, err := Drain(s.EventsByStream(context.Background(), recs[0].SSN, recs[0].Stream))
	if err != nil {
		return fmt.Errorf("reading back what was saved: %v", err)
	}
	if len(got) != len(recs) {
		return fmt.Errorf("%d events were saved, %d read back", len(recs), len(got))
	}
	for i, r := range got {
		if r.GlobalSequenceNumber <= m.GSN {
			return fmt.Errorf("event %d of stream %q has global sequence number %d, an earlier one had %d", r.StreamSequenceNumber, r.StreamName, r.GlobalSequenceNumber, m.GSN)
		}
		m.GSN = r.GlobalSequenceNumber
		recs[i].GSN = m.GSN
	}
	return nil
}

// Log returns every event ever accepted, deleted ones included.
func (m *Model) Log() []*MRec { return m.log }

// Len is the number of events in a stream.
func (m *Model) Len(stream string) uint64 { return uint64(len(m.Stream(stream, 0))) }

// Append adds a batch and returns its records.
func (m *Model) Append(stream, atype, aid string, ts uint64, specs []EvSpec) []*MRec {
	n := m.Len(stream)
	var out []*MRec
	for _, s := range specs {
		gsn := uint64(0)
		if !m.Gaps {
			m.GSN++
			gsn = m.GSN
		}
		n++
		r := &MRec{Stream: stream, AType: atype, AID: aid, GSN: gsn, SSN: n, TS: ts, Spec: s}
		m.Recs = append(m.Recs, r)
		m.log = append(m.log, r)
		out = append(out, r)
	}
	return out
}

// Delete removes a stream.
func (m *Model) Delete(stream string) {
	var keep []*MRec
	for _, r := range m.Recs {
		if r.Stream != stream {
			keep = append(keep, r)
		}
	}
	m.Recs = keep
}

// All returns the events with a global sequence number of at least g.
func (m *Model) All(g uint64) []*MRec {
	var out []*MRec
	for _, r := range m.Recs {
		if r.GSN >= g {
			out = append(out, r)
		}
	}
	return out
}

// Types returns the events of the aggregate types from g on.
func (m *Model) Types(g uint64, types ...string) []*MRec {
	var out []*MRec
	for _, r := range m.Recs {
		for _, t := range types {
			if r.AType == t && r.GSN >= g {
				out = append(out, r)
				break
			}
		}
	}
	return out
}

// Stream returns the events of a stream from s on.
func (m *Model) Stream(stream string, s uint64) []*MRec {
	var out []*MRec
	for _, r := range m.Recs {
		if r.Stream == stream && r.SSN >= s {
			out = append(out, r)
		}
	}
	return out
}

// Matches judges one record read from a store.
func (r *MRec) Matches(got *rangedb.Record) error {
	if got == nil {
		return errors.New("nil record")
	}
	if got.StreamName != r.Stream || got.AggregateType != r.AType || got.AggregateID != r.AID {
		return fmt.Errorf("record %d is of stream %q type %q id %q, saved as %q %q %q", got.GlobalSequenceNumber, got.StreamName, got.AggregateType, got.AggregateID, r.Stream, r.AType, r.AID)
	}
	if got.GlobalSequenceNumber != r.GSN || got.StreamSequenceNumber != r.SSN {
		return fmt.Errorf("record of stream %q is numbered global %d stream %d, expected %d %d", r.Stream, got.GlobalSequenceNumber, got.StreamSequenceNumber, r.GSN, r.SSN)
	}
	if got.InsertTimestamp != r.TS {
		return fmt.Errorf("record %d has timestamp %d, saved at %d", r.GSN, got.InsertTimestamp, r.TS)
	}
	if got.EventType != r.Spec.EventType() {
		return fmt.Errorf("record %d has event type %q, saved %q", r.GSN, got.EventType, r.Spec.EventType())
	}
	if got.EventID == "" {
		return fmt.Errorf("record %d has no event ID", r.GSN)
	}
	if r.EventID == "" {
		r.EventID = got.EventID
	} else if r.EventID != got.EventID {
		return fmt.Errorf("record %d had event ID %q, now %q", r.GSN, r.EventID, got.EventID)
	}
	if err := r.Spec.CheckData(r.AType, r.AID, got.Data); err != nil {
		return fmt.Errorf("record %d: %v", r.GSN, err)
	}
	if err := r.Spec.CheckMetadata(got.Metadata); err != nil {
		return fmt.Errorf("record %d: %v", r.GSN, err)
	}
	return nil
}

// Drain reads an iterator to its end.
func Drain(it rangedb.RecordIterator) ([]*rangedb.Record, error) {
	var out []*rangedb.Record
	for it.Next() {
		if it.Err() != nil {
			break
		}
		out = append(out, it.Record())
		if len(out) > 1_000_000 {
			return out, errors.New("iterator does not end")
		}
	}
	return out, it.Err()
}

// Same judges a full result.
func Same(want []*MRec, got []*rangedb.Record) error {
	for i, r := range got {
		if i >= len(want) {
			return fmt.Errorf("%d records expected, %d read; first extra: global %d stream %q", len(want), len(got), r.GlobalSequenceNumber, r.StreamName)
		}
		if err := want[i].Matches(r); err != nil {
			return fmt.Errorf("record at position %d: %v", i, err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%d records expected, %d read; first missing: global %d stream %q", len(want), len(got), want[len(got)].GSN, want[len(got)].Stream)
	}
	return nil
}

// CheckStore compares every view of the store with the model.
func CheckStore(m *Model, s rangedb.Store, streams, types []string) error {
	ctx := context.Background()
	got, err := Drain(s.Events(ctx, 0))
	if err != nil {
		return fmt.Errorf("Events(0): %v", err)
	}
	if err := Same(m.All(0), got); err != nil {
		return fmt.Errorf("Events(0): %v", err)
	}
	ids := map[string]bool{}
	for _, r := range got {
		if ids[r.EventID] {
			return fmt.Errorf("event ID %q is used twice", r.EventID)
		}
		ids[r.EventID] = true
	}
	for _, st := range streams {
		want := m.Stream(st, 0)
		got, err := Drain(s.EventsByStream(ctx, 0, st))
		if len(want) == 0 {
			if !errors.Is(err, rangedb.ErrStreamNotFound) && (err == nil || err.Error() != rangedb.ErrStreamNotFound.Error()) {
				return fmt.Errorf("EventsByStream(0, %q) of a stream that does not exist: error %v", st, err)
			}
			if len(got) > 0 {
				return fmt.Errorf("EventsByStream(0, %q) of a stream that does not exist: %d records", st, len(got))
			}
		} else {
			if err != nil {
				return fmt.Errorf("EventsByStream(0, %q): %v", st, err)
			}
			if err := Same(want, got); err != nil {
				return fmt.Errorf("EventsByStream(0, %q): %v", st, err)
			}
		}
		n, err := s.TotalEventsInStream(ctx, st)
		if err != nil || n != uint64(len(want)) {
			return fmt.Errorf("TotalEventsInStream(%q) = %d, %v; expected %d", st, n, err, len(want))
		}
	}
	for _, t := range types {
		got, err := Drain(s.EventsByAggregateTypes(ctx, 0, t))
		if err != nil {
			return fmt.Errorf("EventsByAggregateTypes(0, %q): %v", t, err)
		}
		if err := Same(m.Types(0, t), got); err != nil {
			return fmt.Errorf("EventsByAggregateTypes(0, %q): %v", t, err)
		}
	}
	return nil
}

// Clock is a settable clock.
type Clock struct {
	mu sync.Mutex
	t  int64
}

func (c *Clock) Now() time.Time { c.mu.Lock(); defer c.mu.Unlock(); return time.Unix(c.t, 0) }

// Set sets the time in seconds.
func (c *Clock) Set(t int64) { c.mu.Lock(); c.t = t; c.mu.Unlock() }
