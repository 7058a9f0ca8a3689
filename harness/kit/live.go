package kit

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
)

// Live collects what a live subscription delivers.
type Live struct {
	mu     sync.Mutex
	got    []*rangedb.Record
	signal chan struct{}
	sub    rangedb.RecordSubscription
	also   func(*rangedb.Record)
	cancel context.CancelFunc
}

func (l *Live) accept(r *rangedb.Record) {
	if l.also != nil {
		l.also(r)
	}
	l.mu.Lock()
	l.got = append(l.got, r)
	l.mu.Unlock()
	select {
	case l.signal <- struct{}{}:
	default:
	}
}

// Got returns what was delivered so far.
func (l *Live) Got() []*rangedb.Record {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]*rangedb.Record(nil), l.got...)
}

// Watch subscribes to all events of a store, with ample buffer.
func Watch(s rangedb.Store) *Live { return WatchWith(s, nil) }

// Stop ends the subscription.
func (l *Live) Stop() { l.cancel(); l.sub.Stop() }

// WatchWith is Watch, also calling f with each record as it is delivered.
func WatchWith(s rangedb.Store, f func(*rangedb.Record)) *Live {
	l := &Live{signal: make(chan struct{}, 1), also: f}
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	l.sub = s.AllEventsSubscription(ctx, 5000, rangedb.RecordSubscriberFunc(l.accept))
	if err := l.sub.Start(); err != nil {
		panic(err)
	}
	return l
}

// Until waits for the delivery of a record satisfying f.
func (l *Live) Until(f func(*rangedb.Record) bool) error {
	deadline := time.After(60 * time.Second)
	seen := 0
	for {
		got := l.Got()
		for ; seen < len(got); seen++ {
			if f(got[seen]) {
				return nil
			}
		}
		select {
		case <-l.signal:
		case <-deadline:
			return fmt.Errorf("a saved event was not delivered; %d events were", len(got))
		}
	}
}

// End saves one last event and compares everything delivered with the events
// ever accepted, deleted ones included.
func (l *Live) End(s rangedb.Store, m *Model) error {
	defer l.cancel()
	spec := EvSpec{Kind: "thing", Text: "last"}
	if _, err := s.Save(context.Background(), "the last stream", spec.Record("last", "one")); err != nil {
		return err
	}
	if err := l.Until(func(r *rangedb.Record) bool { return r.StreamName == "the last stream" }); err != nil {
		return err
	}
	got := l.Got()
	return Same(m.Log(), got[:len(got)-1])
}
