package kit

import (
	"context"
	"errors"
	"sync"

	"github.com/inklabs/rangedb"
)

// Faulty is a store whose reads and writes fail on demand.
type Faulty struct {
	rangedb.Store
	mu     sync.Mutex
	Reads  error // every read fails with it ...
	After  int   // ... after so many records
	Late   bool  // Next returns true once more when it fails
	Writes error
}

// Set changes what fails.
func (f *Faulty) Set(reads error, after int, late bool, writes error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Reads, f.After, f.Late, f.Writes = reads, after, late, writes
}

func (f *Faulty) get() (error, int, bool, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.Reads, f.After, f.Late, f.Writes
}

// FailingIter is an iterator failing after some records.
type FailingIter struct {
	rangedb.RecordIterator
	left int
	late bool
	fail error
	err  error
}

// FailAfter makes an iterator fail after n records.
func FailAfter(it rangedb.RecordIterator, n int, late bool, err error) *FailingIter {
	return &FailingIter{RecordIterator: it, left: n, late: late, fail: err}
}

func (i *FailingIter) step(next func() bool) bool {
	if i.err != nil {
		return false
	}
	if i.left <= 0 {
		i.err = i.fail
		// Release the producer.
		for i.RecordIterator.Next() {
		}
		return i.late
	}
	if !next() {
		if i.RecordIterator.Err() == nil {
			i.err = i.fail
		}
		return false
	}
	i.left--
	return true
}

func (i *FailingIter) Next() bool { return i.step(i.RecordIterator.Next) }

func (i *FailingIter) NextContext(ctx context.Context) bool {
	return i.step(func() bool { return i.RecordIterator.NextContext(ctx) })
}

func (i *FailingIter) Err() error {
	if i.err != nil {
		return i.err
	}
	return i.RecordIterator.Err()
}

func (i *FailingIter) Record() *rangedb.Record {
	if i.err != nil {
		return nil
	}
	return i.RecordIterator.Record()
}

func (f *Faulty) read(it rangedb.RecordIterator) rangedb.RecordIterator {
	err, n, late, _ := f.get()
	if err == nil {
		return it
	}
	return FailAfter(it, n, late, err)
}

func (f *Faulty) Events(ctx context.Context, g uint64) rangedb.RecordIterator {
	return f.read(f.Store.Events(ctx, g))
}

func (f *Faulty) EventsByAggregateTypes(ctx context.Context, g uint64, types ...string) rangedb.RecordIterator {
	return f.read(f.Store.EventsByAggregateTypes(ctx, g, types...))
}

func (f *Faulty) EventsByStream(ctx context.Context, n uint64, stream string) rangedb.RecordIterator {
	return f.read(f.Store.EventsByStream(ctx, n, stream))
}

func (f *Faulty) Save(ctx context.Context, stream string, recs ...*rangedb.EventRecord) (uint64, error) {
	if _, _, _, err := f.get(); err != nil {
		return 0, err
	}
	return f.Store.Save(ctx, stream, recs...)
}

func (f *Faulty) OptimisticSave(ctx context.Context, exp uint64, stream string, recs ...*rangedb.EventRecord) (uint64, error) {
	if _, _, _, err := f.get(); err != nil {
		return 0, err
	}
	return f.Store.OptimisticSave(ctx, exp, stream, recs...)
}

func (f *Faulty) OptimisticDeleteStream(ctx context.Context, exp uint64, stream string) error {
	if _, _, _, err := f.get(); err != nil {
		return err
	}
	return f.Store.OptimisticDeleteStream(ctx, exp, stream)
}

func (f *Faulty) TotalEventsInStream(ctx context.Context, stream string) (uint64, error) {
	if err, _, _, _ := f.get(); err != nil {
		return 0, err
	}
	return f.Store.TotalEventsInStream(ctx, stream)
}

// ErrDisk is a failure of the store.
var ErrDisk = errors.New("disk failure")
