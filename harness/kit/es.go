package kit

import (
	"context"
	"fmt"
	"strings"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/clock"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/eventstore"

	"verifharness/fakees"
)

// ESPrefix is that of the streams of a store that has one.
const ESPrefix = "v7-"

type esPrefix struct{}

func (esPrefix) WithPrefix(name string) string { return ESPrefix + name }
func (esPrefix) GetPrefix() string             { return ESPrefix }

// esStore adds the positions to events read from a stream, which servers do not all tell.
type esStore struct {
	rangedb.Store
	db     *fakees.DB
	prefix string
}

func (s esStore) EventsByStream(ctx context.Context, n uint64, stream string) rangedb.RecordIterator {
	return &esIterator{s.Store.EventsByStream(ctx, n, stream), s}
}

type esIterator struct {
	rangedb.RecordIterator
	s esStore
}

func (i *esIterator) Record() *rangedb.Record {
	r := i.RecordIterator.Record()
	if r == nil || r.GlobalSequenceNumber != 0 {
		return r
	}
	out := *r
	out.GlobalSequenceNumber = i.s.db.Position(i.s.prefix+r.StreamName, r.StreamSequenceNumber-1)
	return &out
}

// OpenES opens a store on the stand-in for EventStoreDB.
func OpenES(db *fakees.DB, prefix, forgets bool, c clock.Clock, ids shortuuid.Generator) (rangedb.Store, func() error, error) {
	opts := []eventstore.Option{eventstore.WithClock(c), eventstore.WithUUIDGenerator(ids)}
	if !forgets {
		opts = append(opts, eventstore.RecordDeletedStreams())
	}
	p := ""
	if prefix {
		p = ESPrefix
		opts = append(opts, eventstore.WithStreamPrefix(esPrefix{}))
	}
	s, err := eventstore.New(eventstore.Config{IPAddr: db.Addr(), Username: "u", Password: "p"}, opts...)
	if err != nil {
		return nil, nil, err
	}
	Bind(s)
	return esStore{s, db, p}, s.Close, nil
}

// openES opens n stores with one server: es with a server that tells the positions of
// events read from a stream, esprefix with one that does not and has events of its own
// and of others, esforgets without a memory of deleted streams.
func openES(name string, c clock.Clock, ids shortuuid.Generator, n int, hook func(string) fakees.Act) *Backend {
	prefix := strings.HasPrefix(name, "esprefix")
	forgets := name == "esforgets" || n > 1
	db := fakees.Start(fmt.Sprintf("db%d", dirSeq.Add(1)), fakees.Options{StreamPositions: !prefix, Internal: prefix})
	b := &Backend{Name: name, ES: db, Gaps: true, Tombstones: true}
	if k, ok := c.(*Clock); ok {
		b.Clock = k
	} else if k, ok := c.(*yieldClock); ok {
		b.Clock = &k.Clock
	}
	var closers []func() error
	open := func() error {
		b.Stores, closers = nil, nil
		for i := 0; i < n; i++ {
			s, closeStore, err := OpenES(db, prefix, forgets, c, ids)
			if err != nil {
				return err
			}
			b.Stores = append(b.Stores, s)
			closers = append(closers, closeStore)
		}
		b.Store = b.Stores[0]
		return nil
	}
	b.CloseStore = func() error {
		for _, f := range closers {
			if err := f(); err != nil {
				return err
			}
		}
		return nil
	}
	b.Reopen = func() error {
		if err := b.CloseStore(); err != nil {
			return err
		}
		return open()
	}
	b.Close = func() { _ = b.CloseStore(); db.Drop() }
	db.SetHook(hook)
	if err := open(); err != nil {
		panic(err)
	}
	return b
}
