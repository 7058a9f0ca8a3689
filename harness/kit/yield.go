package kit

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/postgresstore"

	"verifharness/fakees"
	"verifharness/fakepg"
)

// Yielder gives way to other goroutines at the points where a store calls
// back into the harness, so that schedules vary with the seed.
type Yielder struct {
	Seed uint64
	n    atomic.Uint64
}

func (y *Yielder) Yield() {
	if y.Seed == 0 {
		return
	}
	x := y.Seed + y.n.Add(1)*0x9e3779b97f4a7c15
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	switch x % 8 {
	case 0:
		time.Sleep(time.Duration(x>>8%40) * time.Microsecond)
	case 1, 2, 3:
		for i := uint64(0); i < x>>8%4+1; i++ {
			runtime.Gosched()
		}
	}
}

// Delay is how long a statement takes: often nothing, up to a millisecond.
func (y *Yielder) Delay() time.Duration {
	if y.Seed == 0 {
		return 0
	}
	x := y.Seed + y.n.Add(1)*0x9e3779b97f4a7c15
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	if x%4 != 0 {
		return 0
	}
	return time.Duration(x>>8%1000) * time.Microsecond
}

type yieldSerializer struct {
	rangedb.RecordSerializer
	y *Yielder
}

func (s yieldSerializer) Serialize(r *rangedb.Record) ([]byte, error) {
	s.y.Yield()
	b, err := s.RecordSerializer.Serialize(r)
	s.y.Yield()
	return b, err
}

func (s yieldSerializer) Deserialize(b []byte) (*rangedb.Record, error) {
	s.y.Yield()
	return s.RecordSerializer.Deserialize(b)
}

type yieldClock struct {
	Clock
	y *Yielder
}

func (c *yieldClock) Now() time.Time { c.y.Yield(); return c.Clock.Now() }

type yieldUUID struct {
	inner shortuuid.Generator
	y     *Yielder
}

func (u yieldUUID) New() string { u.y.Yield(); return u.inner.New() }

// OpenYielding is Open for mem, memmp, ldb and ldbmp with yield points.
func OpenYielding(name string, y *Yielder) *Backend {
	b := &Backend{Name: name, Close: func() {}}
	c := &yieldClock{y: y}
	b.Clock = &c.Clock
	ser := yieldSerializer{serializer(name == "memmp" || name == "ldbmp"), y}
	ids := yieldUUID{shortuuid.NewUUIDGenerator(), y}
	switch name {
	case "mem", "memmp":
		b.Store = inmemorystore.New(inmemorystore.WithClock(c), inmemorystore.WithSerializer(ser), inmemorystore.WithUUIDGenerator(ids))
	case "ldb", "ldbmp":
		dir := ScratchDir()
		s, err := leveldbstore.New(dir, leveldbstore.WithClock(c), leveldbstore.WithSerializer(ser), leveldbstore.WithUUIDGenerator(ids))
		if err != nil {
			panic(err)
		}
		b.Store = s
		b.Close = func() { _ = s.Stop(); _ = os.RemoveAll(dir) }
	case "es", "esprefix", "esprefix2":
		n := 1
		if strings.HasSuffix(name, "2") {
			n = 2
		}
		return openES(name, c, ids, n, func(string) fakees.Act { return fakees.Act{Delay: y.Delay(), After: y.Delay()} })
	case "pg", "pgnotify", "pg2", "pgnotify2":
		// Delays of statements make the schedules; the last two are a pair of
		// stores on one database.
		db := fakepg.Create(fmt.Sprintf("db%d", dirSeq.Add(1)))
		db.SetHook(func(string) fakepg.Act { return fakepg.Act{Delay: y.Delay(), After: y.Delay()} })
		notify := strings.HasPrefix(name, "pgnotify")
		n := 1
		if strings.HasSuffix(name, "2") {
			n = 2
		}
		var closers []func() error
		for i := 0; i < n; i++ {
			config := &postgresstore.Config{Host: "127.0.0.1", Port: fakepg.Port(), User: "u", Password: "p", DBName: db.Name}
			opts := []postgresstore.Option{postgresstore.WithClock(c), postgresstore.WithUUIDGenerator(ids)}
			if notify {
				opts = append(opts, postgresstore.WithPgNotify())
			}
			s, err := postgresstore.New(config, opts...)
			if err == nil && i == 0 {
				err = s.InitDB()
			}
			if err != nil {
				panic(err)
			}
			Bind(s)
			b.Stores = append(b.Stores, s)
			closers = append(closers, s.CloseDB)
		}
		b.Store, b.PG, b.Gaps = b.Stores[0], db, true
		b.Close = func() {
			for _, f := range closers {
				_ = f()
			}
			db.Drop()
		}
		return b
	default:
		panic(fmt.Sprintf("no yielding backend %q", name))
	}
	Bind(b.Store)
	return b
}
