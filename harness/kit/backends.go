package kit

import (
	"context"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/test/bufconn"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/encryptedstore"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
	"github.com/inklabs/rangedb/provider/leveldbstore"
	"github.com/inklabs/rangedb/provider/msgpackrecordserializer"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/inklabs/rangedb/provider/remotestore"

	"verifharness/fakees"
	"verifharness/fakepg"
)

// Backend is a store under test.
type Backend struct {
	Name  string
	Store rangedb.Store
	Clock *Clock
	// Reopen closes and reopens the store from its files; nil when it has none.
	Reopen func() error
	Close  func()
	// Inner is the store behind a remote one.
	Inner rangedb.Store
	// Stores are several stores on the same data, Store being the first.
	Stores []rangedb.Store
	// Gaps says that the store may leave global sequence numbers out.
	Gaps bool
	// CloseStore closes a PostgreSQL store and leaves its database.
	CloseStore func() error
	// PG is the stand-in for the database behind a PostgreSQL store.
	PG *fakepg.DB
	// ES is the stand-in for the server behind an EventStoreDB store.
	ES *fakees.DB
	// Tombstones says that deleted streams cannot be saved to again.
	Tombstones bool
}

var dirSeq atomic.Int64

// ScratchDir makes a fresh directory below the worker's scratch directory.
func ScratchDir() string {
	base := os.Getenv("PBT_WORK")
	if base == "" {
		base = os.TempDir()
	}
	d := filepath.Join(base, fmt.Sprintf("d%d-%d", os.Getpid(), dirSeq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

func serializer(mp bool) rangedb.RecordSerializer {
	if mp {
		return msgpackrecordserializer.New()
	}
	return jsonrecordserializer.New()
}

// Open builds a backend by name: mem, memmp, ldb, ldbmp, remote, enc.
func Open(name string) *Backend { return open(name, true) }

// OpenUnbound is Open without binding any event type.
func OpenUnbound(name string) *Backend { return open(name, false) }

func open(name string, bound bool) *Backend {
	Bind := func(s rangedb.EventBinder) {
		if bound {
			Bind(s)
		}
	}
	b := &Backend{Name: name, Clock: &Clock{}, Close: func() {}}
	switch name {
	case "mem", "memmp":
		b.Store = inmemorystore.New(inmemorystore.WithClock(b.Clock), inmemorystore.WithSerializer(serializer(name == "memmp")))
		Bind(b.Store)
	case "ldb", "ldbmp":
		dir := ScratchDir()
		var closeDB func()
		open := func() error {
			s, err := leveldbstore.New(dir, leveldbstore.WithClock(b.Clock), leveldbstore.WithSerializer(serializer(name == "ldbmp")))
			if err != nil {
				return err
			}
			Bind(s)
			b.Store = s
			closeDB = func() { _ = s.Stop() }
			return nil
		}
		if err := open(); err != nil {
			panic(err)
		}
		b.Reopen = func() error { closeDB(); return open() }
		b.Close = func() { closeDB(); _ = os.RemoveAll(dir) }
	case "remote", "remotememmp", "remoteldb", "remoteldbmp":
		// The served store knows no event types, as that of cmd/rangedb.
		inner := map[string]string{"remote": "mem", "remotememmp": "memmp", "remoteldb": "ldb", "remoteldbmp": "ldbmp"}[name]
		ib := open(inner, false)
		s, stop := Remote(ib.Store)
		Bind(s)
		b.Store, b.Clock, b.Close = s, ib.Clock, func() { stop(); ib.Close() }
		b.Inner = ib.Store
	case "enc":
		inner := inmemorystore.New(inmemorystore.WithClock(b.Clock))
		b.Store = encryptedstore.New(inner, eventencryptor.New(inmemorykeystore.New(), aes.NewGCM()))
		Bind(b.Store)
	case "es", "esprefix", "esforgets":
		b = openES(name, b.Clock, shortuuid.NewUUIDGenerator(), 1, nil)
	case "pg", "pgnotify":
		db := fakepg.Create(fmt.Sprintf("db%d", dirSeq.Add(1)))
		s, closeDB, err := OpenPG(db, name == "pgnotify", b.Clock, true)
		if err != nil {
			panic(err)
		}
		Bind(s)
		b.Store, b.PG, b.Gaps = s, db, true
		b.Reopen = func() error {
			if err := closeDB(); err != nil {
				return err
			}
			if s, closeDB, err = OpenPG(db, name == "pgnotify", b.Clock, true); err != nil {
				return err
			}
			Bind(s)
			b.Store = s
			return nil
		}
		b.CloseStore = func() error { return closeDB() }
		b.Close = func() { _ = closeDB(); db.Drop() }
	default:
		panic("unknown backend " + name)
	}
	return b
}

// Excuse ends a case without a verdict when the stand-in for PostgreSQL was
// given a statement beyond it.
func Excuse(c interface{ Excuse(func() string) }) {
	n := fakepg.OddCount()
	c.Excuse(func() string {
		if fakepg.OddCount() > n {
			return "statement beyond the stand-in"
		}
		return ""
	})
}

// OpenPG opens a PostgreSQL store on a database of the stand-in.
func OpenPG(db *fakepg.DB, notify bool, clock *Clock, init bool) (rangedb.Store, func() error, error) {
	config := &postgresstore.Config{Host: "127.0.0.1", Port: fakepg.Port(), User: "u", Password: "p", DBName: db.Name}
	opts := []postgresstore.Option{postgresstore.WithClock(clock)}
	if notify {
		opts = append(opts, postgresstore.WithPgNotify())
	}
	s, err := postgresstore.New(config, opts...)
	if err != nil {
		return nil, nil, err
	}
	if init {
		if err := s.InitDB(); err != nil {
			_ = s.CloseDB()
			return nil, nil, err
		}
	}
	return s, s.CloseDB, nil
}

// Remote serves inner over an in-process gRPC connection and returns the client store.
func Remote(inner rangedb.Store) (rangedb.Store, func()) {
	conn, stop := Serve(inner)
	s, err := remotestore.New(conn)
	if err != nil {
		panic(err)
	}
	return s, stop
}

// Serve serves a store over an in-process gRPC connection.
func Serve(inner rangedb.Store) (*grpc.ClientConn, func()) {
	conn, stop, _ := ServeStoppable(inner)
	return conn, stop
}

// ServeStoppable is Serve, also returning what stops the RangeDB server alone.
func ServeStoppable(inner rangedb.Store) (*grpc.ClientConn, func(), func()) {
	lis := bufconn.Listen(1 << 16)
	server := grpc.NewServer()
	rs, err := rangedbserver.New(rangedbserver.WithStore(inner))
	if err != nil {
		panic(err)
	}
	rangedbpb.RegisterRangeDBServer(server, rs)
	done := make(chan struct{})
	go func() { _ = server.Serve(lis); close(done) }()
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	conn, err := grpc.DialContext(ctx, "bufnet",
		grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() }),
		grpc.WithInsecure(), grpc.WithBlock(), grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(64<<20)))
	if err != nil {
		panic(err)
	}
	var once sync.Once
	stopServer := func() { once.Do(func() { _ = rs.Stop() }) }
	return conn, func() {
		_ = conn.Close()
		stopServer()
		server.Stop()
		<-done
	}, stopServer
}
