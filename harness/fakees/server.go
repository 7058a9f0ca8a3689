// Package fakees is a stand-in for an EventStoreDB server: the streams service
// over gRPC, in memory, with faults on request.  The user name of a client chooses
// the database, so that many cases share one server.
package fakees

import (
	"context"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/EventStore/EventStore-Client-Go/protos/shared"
	api "github.com/EventStore/EventStore-Client-Go/protos/streams"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// Act is what a fault does to a request.
type Act struct {
	Fail   string // "before" it has an effect, "after" it
	Cut    int    // a read breaks after this many events, when positive
	Delay  time.Duration
	After  time.Duration // before the answer is sent
	Status codes.Code    // of the failure, Unavailable when 0
}

// Options choose between what servers do.
type Options struct {
	StreamPositions bool // reads of a stream tell positions
	Internal        bool // the log also has events of the server itself
}

// DB is the log of one case.
type DB struct {
	Name string
	opt  Options

	mu      sync.Mutex
	cond    *sync.Cond
	log     []*entry
	next    uint64
	streams map[string]*stream
	hook    func(kind string) Act
	dropped int // generation of subscriptions
	calls   int
	subs    int
	writes  int // requests under way
	subAt   int // subscriptions confirmed so far
	addr    string
	grpc    *grpc.Server
}

type stream struct {
	n         uint64
	tombstone bool
}

type entry struct {
	stream          string
	rev             uint64
	id, typ, ctype  string
	created         string
	meta, data      []byte
	commit, prepare uint64
}

type server struct {
	api.UnimplementedStreamsServer
	only *DB
}

var (
	mu  sync.Mutex
	dbs = map[string]*DB{}
)

// Serve serves databases named by users, made as needed.
func Serve(l net.Listener) error {
	g := grpc.NewServer()
	api.RegisterStreamsServer(g, server{})
	return g.Serve(l)
}

// Addr is where the database is served.
func (db *DB) Addr() string { return db.addr }

// Start makes a database with a server of its own.  The clients leave connections
// behind, which end with it.
func Start(name string, opt Options) *DB {
	db := Create(name, opt)
	db.Up()
	return db
}

// Up serves the database, where it was served before.
func (db *DB) Up() {
	at := db.addr
	if at == "" {
		at = "127.0.0.1:0"
	}
	l, err := net.Listen("tcp", at)
	for i := 0; err != nil && i < 100; i++ {
		time.Sleep(10 * time.Millisecond)
		l, err = net.Listen("tcp", at)
	}
	if err != nil {
		panic(err)
	}
	db.addr = l.Addr().String()
	db.grpc = grpc.NewServer()
	api.RegisterStreamsServer(db.grpc, server{only: db})
	go func() { _ = db.grpc.Serve(l) }()
}

// Down ends all connections and refuses others.
func (db *DB) Down() {
	db.grpc.Stop()
	db.DropSubscriptions()
}

// Create makes a database.
func Create(name string, opt Options) *DB {
	db := &DB{Name: name, opt: opt, streams: map[string]*stream{}, next: 1}
	db.cond = sync.NewCond(&db.mu)
	if opt.Internal {
		db.internal("$settings")
	}
	return db
}

// Drop ends the server of the database.
func (db *DB) Drop() { db.Down() }

// Position tells that of an event, 0 when there is none.
func (db *DB) Position(stream string, rev uint64) uint64 {
	db.mu.Lock()
	defer db.mu.Unlock()
	for _, e := range db.log {
		if e.stream == stream && e.rev == rev {
			return e.commit
		}
	}
	return 0
}

// SetHook sets what is asked about each request: append, tombstone, read, all, subscribe.
func (db *DB) SetHook(f func(kind string) Act) { db.mu.Lock(); db.hook = f; db.mu.Unlock() }

// DropSubscriptions breaks all subscriptions.
func (db *DB) DropSubscriptions() {
	db.mu.Lock()
	db.dropped++
	db.mu.Unlock()
	db.cond.Broadcast()
}

// Subscriptions says how many subscriptions there are now, and how many were ever confirmed.
func (db *DB) Subscriptions() (now, ever int) {
	db.mu.Lock()
	defer db.mu.Unlock()
	return db.subs, db.subAt
}

func (db *DB) internal(typ string) {
	db.put(&entry{stream: typ, typ: typ, ctype: "application/json", data: []byte(`{"server":true}`)})
}

// Put stores an event that the store under test did not save.
func (db *DB) Put(stream, typ string, meta, data []byte) {
	db.mu.Lock()
	defer db.mu.Unlock()
	if s := db.streams[stream]; s != nil && s.tombstone {
		return
	}
	db.put(&entry{stream: stream, id: "00000000-0000-4000-8000-000000000000", typ: typ, ctype: "application/json", meta: meta, data: data})
	db.cond.Broadcast()
}

func (db *DB) put(e *entry) {
	s := db.streams[e.stream]
	if s == nil {
		s = &stream{}
		db.streams[e.stream] = s
	}
	e.rev = s.n
	s.n++
	db.next += uint64(40 + len(e.data)%50)
	e.prepare, e.commit = db.next, db.next
	e.created = "16000000000000000"
	db.log = append(db.log, e)
}

func (e *entry) wire(position bool) *api.ReadResp {
	r := &api.ReadResp_ReadEvent{Event: &api.ReadResp_ReadEvent_RecordedEvent{
		Id:               &shared.UUID{Value: &shared.UUID_String_{String_: e.id}},
		StreamIdentifier: &shared.StreamIdentifier{StreamName: []byte(e.stream)},
		StreamRevision:   e.rev,
		CommitPosition:   ^uint64(0),
		PreparePosition:  ^uint64(0),
		Metadata:         map[string]string{"type": e.typ, "content-type": e.ctype, "created": e.created},
		CustomMetadata:   e.meta,
		Data:             e.data,
	}}
	if position {
		r.Event.CommitPosition, r.Event.PreparePosition = e.commit, e.prepare
		r.Position = &api.ReadResp_ReadEvent_CommitPosition{CommitPosition: e.commit}
	} else {
		r.Position = &api.ReadResp_ReadEvent_NoPosition{NoPosition: &shared.Empty{}}
	}
	return &api.ReadResp{Content: &api.ReadResp_Event{Event: r}}
}

func (s server) find(ctx context.Context) (*DB, error) {
	if s.only != nil {
		return s.only, nil
	}
	md, _ := metadata.FromIncomingContext(ctx)
	for _, a := range md.Get("authorization") {
		b, err := base64.StdEncoding.DecodeString(strings.TrimPrefix(a, "Basic "))
		if err != nil {
			continue
		}
		user, _, _ := strings.Cut(string(b), ":")
		mu.Lock()
		db := dbs[user]
		if db == nil {
			db = Create(user, Options{})
			dbs[user] = db
		}
		mu.Unlock()
		return db, nil
	}
	return nil, status.Error(codes.Unauthenticated, "no such user")
}

func (db *DB) write() (done func()) {
	db.mu.Lock()
	db.writes++
	db.mu.Unlock()
	return func() { db.mu.Lock(); db.writes--; db.mu.Unlock() }
}

// Writes says how many requests to append or delete are under way.
func (db *DB) Writes() int { db.mu.Lock(); defer db.mu.Unlock(); return db.writes }

func (db *DB) ask(kind string) (Act, error) {
	db.mu.Lock()
	h := db.hook
	db.calls++
	db.mu.Unlock()
	var a Act
	if h != nil {
		a = h(kind)
	}
	if a.Delay > 0 {
		time.Sleep(a.Delay)
	}
	if a.Fail == "before" {
		return a, a.err()
	}
	return a, nil
}

func (a Act) err() error {
	c := a.Status
	if c == 0 {
		c = codes.Unavailable
	}
	return status.Error(c, "the server is in trouble")
}

func refuse(set func(metadata.MD), exception, stream, text string) error {
	set(metadata.Pairs("exception", exception, "stream-name", stream))
	return status.Error(codes.FailedPrecondition, text)
}

// expectation judges an expected revision; now is that of the stream, -1 without events.
func (db *DB) now(name string) int64 {
	if s := db.streams[name]; s != nil {
		return int64(s.n) - 1
	}
	return -1
}

func (s server) Append(in api.Streams_AppendServer) error {
	db, err := s.find(in.Context())
	if err != nil {
		return err
	}
	first, err := in.Recv()
	if err != nil {
		return err
	}
	o := first.GetOptions()
	if o == nil {
		return status.Error(codes.InvalidArgument, "no options")
	}
	name := string(o.GetStreamIdentifier().GetStreamName())
	var batch []*entry
	for {
		m, err := in.Recv()
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			return err
		}
		p := m.GetProposedMessage()
		if p == nil {
			return status.Error(codes.InvalidArgument, "no message")
		}
		batch = append(batch, &entry{stream: name, id: p.GetId().GetString_(), typ: p.Metadata["type"], ctype: p.Metadata["content-type"], meta: p.CustomMetadata, data: p.Data})
	}
	defer db.write()()
	a, err := db.ask("append")
	if err != nil {
		return err
	}
	if err := in.Context().Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	resp, err := db.append(name, o, batch, in.SetTrailer)
	time.Sleep(a.After)
	if err == nil && a.Fail == "after" {
		return a.err()
	}
	if err != nil {
		return err
	}
	return in.SendAndClose(resp)
}

func (db *DB) append(name string, o *api.AppendReq_Options, batch []*entry, trailer func(metadata.MD)) (*api.AppendResp, error) {
	db.mu.Lock()
	defer db.mu.Unlock()
	if name == "" || strings.HasPrefix(name, "$$") && len(name) == 2 {
		return nil, status.Error(codes.InvalidArgument, "invalid stream name")
	}
	now := db.now(name)
	wrong := &api.AppendResp_WrongExpectedVersion{}
	if now < 0 {
		wrong.CurrentRevisionOption = &api.AppendResp_WrongExpectedVersion_NoStream{NoStream: &shared.Empty{}}
	} else {
		wrong.CurrentRevisionOption = &api.AppendResp_WrongExpectedVersion_CurrentRevision{CurrentRevision: uint64(now)}
	}
	if s := db.streams[name]; s != nil && s.tombstone {
		return nil, refuse(trailer, "stream-deleted", name, fmt.Sprintf("Event stream '%s' is deleted.", name))
	}
	ok := true
	switch v := o.ExpectedStreamRevision.(type) {
	case *api.AppendReq_Options_Revision:
		ok = now >= 0 && uint64(now) == v.Revision
		wrong.ExpectedRevisionOption = &api.AppendResp_WrongExpectedVersion_ExpectedRevision{ExpectedRevision: v.Revision}
	case *api.AppendReq_Options_NoStream:
		ok = now < 0
	case *api.AppendReq_Options_StreamExists:
		ok = now >= 0
		wrong.ExpectedRevisionOption = &api.AppendResp_WrongExpectedVersion_StreamExists{StreamExists: &shared.Empty{}}
	case *api.AppendReq_Options_Any:
	default:
		return nil, status.Error(codes.InvalidArgument, "no expected revision")
	}
	if !ok {
		return &api.AppendResp{Result: &api.AppendResp_WrongExpectedVersion_{WrongExpectedVersion: wrong}}, nil
	}
	for _, e := range batch {
		db.put(e)
	}
	if db.opt.Internal && len(db.log)%3 == 0 {
		db.internal("$stats")
	}
	db.cond.Broadcast()
	s := &api.AppendResp_Success{PositionOption: &api.AppendResp_Success_Position{Position: &api.AppendResp_Position{CommitPosition: db.next, PreparePosition: db.next}}}
	if n := db.now(name); n < 0 {
		s.CurrentRevisionOption = &api.AppendResp_Success_NoStream{NoStream: &shared.Empty{}}
	} else {
		s.CurrentRevisionOption = &api.AppendResp_Success_CurrentRevision{CurrentRevision: uint64(n)}
	}
	return &api.AppendResp{Result: &api.AppendResp_Success_{Success: s}}, nil
}

func (s server) Delete(ctx context.Context, r *api.DeleteReq) (*api.DeleteResp, error) {
	return nil, status.Error(codes.Unimplemented, "deletion without tombstone")
}

func (s server) Tombstone(ctx context.Context, r *api.TombstoneReq) (*api.TombstoneResp, error) {
	db, err := s.find(ctx)
	if err != nil {
		return nil, err
	}
	defer db.write()()
	a, err := db.ask("tombstone")
	if err != nil {
		return nil, err
	}
	if err := ctx.Err(); err != nil {
		return nil, status.FromContextError(err).Err()
	}
	trailer := func(md metadata.MD) { _ = grpc.SetTrailer(ctx, md) }
	name := string(r.GetOptions().GetStreamIdentifier().GetStreamName())
	err = func() error {
		db.mu.Lock()
		defer db.mu.Unlock()
		s := db.streams[name]
		if s != nil && s.tombstone {
			return refuse(trailer, "stream-deleted", name, fmt.Sprintf("Event stream '%s' is deleted.", name))
		}
		now := db.now(name)
		ok := true
		switch v := r.GetOptions().GetExpectedStreamRevision().(type) {
		case *api.TombstoneReq_Options_Revision:
			ok = now >= 0 && uint64(now) == v.Revision
		case *api.TombstoneReq_Options_NoStream:
			ok = now < 0
		case *api.TombstoneReq_Options_StreamExists:
			ok = now >= 0
		case *api.TombstoneReq_Options_Any:
		default:
			return status.Error(codes.InvalidArgument, "no expected revision")
		}
		if !ok {
			return refuse(trailer, "wrong-expected-version", name, fmt.Sprintf("Append failed due to WrongExpectedVersion. Stream: %s", name))
		}
		db.put(&entry{stream: name, typ: "$streamDeleted", ctype: "application/octet-stream"})
		db.streams[name].tombstone = true
		db.cond.Broadcast()
		return nil
	}()
	time.Sleep(a.After)
	if err == nil && a.Fail == "after" {
		return nil, a.err()
	}
	if err != nil {
		return nil, err
	}
	return &api.TombstoneResp{PositionOption: &api.TombstoneResp_Position_{Position: &api.TombstoneResp_Position{CommitPosition: 1, PreparePosition: 1}}}, nil
}

func (s server) Read(r *api.ReadReq, out api.Streams_ReadServer) error {
	db, err := s.find(out.Context())
	if err != nil {
		return err
	}
	o := r.GetOptions()
	back := o.GetReadDirection() != api.ReadReq_Options_Forwards
	if o.GetFilter() != nil {
		return status.Error(codes.Unimplemented, "filter")
	}
	_, live := o.CountOption.(*api.ReadReq_Options_Subscription)
	kind := "read"
	if o.GetAll() != nil {
		kind = "all"
	}
	if live {
		kind = "subscribe"
	}
	a, err := db.ask(kind)
	if err != nil {
		return err
	}
	if live {
		if o.GetAll() == nil {
			return status.Error(codes.Unimplemented, "subscription to a stream")
		}
		return db.subscribe(o.GetAll(), out, a)
	}
	var found []*entry
	position := true
	db.mu.Lock()
	if s := o.GetStream(); s != nil {
		name := string(s.GetStreamIdentifier().GetStreamName())
		st := db.streams[name]
		switch {
		case st == nil:
			db.mu.Unlock()
			return out.Send(&api.ReadResp{Content: &api.ReadResp_StreamNotFound_{StreamNotFound: &api.ReadResp_StreamNotFound{StreamIdentifier: s.StreamIdentifier}}})
		case st.tombstone:
			db.mu.Unlock()
			return refuse(out.SetTrailer, "stream-deleted", name, fmt.Sprintf("Event stream '%s' is deleted.", name))
		}
		from := s.GetRevision()
		for _, e := range db.log {
			at := e.rev >= from
			if back {
				at = s.GetEnd() != nil || e.rev <= from
			} else if s.GetEnd() != nil {
				at = false
			}
			if e.stream == name && at {
				found = append(found, e)
			}
		}
		position = db.opt.StreamPositions
	} else {
		p := o.GetAll().GetPosition()
		for _, e := range db.log {
			at := p == nil || e.commit > p.CommitPosition || e.commit == p.CommitPosition && e.prepare >= p.PreparePosition
			if back {
				at = o.GetAll().GetEnd() != nil || p != nil && e.commit < p.CommitPosition
			} else if o.GetAll().GetEnd() != nil {
				at = false
			}
			if at {
				found = append(found, e)
			}
		}
	}
	db.mu.Unlock()
	if back {
		slices.Reverse(found)
	}
	if n := o.GetCount(); uint64(len(found)) > n {
		found = found[:n]
	}
	for i, e := range found {
		if a.Cut > 0 && i == a.Cut {
			return a.err()
		}
		if err := out.Send(e.wire(position)); err != nil {
			return err
		}
	}
	if a.Fail == "after" || a.Cut > 0 {
		return a.err()
	}
	time.Sleep(a.After)
	return nil
}

func (db *DB) subscribe(o *api.ReadReq_Options_AllOptions, out api.Streams_ReadServer, a Act) error {
	ctx := out.Context()
	stop := context.AfterFunc(ctx, func() {
		db.mu.Lock() // lest it comes between looking and waiting
		defer db.mu.Unlock()
		db.cond.Broadcast()
	})
	defer stop()
	db.mu.Lock()
	gen, i := db.dropped, 0
	if o.GetEnd() != nil {
		i = len(db.log)
	} else if p := o.GetPosition(); p != nil {
		for i < len(db.log) {
			if e := db.log[i]; e.commit > p.CommitPosition || e.commit == p.CommitPosition && e.prepare > p.PreparePosition {
				break
			}
			i++
		}
	}
	db.subs++
	db.subAt++
	id := fmt.Sprint(db.subAt)
	db.mu.Unlock()
	defer func() { db.mu.Lock(); db.subs--; db.mu.Unlock() }()
	if err := out.Send(&api.ReadResp{Content: &api.ReadResp_Confirmation{Confirmation: &api.ReadResp_SubscriptionConfirmation{SubscriptionId: id}}}); err != nil {
		return err
	}
	for n := 0; ; n++ {
		db.mu.Lock()
		for i >= len(db.log) && db.dropped == gen && ctx.Err() == nil {
			db.cond.Wait()
		}
		if ctx.Err() != nil || db.dropped != gen {
			db.mu.Unlock()
			return status.Error(codes.Unavailable, "subscription dropped")
		}
		e := db.log[i]
		i++
		db.mu.Unlock()
		if a.Cut > 0 && n == a.Cut {
			return a.err()
		}
		if err := out.Send(e.wire(true)); err != nil {
			return err
		}
	}
}
