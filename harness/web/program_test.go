package web

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/gorilla/websocket"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedberror"
	"github.com/inklabs/rangedb/provider/remotestore"
	"google.golang.org/grpc"
	"pgregory.net/rapid"

	"verifharness/fakees"
	"verifharness/fakepg"
	"verifharness/kit"
	"verifharness/pbt"
)

// ProgOp is a step in the life of servers run by the rangedb program.
type ProgOp struct {
	Op    string       `json:"op"` // save, osave, del, read, sub, race, stop
	S     int          `json:"s"`  // the server
	Door  string       `json:"door,omitempty"`
	A     int          `json:"a"`
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Wrong int64        `json:"wrong,omitempty"` // added to the right expectation
	What  string       `json:"what,omitempty"`  // of read: all, types, stream, ui
	Ext   string       `json:"ext,omitempty"`
	Typed bool         `json:"typed,omitempty"` // of sub: of one aggregate type
	From  int          `json:"from,omitempty"`  // of sub over gRPC: events before the first; -1 for the events to come
	N     int          `json:"n,omitempty"`     // of race: clients
	Same  bool         `json:"same,omitempty"`  // of race: with one expectation on one stream
	Kill  bool         `json:"kill,omitempty"`  // of stop
	Half  bool         `json:"half,omitempty"`  // of stop: while a request is being made
}

// ProgPlan is the life of one or two servers.
type ProgPlan struct {
	Backend string    `json:"backend"` // ldb, mem, pg (one database for all) or es
	Rel     bool      `json:"rel"`     // the path is relative
	Tpl     bool      `json:"tpl,omitempty"` // pages from a directory of templates
	Servers int       `json:"servers"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []ProgOp  `json:"ops"`
}

func genProg(t *rapid.T) ProgPlan {
	p := ProgPlan{Backend: rapid.SampledFrom([]string{"ldb", "ldb", "ldb", "mem", "pg", "pg", "es"}).Draw(t, "backend"), Rel: rapid.Bool().Draw(t, "rel"), Tpl: rapid.IntRange(0, 2).Draw(t, "tpl") == 0,
		Servers: rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "servers"), Aggs: kit.GenAggs(1, 3, false).Draw(t, "aggs")}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ProgOp {
		o := ProgOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "osave", "osave", "del", "read", "read", "sub", "sub", "race", "stop", "stop"}).Draw(t, "op"),
			S: rapid.IntRange(0, p.Servers-1).Draw(t, "s"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"), Door: rapid.SampledFrom([]string{"http", "grpc"}).Draw(t, "door")}
		switch o.Op {
		case "save", "osave":
			o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 3).Draw(t, "ev")
		}
		switch o.Op {
		case "osave", "del":
			o.Wrong = rapid.SampledFrom([]int64{0, 0, 0, 1, -1}).Draw(t, "wrong")
		case "read":
			o.What = rapid.SampledFrom([]string{"all", "types", "stream", "ui"}).Draw(t, "what")
			o.Ext = rapid.SampledFrom([]string{"json", "ndjson", "msgpack"}).Draw(t, "ext")
		case "sub":
			o.Typed = rapid.Bool().Draw(t, "typed")
			o.From = rapid.SampledFrom([]int{-1, 0, 0, 2}).Draw(t, "from")
		case "race":
			o.N = rapid.IntRange(2, 6).Draw(t, "n")
			o.Same = rapid.Bool().Draw(t, "same")
		case "stop":
			o.Kill = rapid.Bool().Draw(t, "kill")
			o.Half = rapid.Bool().Draw(t, "half")
		}
		return o
	}), 2, 10).Draw(t, "ops")
	return p
}

var (
	databases   atomic.Int64
	programOnce sync.Once
	programFile string
	programErr  error
)

// program builds the server.
func program() (string, error) {
	programOnce.Do(func() {
		programFile = filepath.Join(os.Getenv("PBT_WORK"), "rangedb")
		cmd := exec.Command("go", "build", "-ldflags=-s -w", "-o", programFile, "github.com/inklabs/rangedb/cmd/rangedb")
		cmd.Dir = os.Getenv("PBT_HARNESS")
		if out, err := cmd.CombinedOutput(); err != nil {
			programErr = fmt.Errorf("building the server: %v\n%s", err, out)
		}
	})
	return programFile, programErr
}

// ownMark is in the pages made of ownTemplates.
const ownMark = "<footer>pages of our own</footer>"

// ownTemplates copies the templates of the server to a directory, changed.
func ownTemplates(dir string) error {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/inklabs/rangedb/pkg/rangedbui")
	cmd.Dir = os.Getenv("PBT_HARNESS")
	out, err := cmd.Output()
	if err != nil {
		return err
	}
	if err := os.CopyFS(dir, os.DirFS(filepath.Join(strings.TrimSpace(string(out)), "templates"))); err != nil {
		return err
	}
	base := filepath.Join(dir, "layout", "base.gohtml")
	text, err := os.ReadFile(base)
	if err != nil {
		return err
	}
	own := bytes.Replace(text, []byte("</body>"), []byte(ownMark+"</body>"), 1)
	if len(own) == len(text) {
		own = append(own, ownMark...)
	}
	return os.WriteFile(base, own, 0o644)
}

// progSub is a subscriber of a running server.
type progSub struct {
	name string
	typ  string // "": all
	want []*kit.MRec
	past uint64 // live: what was saved up to here may or may not come, being broadcast
	mu   sync.Mutex
	got  []any // *wire or *rangedb.Record
	end  func()
}

func (s *progSub) take(r any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if x, ok := r.(*rangedb.Record); ok && len(s.got) == 0 && x.GlobalSequenceNumber <= s.past {
		return
	}
	s.got = append(s.got, r)
}

func (s *progSub) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.got)
}

// server is one store and the program that serves it, run again and again.
type server struct {
	c       *pbt.C
	p       ProgPlan
	name    string
	dir     string
	tmp     string
	m       *kit.Model
	ever    map[string]uint64 // events of an aggregate type, deleted ones included
	env     []string
	peers   []*server // of the same database, this one included
	cmd     *exec.Cmd
	exited  chan error
	errs    bytes.Buffer
	mu      sync.Mutex
	addr    string
	client  *http.Client
	conn    *grpc.ClientConn
	store   rangedb.Store
	subs    []*progSub
	starts  int
	settled int
}

func (s *server) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.errs.Write(b)
}

func (s *server) fail(format string, args ...any) {
	s.mu.Lock()
	text := s.errs.String()
	s.mu.Unlock()
	if len(text) > 2000 {
		text = text[len(text)-2000:]
	}
	s.c.Failf("%s (%s): %s\nthe server wrote: %s", s.name, s.p.Backend, fmt.Sprintf(format, args...), text)
}

func (s *server) start() {
	bin, err := program()
	if err != nil {
		panic(err)
	}
	if s.p.Backend == "mem" {
		s.m, s.ever = &kit.Model{}, map[string]uint64{}
	}
	args := []string{"-port", "0", "-gRPCPort", "0"}
	if s.p.Backend == "ldb" {
		path := filepath.Join(s.dir, "db")
		if s.p.Rel {
			path = "db"
		}
		args = append(args, "-levelDBPath", path)
	}
	if s.p.Tpl {
		path := "templates"
		if !s.p.Rel {
			path = filepath.Join(s.dir, path)
		}
		args = append(args, "-templates", path)
	}
	s.cmd = exec.Command(bin, args...)
	s.cmd.Dir = s.dir
	s.cmd.Env = []string{"HOME=" + s.dir, "TMPDIR=" + s.tmp, "PATH=" + os.Getenv("PATH")}
	s.cmd.Env = append(s.cmd.Env, s.env...)
	s.cmd.Stderr = s
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	lines := make(chan string, 100)
	s.exited = make(chan error, 1)
	go func() {
		r := bufio.NewScanner(out)
		for r.Scan() {
			select {
			case lines <- r.Text():
			default:
			}
		}
		close(lines)
		s.exited <- s.cmd.Wait()
	}()
	s.addr = ""
	rpc := ""
	for end := time.After(pbt.Patience(60 * time.Second)); s.addr == "" || rpc == ""; {
		select {
		case l, ok := <-lines:
			if !ok {
				s.fail("start %d: the server ended", s.starts)
			}
			_, l, _ = strings.Cut(l, "istening: ")
			if x, ok := strings.CutPrefix(l, "http://"); ok {
				s.addr = local(x)
			}
			if x, ok := strings.CutPrefix(l, "grpc://"); ok {
				rpc = local(x)
			}
		case <-end:
			s.fail("start %d: the server does not listen after a minute", s.starts)
		}
	}
	s.starts++
	s.client = &http.Client{Transport: &http.Transport{DisableCompression: true}, Timeout: pbt.Patience(60 * time.Second)}
	ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
	defer cancel()
	s.conn, err = grpc.DialContext(ctx, rpc, grpc.WithInsecure(), grpc.WithBlock())
	if err != nil {
		s.fail("connecting to the gRPC server: %v", err)
	}
	rs, err := remotestore.New(s.conn)
	if err != nil {
		s.fail("remote store: %v", err)
	}
	kit.Bind(rs)
	s.store = rs
}

func local(addr string) string {
	_, port, err := net.SplitHostPort(addr)
	if err != nil {
		return addr
	}
	return "127.0.0.1:" + port
}

func (s *server) do(method, path string, head map[string]string, body []byte) *answer {
	st := &site{client: s.client}
	u := &url.URL{Scheme: "http", Host: s.addr, Path: path}
	req, err := http.NewRequest(method, u.String(), bytes.NewReader(body))
	if err != nil {
		return &answer{err: err}
	}
	for k, v := range head {
		req.Header.Set(k, v)
	}
	resp, err := st.client.Do(req)
	if err != nil {
		return &answer{err: err}
	}
	defer resp.Body.Close()
	a := &answer{code: resp.StatusCode, typ: resp.Header.Get("Content-Type")}
	a.body, a.err = io.ReadAll(resp.Body)
	return a
}

// conflict is a write refused because of its expectation.
var errConflict = fmt.Errorf("conflict")
var errMissing = fmt.Errorf("no such stream")

// save saves through a door; exp < 0 for no expectation.
func (s *server) save(door string, a kit.Agg, evs []kit.EvSpec, exp int64) (uint64, error) {
	ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
	defer cancel()
	if door == "grpc" {
		var recs []*rangedb.EventRecord
		for _, e := range evs {
			recs = append(recs, e.Record(a.Type, a.ID))
		}
		var n uint64
		var err error
		if exp < 0 {
			n, err = s.store.Save(ctx, a.Stream, recs...)
		} else {
			n, err = s.store.OptimisticSave(ctx, uint64(exp), a.Stream, recs...)
		}
		if _, ok := err.(*rangedberror.UnexpectedSequenceNumber); ok {
			return 0, errConflict
		}
		return n, err
	}
	b, _ := json.Marshal(body(a, evs))
	head := map[string]string{"Content-Type": "application/json"}
	if exp >= 0 {
		head["ExpectedStreamSequenceNumber"] = strconv.FormatInt(exp, 10)
	}
	return saved(s.do("POST", "/api/save-events/"+a.Stream, head, b))
}

func saved(r *answer) (uint64, error) {
	if r.err == nil && r.code == http.StatusConflict {
		return 0, errConflict
	}
	if !r.ok() {
		return 0, fmt.Errorf("status %d, %v: %.200q", r.code, r.err, r.body)
	}
	var v struct{ StreamSequenceNumber uint64 }
	if err := json.Unmarshal(r.body, &v); err != nil {
		return 0, err
	}
	return v.StreamSequenceNumber, nil
}

func (s *server) del(door string, a kit.Agg, exp uint64) error {
	if door == "grpc" {
		ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
		defer cancel()
		err := s.store.OptimisticDeleteStream(ctx, exp, a.Stream)
		if _, ok := err.(*rangedberror.UnexpectedSequenceNumber); ok {
			return errConflict
		}
		if err == rangedb.ErrStreamNotFound {
			return errMissing
		}
		return err
	}
	r := s.do("POST", "/api/delete-stream/"+a.Stream, map[string]string{"ExpectedStreamSequenceNumber": strconv.FormatUint(exp, 10)}, nil)
	switch {
	case r.err == nil && r.code == http.StatusConflict:
		return errConflict
	case r.err == nil && r.code == http.StatusNotFound:
		return errMissing
	case !r.ok():
		return fmt.Errorf("status %d, %v: %.200q", r.code, r.err, r.body)
	}
	return nil
}

// accept adds saved events to the model and to what subscribers get. The clock is that of the server.
func (s *server) accept(a kit.Agg, evs []kit.EvSpec) {
	recs := s.m.Append(a.Stream, a.Type, a.ID, 0, evs)
	ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
	defer cancel()
	got, err := kit.Drain(s.store.EventsByStream(ctx, recs[0].SSN, a.Stream))
	if err != nil || len(got) < len(recs) {
		s.fail("reading back %d events of %q: %d, %v", len(recs), a.Stream, len(got), err)
	}
	now := uint64(time.Now().Unix())
	for i, r := range recs {
		if s.m.Gaps {
			if r.GSN = got[i].GlobalSequenceNumber; r.GSN <= s.m.GSN {
				s.fail("an event has global sequence number %d, an earlier one had %d", r.GSN, s.m.GSN)
			}
			s.m.GSN = r.GSN
		}
		r.TS = got[i].InsertTimestamp
		if r.TS > now || r.TS+600 < now {
			s.fail("an event saved now has timestamp %d, now is %d", r.TS, now)
		}
		s.ever[r.AType]++
		for _, p := range s.peers {
			for _, x := range p.subs {
				if x.typ == "" || x.typ == r.AType {
					x.want = append(x.want, r)
				}
			}
		}
	}
}

// view compares what one door shows with the model.
func (s *server) view(o ProgOp) {
	a := s.p.Aggs[o.A]
	var want []*kit.MRec
	path := ""
	switch o.What {
	case "all":
		want, path = s.m.All(0), "all-events"
	case "types":
		want, path = s.m.Types(0, a.Type), "events-by-aggregate-type/"+a.Type
	case "stream":
		want, path = s.m.Stream(a.Stream, 0), "events-by-stream/"+a.Stream
	case "ui":
		r := s.do("GET", "/aggregate-types", nil, nil)
		if !r.ok() {
			s.fail("GET /aggregate-types: %d, %v", r.code, r.err)
		}
		if _, err := parsePage(r.body); err != nil {
			s.fail("GET /aggregate-types: %v", err)
		}
		if own := bytes.Contains(r.body, []byte(ownMark)); own != s.p.Tpl {
			s.fail("GET /aggregate-types: a page from the given templates: %t, expected %t", own, s.p.Tpl)
		}
		if want = s.m.Types(0, a.Type); len(want) > 0 {
			r := s.do("GET", "/a/"+a.Type, nil, nil)
			pg, err := parsePage(r.body)
			if !r.ok() || err != nil {
				s.fail("GET /a/%s: %d, %v, %v", a.Type, r.code, r.err, err)
			}
			u := &uiSite{c: s.c}
			u.rows(s.name+": page of "+a.Type, pg, want[:min(10, len(want))])
		}
		return
	}
	if o.Door == "http" {
		r := s.do("GET", "/api/"+path+"."+o.Ext, nil, nil)
		if o.What == "stream" && len(want) == 0 {
			if r.ok() {
				if got, err := parse(o.Ext, r.body); err == nil && len(got) > 0 {
					s.fail("%s has %d events, expected none", path, len(got))
				}
			}
			return
		}
		if err := sameAll(path, o.Ext, want, r); err != nil {
			s.fail("%v", err)
		}
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
	defer cancel()
	var it rangedb.RecordIterator
	switch o.What {
	case "all":
		it = s.store.Events(ctx, 0)
	case "types":
		it = s.store.EventsByAggregateTypes(ctx, 0, a.Type)
	case "stream":
		it = s.store.EventsByStream(ctx, 0, a.Stream)
	}
	got, err := kit.Drain(it)
	if o.What == "stream" && len(want) == 0 {
		if err != rangedb.ErrStreamNotFound || len(got) > 0 {
			s.fail("stream %q does not exist, got %d events, %v", a.Stream, len(got), err)
		}
		return
	}
	if err == nil {
		err = kit.Same(want, got)
	}
	if err != nil {
		s.fail("%s over gRPC: %v", path, err)
	}
}

// stats waits for the statistics to count the events: each once, and deleted ones at most once.
func (s *server) stats() {
	var list struct {
		Data []struct {
			Name        string
			TotalEvents uint64
		}
		TotalEvents uint64
	}
	check := func() error {
		r := s.do("GET", "/api/list-aggregate-types", nil, nil)
		if !r.ok() {
			return fmt.Errorf("status %d, %v", r.code, r.err)
		}
		list.Data = nil
		if err := json.Unmarshal(r.body, &list); err != nil {
			return err
		}
		sum := uint64(0)
		counted := map[string]uint64{}
		for _, d := range list.Data {
			if _, ok := counted[d.Name]; ok {
				return fmt.Errorf("type %q is listed twice", d.Name)
			}
			counted[d.Name] = d.TotalEvents
			sum += d.TotalEvents
			if _, ok := s.ever[d.Name]; !ok {
				return fmt.Errorf("type %q is listed, which had no event", d.Name)
			}
		}
		for typ, n := range s.ever {
			if low := uint64(len(s.m.Types(0, typ))); counted[typ] < low || counted[typ] > n {
				return fmt.Errorf("type %q is said to have %d events; there were %d, and %d are left", typ, counted[typ], n, low)
			}
		}
		if sum != list.TotalEvents {
			return fmt.Errorf("the total is said to be %d, the sum of the types is %d", list.TotalEvents, sum)
		}
		return nil
	}
	var err error
	for end := time.Now().Add(pbt.Patience(20 * time.Second)); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if err = check(); err == nil {
			return
		}
	}
	s.fail("list of aggregate types: %v", err)
}

func (s *server) subscribe(o ProgOp) {
	x := &progSub{name: fmt.Sprintf("subscriber %d over %s", len(s.subs), o.Door)}
	if o.Typed {
		x.typ = s.p.Aggs[o.A].Type
	}
	if o.Door == "http" {
		path := "/ws/events"
		if x.typ != "" {
			path += "/" + x.typ
		}
		x.want = s.m.All(0)
		if x.typ != "" {
			x.want = s.m.Types(0, x.typ)
		}
		conn, _, err := (&websocket.Dialer{HandshakeTimeout: pbt.Patience(60 * time.Second)}).Dial("ws://"+s.addr+path, nil)
		if err != nil {
			s.fail("%s: %v", path, err)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				_, b, err := conn.ReadMessage()
				if err != nil {
					return
				}
				w := &wire{}
				if err := json.Unmarshal(b, w); err != nil {
					w.StreamName = fmt.Sprintf("%v: %.100q", err, b)
				}
				x.take(w)
			}
		}()
		x.end = func() { _ = conn.Close(); <-done }
	} else {
		ctx, cancel := context.WithCancel(context.Background())
		f := rangedb.RecordSubscriberFunc(func(r *rangedb.Record) { x.take(r) })
		var sub rangedb.RecordSubscription
		if x.typ == "" {
			sub = s.store.AllEventsSubscription(ctx, 1000, f)
		} else {
			sub = s.store.AggregateTypesSubscription(ctx, 1000, f, x.typ)
		}
		var err error
		if o.From < 0 {
			x.past = s.m.GSN
			err = sub.Start()
		} else {
			from := uint64(0)
			if all := s.m.All(0); len(all) > 0 {
				from = all[min(o.From, len(all)-1)].GSN
			}
			x.want = s.m.All(from)
			if x.typ != "" {
				x.want = s.m.Types(from, x.typ)
			}
			err = sub.StartFrom(from)
		}
		if err != nil {
			s.fail("%s: %v", x.name, err)
		}
		x.end = func() { sub.Stop(); cancel() }
	}
	x.want = append([]*kit.MRec(nil), x.want...)
	s.subs = append(s.subs, x)
}

// settle waits for the subscribers to have what was saved, and compares.
func (s *server) settle() {
	for _, x := range s.subs {
		for end := time.Now().Add(pbt.Patience(30 * time.Second)); x.count() < len(x.want) && time.Now().Before(end); {
			time.Sleep(time.Millisecond)
		}
		s.compare(x)
	}
	s.stats()
}

func (s *server) compare(x *progSub) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for i, g := range x.got {
		if i >= len(x.want) {
			s.fail("%s got %d events, expected %d", x.name, len(x.got), len(x.want))
		}
		var err error
		switch g := g.(type) {
		case *wire:
			err = same(x.want[i], g, false)
		case *rangedb.Record:
			err = x.want[i].Matches(g)
		}
		if err != nil {
			s.fail("%s, event %d: %v", x.name, i, err)
		}
	}
	if len(x.got) < len(x.want) {
		s.fail("%s got %d events of %d", x.name, len(x.got), len(x.want))
	}
}

// race lets clients save at the same time.
func (s *server) race(n int, o ProgOp) {
	type result struct {
		a   kit.Agg
		ev  []kit.EvSpec
		n   uint64
		err error
	}
	results := make([]result, o.N)
	exp := int64(-1)
	if o.Same {
		exp = int64(s.m.Len(s.p.Aggs[o.A].Stream))
	}
	var wg sync.WaitGroup
	for i := range results {
		r := &results[i]
		r.a = s.p.Aggs[(o.A+i)%len(s.p.Aggs)]
		if o.Same {
			r.a = s.p.Aggs[o.A]
		}
		for k := 0; k <= i%2; k++ {
			r.ev = append(r.ev, kit.EvSpec{Kind: "other", Text: fmt.Sprintf("race %d.%d.%d", n, i, k), Ptr: true})
		}
		door := "http"
		if i%2 == 0 {
			door = "grpc"
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.n, r.err = s.save(door, r.a, r.ev, exp)
		}()
	}
	wg.Wait()
	ctx, cancel := context.WithTimeout(context.Background(), pbt.Patience(60*time.Second))
	defer cancel()
	news, err := kit.Drain(s.store.Events(ctx, s.m.GSN+1))
	if err != nil {
		s.fail("after a race: %v", err)
	}
	won, found := 0, 0
	for _, rec := range news {
		other, ok := rec.Data.(*kit.Other)
		if !ok {
			s.fail("after a race: event %d is %T", rec.GlobalSequenceNumber, rec.Data)
		}
		for _, r := range results {
			if r.err == nil && other.Text == r.ev[0].Text {
				found++
				s.accept(r.a, r.ev)
				if got := s.m.Len(r.a.Stream); r.n != got {
					s.fail("a save in a race answered sequence number %d, its last event has %d", r.n, got)
				}
			}
		}
	}
	for i, r := range results {
		switch {
		case r.err == nil:
			won++
		case o.Same && r.err == errConflict:
		default:
			s.fail("client %d of a race: %v", i, r.err)
		}
	}
	if o.Same && won != 1 {
		s.fail("%d of %d saves with the same expectation were accepted", won, o.N)
	}
	if found != won {
		s.fail("%d saves of a race were accepted, %d found", won, found)
	}
}

// half begins a request, so that the server waits for the rest of it, and returns what ends it.
func (s *server) half(a kit.Agg, evs []kit.EvSpec) func() *answer {
	b, _ := json.Marshal(body(a, evs))
	conn, err := net.DialTimeout("tcp", s.addr, pbt.Patience(60*time.Second))
	if err != nil {
		s.fail("%v", err)
	}
	_ = conn.SetDeadline(time.Now().Add(pbt.Patience(60 * time.Second)))
	fmt.Fprintf(conn, "POST /api/save-events/%s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\nExpect: 100-continue\r\n\r\n", url.PathEscape(a.Stream), len(b))
	r := bufio.NewReader(conn)
	if l, err := r.ReadString('\n'); err != nil || !strings.Contains(l, "100") {
		s.fail("the server does not want the body of a request: %q, %v", l, err)
	}
	_, _ = r.ReadString('\n')
	_, _ = conn.Write(b[:len(b)/2])
	return func() *answer {
		defer conn.Close()
		_, _ = conn.Write(b[len(b)/2:])
		resp, err := http.ReadResponse(r, nil)
		if err != nil {
			return &answer{err: err}
		}
		out := &answer{code: resp.StatusCode}
		out.body, out.err = io.ReadAll(resp.Body)
		return out
	}
}

func (s *server) stop(n int, o ProgOp) {
	s.settle()
	a := s.p.Aggs[o.A]
	ev := []kit.EvSpec{{Kind: "other", Text: fmt.Sprintf("half %d", n), Ptr: true}}
	sig := os.Signal(os.Interrupt)
	if o.Kill {
		sig = os.Kill
	}
	var late bool
	if o.Half {
		finish := s.half(a, ev)
		_ = s.cmd.Process.Signal(sig)
		if !o.Kill {
			// By now it stops.
			time.Sleep(20 * time.Millisecond)
			if _, err := saved(finish()); err != nil {
				s.fail("a request that was being made when the server was told to stop: %v", err)
			}
			late = true
			s.c.Class("request while stopping")
		} else {
			r := finish()
			if r.ok() {
				s.fail("a killed server answered")
			}
		}
	} else {
		_ = s.cmd.Process.Signal(sig)
	}
	s.gone(o.Kill)
	for _, x := range s.subs {
		x.end()
		// What was being saved may still have come.
		if x.count() > len(x.want) && late {
			continue
		}
		s.compare(x)
	}
	s.subs = nil
	_ = s.conn.Close()
	s.client.CloseIdleConnections()
	s.start()
	if late && s.p.Backend != "mem" {
		s.accept(a, ev)
	}
}

func (s *server) gone(killed bool) {
	select {
	case err := <-s.exited:
		s.cmd = nil
		if !killed && err != nil {
			s.fail("told to stop, the server ended with: %v", err)
		}
	case <-time.After(pbt.Patience(60 * time.Second)):
		s.fail("a minute after it was told to stop, the server still runs")
	}
}

func runProg(c *pbt.C, p ProgPlan) {
	tmp := kit.ScratchDir()
	c.Cleanup(func() { _ = os.RemoveAll(tmp) })
	var servers []*server
	for i := 0; i < p.Servers; i++ {
		s := &server{c: c, p: p, name: fmt.Sprintf("server %d", i), dir: filepath.Join(tmp, fmt.Sprint(i)), tmp: filepath.Join(tmp, "tmp"), m: &kit.Model{}, ever: map[string]uint64{}}
		s.peers = []*server{s}
		s.m.Gaps = p.Backend == "pg" || p.Backend == "es"
		switch p.Backend {
		case "pg":
			if i == 0 {
				db := fakepg.Create(fmt.Sprintf("program%d", databases.Add(1)))
				c.Cleanup(db.Drop)
				s.env = []string{"PG_HOST=" + fakepg.Standard(), "PG_USER=u", "PG_PASSWORD=p", "PG_DBNAME=" + db.Name}
				kit.Excuse(c)
				break
			}
			s.env, s.m, s.ever = servers[0].env, servers[0].m, servers[0].ever
		case "es":
			db := fakees.Start(fmt.Sprintf("program%d", databases.Add(1)), fakees.Options{StreamPositions: true})
			c.Cleanup(db.Drop)
			s.env = []string{"ESDB_IP_ADDR=" + db.Addr(), "ESDB_USERNAME=u", "ESDB_PASSWORD=p"}
		}
		for _, d := range []string{s.dir, s.tmp} {
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(err)
			}
		}
		if p.Tpl {
			if err := ownTemplates(filepath.Join(s.dir, "templates")); err != nil {
				panic(err)
			}
		}
		c.Cleanup(func() {
			if s.cmd != nil {
				_ = s.cmd.Process.Kill()
				<-s.exited
			}
			for _, x := range s.subs {
				x.end()
			}
			if s.conn != nil {
				_ = s.conn.Close()
				s.client.CloseIdleConnections()
			}
		})
		s.start()
		servers = append(servers, s)
	}
	if p.Backend == "pg" {
		for _, s := range servers {
			s.peers = servers
		}
	}
	c.Class("store: " + p.Backend)
	if p.Backend == "pg" && p.Servers > 1 {
		c.Class("two programs on one database")
	}
	doors := map[string]bool{}
	stops := 0
	for i, o := range p.Ops {
		c.Alive()
		s := servers[o.S%len(servers)]
		a := p.Aggs[o.A%len(p.Aggs)]
		cur := s.m.Len(a.Stream)
		switch o.Op {
		case "save", "osave":
			exp := int64(-1)
			if o.Op == "osave" {
				exp = max(0, int64(cur)+o.Wrong)
			}
			n, err := s.save(o.Door, a, o.Ev, exp)
			switch {
			case exp >= 0 && uint64(exp) != cur:
				if err != errConflict {
					s.fail("step %d: a save over %s with expectation %d on a stream at %d: %d, %v", i, o.Door, exp, cur, n, err)
				}
			case err != nil || n != cur+uint64(len(o.Ev)):
				s.fail("step %d: a save over %s of %d events on a stream at %d: %d, %v", i, o.Door, len(o.Ev), cur, n, err)
			default:
				s.accept(a, o.Ev)
				doors[o.Door] = true
			}
		case "del":
			if p.Backend == "es" && s.m.Len(a.Stream) > 0 && o.Wrong == 0 {
				// A deleted stream cannot be used again.
				continue
			}
			for _, q := range s.peers {
				// Deleted events are not delivered any more.
				if p.Backend == "pg" {
					q.settle()
				}
			}
			exp := uint64(max(0, int64(cur)+o.Wrong))
			err := s.del(o.Door, a, exp)
			want := error(nil)
			switch {
			case cur == 0:
				want = errMissing
			case exp != cur:
				want = errConflict
			default:
				// Subscribers that have not caught up may miss deleted events.
			}
			if err != want {
				s.fail("step %d: deleting over %s a stream at %d, expecting %d: %v", i, o.Door, cur, exp, err)
			}
			if err == nil {
				s.m.Delete(a.Stream)
			}
		case "read":
			s.view(o)
		case "sub":
			s.settle()
			s.subscribe(o)
			s.settle()
		case "race":
			s.race(i, o)
		case "stop":
			s.stop(i, o)
			stops++
		}
	}
	for _, s := range servers {
		s.settle()
		for _, what := range []string{"all", "types", "stream", "ui"} {
			for k := range p.Aggs {
				for _, door := range []string{"http", "grpc"} {
					s.view(ProgOp{What: what, A: k, Door: door, Ext: "json"})
				}
			}
		}
		_ = s.cmd.Process.Signal(os.Interrupt)
		s.gone(false)
		for _, x := range s.subs {
			x.end()
			s.compare(x)
		}
	}
	if len(doors) > 1 && (stops > 0 || p.Backend == "mem") {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C35", "program", pbt.Opt{Quick: 240, Thorough: 6000, Shards: 8,
		Rule: "one or two servers run by the rangedb program, with LevelDB stores of the same or of different names, in memory, or on one PostgreSQL database or an EventStoreDB server each (stand-ins), used over HTTP and gRPC: saves, optimistic saves and deletions with right and wrong expectations, clients racing through both, reads through every door, subscribers over WebSocket and gRPC, the statistics, and servers interrupted or killed, also while a request is being made, and started again; non-trivial when events were saved through both doors and, unless the store was in memory, a server was started again"},
		genProg, runProg)
}
