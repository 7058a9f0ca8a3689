package web

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbserver"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"github.com/inklabs/rangedb/provider/inmemorystore"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// ToolOp is a step in the life of command line tools.
type ToolOp struct {
	Op    string       `json:"op"` // save, sub, cut, away, gen, int
	A     int          `json:"a,omitempty"`
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Kind  string       `json:"kind,omitempty"`  // of sub: grpc or ws
	Types []int        `json:"types,omitempty"` // of sub
	Sub   int          `json:"sub,omitempty"`   // of int
	After int          `json:"after,omitempty"` // of cut: bytes that the next connections still bring; 0: cut now
	Wait  bool         `json:"wait,omitempty"`  // of cut: let the subscribers get everything first
	Type  string       `json:"type,omitempty"`  // of gen
	Max   int          `json:"max,omitempty"`
	Total int          `json:"total,omitempty"`
}

// ToolPlan is a history of a server and its tools.
type ToolPlan struct {
	Aggs []kit.Agg `json:"aggs"`
	Ops  []ToolOp  `json:"ops"`
}

var toolEvents = map[string]string{"ThingWasDone": "thing", "ThatWasDone": "that", "AnotherWasComplete": "another"}

func genTools(t *rapid.T) ToolPlan {
	p := ToolPlan{}
	for i, typ := range []string{"thing", "that", "order"}[:rapid.IntRange(1, 3).Draw(t, "aggs")] {
		p.Aggs = append(p.Aggs, kit.Agg{Stream: fmt.Sprintf("%s!%d", typ, i), Type: typ, ID: strconv.Itoa(i)})
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) ToolOp {
		o := ToolOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "sub", "sub", "cut", "cut", "away", "gen", "int"}).Draw(t, "op")}
		switch o.Op {
		case "save":
			o.A = rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")
			o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 8).Draw(t, "ev")
		case "sub":
			o.Kind = rapid.SampledFrom([]string{"grpc", "grpc", "ws"}).Draw(t, "kind")
			o.Types = rapid.SliceOfNDistinct(rapid.IntRange(0, 3), 0, 2, rapid.ID[int]).Draw(t, "types")
		case "int":
			o.Sub = rapid.IntRange(0, 3).Draw(t, "sub")
		case "cut":
			o.After = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 8, 13}).Draw(t, "after") * rapid.IntRange(1, 60).Draw(t, "times")
			o.Wait = rapid.Bool().Draw(t, "wait")
		case "gen":
			o.Type = rapid.SampledFrom([]string{"ThingWasDone", "ThatWasDone", "AnotherWasComplete"}).Draw(t, "type")
			o.Max = rapid.IntRange(1, 12).Draw(t, "max")
			o.Total = rapid.IntRange(0, 40).Draw(t, "total")
		}
		return o
	}), 3, 12).Draw(t, "ops")
	return p
}

var (
	toolsOnce sync.Once
	toolsDir  string
	toolsErr  error
)

func tool(name string) string {
	toolsOnce.Do(func() {
		toolsDir = filepath.Join(os.Getenv("PBT_WORK"), "tools")
		cmd := exec.Command("go", "build", "-ldflags=-s -w", "-o", toolsDir+"/", "github.com/inklabs/rangedb/cmd/grpc-event-subscriber",
			"github.com/inklabs/rangedb/cmd/ws-event-subscriber", "github.com/inklabs/rangedb/cmd/gen-random-events")
		cmd.Dir = os.Getenv("PBT_HARNESS")
		if out, err := cmd.CombinedOutput(); err != nil {
			toolsErr = fmt.Errorf("building the tools: %v\n%s", err, out)
		}
	})
	if toolsErr != nil {
		panic(toolsErr)
	}
	return filepath.Join(toolsDir, name)
}

// runner is a tool that runs.
type runner struct {
	kind   string
	types  []string
	cmd    *exec.Cmd
	mu     sync.Mutex
	lines  []string
	errs   bytes.Buffer
	ended  chan struct{}
	err    error
	broken bool // its connection was or may have been broken
	over   bool // judged
}

func (r *runner) Write(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.errs.Len() < 1<<16 {
		r.errs.Write(b)
	}
	return len(b), nil
}

func (r *runner) text() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	s := r.errs.String()
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func startTool(dir, kind string, types []string, name string, args ...string) *runner {
	r := &runner{kind: kind, types: types, ended: make(chan struct{})}
	r.cmd = exec.Command(tool(name), args...)
	r.cmd.Dir = dir
	r.cmd.Env = []string{"HOME=" + dir, "TMPDIR=" + dir, "PATH=" + os.Getenv("PATH")}
	r.cmd.Stderr = r
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := r.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := r.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		in := bufio.NewReader(out)
		for {
			l, err := in.ReadString('\n')
			if err != nil {
				break
			}
			r.mu.Lock()
			r.lines = append(r.lines, strings.TrimSuffix(l, "\n"))
			r.mu.Unlock()
		}
		r.err = r.cmd.Wait()
		close(r.ended)
	}()
	return r
}

func (r *runner) alive() bool {
	select {
	case <-r.ended:
		return false
	default:
		return true
	}
}

// events are the printed ones.
func (r *runner) events() (recs []*rangedbpb.Record, docs []*wire, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i, l := range r.lines {
		if r.kind == "ws" {
			if !strings.HasPrefix(l, "{") {
				if i > 1 && l != "Shutting down" {
					return nil, nil, fmt.Errorf("printed %.200q", l)
				}
				continue
			}
			d := json.NewDecoder(strings.NewReader(l))
			d.UseNumber()
			v := &wire{}
			if err := d.Decode(v); err != nil {
				return nil, nil, fmt.Errorf("printed %.200q: %v", l, err)
			}
			docs = append(docs, v)
			continue
		}
		if l == "" || l == "gRPC Event Subscriber" || l == "Connection ended" || strings.HasPrefix(l, "Subscribing to") || strings.HasPrefix(l, "Dialing") {
			continue
		}
		v := &rangedbpb.Record{}
		if err := prototext.Unmarshal([]byte(l), v); err != nil {
			return nil, nil, fmt.Errorf("printed %.200q: %v", l, err)
		}
		recs = append(recs, v)
	}
	return recs, docs, nil
}

func (r *runner) count() int {
	a, b, _ := r.events()
	return len(a) + len(b)
}

// compare says how what was printed differs from the events there are; part if later ones may be missing.
func (r *runner) compare(log []*rangedb.Record, part bool) error {
	var want []*rangedb.Record
	for _, x := range log {
		if len(r.types) == 0 || slices.Contains(r.types, x.AggregateType) {
			want = append(want, x)
		}
	}
	recs, docs, err := r.events()
	if err != nil {
		return err
	}
	var got []uint64
	for i, x := range recs {
		got = append(got, x.GlobalSequenceNumber)
		if i < len(want) && x.GlobalSequenceNumber == want[i].GlobalSequenceNumber {
			pb, err := rangedbpb.ToPbRecord(want[i])
			if err != nil {
				return err
			}
			if !proto.Equal(pb, x) {
				return fmt.Errorf("printed %v for %v", x, pb)
			}
		}
	}
	for i, x := range docs {
		got = append(got, x.GlobalSequenceNumber)
		if i < len(want) && x.GlobalSequenceNumber == want[i].GlobalSequenceNumber {
			w := want[i]
			if x.StreamName != w.StreamName || x.AggregateType != w.AggregateType || x.AggregateID != w.AggregateID || x.StreamSequenceNumber != w.StreamSequenceNumber || x.EventID != w.EventID || x.EventType != w.EventType || x.InsertTimestamp != w.InsertTimestamp {
				return fmt.Errorf("printed %+v for %+v", x, w)
			}
			if err := kit.SameJSON("data", w.Data, x.Data); err != nil {
				return err
			}
		}
	}
	var exp []uint64
	for _, x := range want {
		exp = append(exp, x.GlobalSequenceNumber)
	}
	if part && len(got) <= len(exp) {
		exp = exp[:len(got)]
	}
	if !slices.Equal(got, exp) {
		return fmt.Errorf("printed the events %v instead of %v", got, exp)
	}
	return nil
}

func runTools(c *pbt.C, p ToolPlan) {
	ctx := context.Background()
	dir, err := os.MkdirTemp(os.Getenv("PBT_WORK"), "tools-run")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	store := inmemorystore.New()
	kit.Bind(store)
	rs, err := rangedbserver.New(rangedbserver.WithStore(store))
	if err != nil {
		panic(err)
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	gs := grpc.NewServer()
	rangedbpb.RegisterRangeDBServer(gs, rs)
	go func() { _ = gs.Serve(lis) }()
	api, err := rangedbws.New(rangedbws.WithStore(store))
	if err != nil {
		panic(err)
	}
	wlis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	mux := http.NewServeMux()
	mux.Handle("/ws/", http.StripPrefix("/ws", api))
	hs := &http.Server{Handler: mux}
	go func() { _ = hs.Serve(wlis) }()
	rpc, web := kit.NewCable(lis.Addr().String()), kit.NewCable(wlis.Addr().String())
	var tools []*runner
	c.Cleanup(func() {
		for _, r := range tools {
			_ = r.cmd.Process.Kill()
			<-r.ended
		}
		for _, w := range []*kit.Cable{rpc, web} {
			w.Close()
		}
		_ = rs.Stop()
		gs.Stop()
		_ = hs.Close()
		api.Stop()
	})
	all := func() []*rangedb.Record {
		log, err := kit.Drain(store.Events(ctx, 0))
		if err != nil {
			c.Failf("reading the store: %v", err)
		}
		return log
	}
	names := []string{"thing", "that", "another", "order"}
	// settle waits until the tools have printed everything.
	settle := func() {
		log := all()
		for i, r := range tools {
			if r.over || r.kind == "ws" && r.broken {
				continue
			}
			n := 0
			for _, x := range log {
				if len(r.types) == 0 || slices.Contains(r.types, x.AggregateType) {
					n++
				}
			}
			end := time.Now().Add(pbt.Patience(60 * time.Second))
			for r.count() < n && r.alive() && time.Now().Before(end) {
				time.Sleep(2 * time.Millisecond)
			}
			c.Alive()
			if !r.alive() {
				c.Failf("%s subscriber %d (types %q) ended: %v; it wrote: %s", r.kind, i, r.types, r.err, r.text())
			}
			if err := r.compare(log, false); err != nil {
				c.Failf("%s subscriber %d (types %q): %v; it wrote: %s", r.kind, i, r.types, err, r.text())
			}
		}
	}
	// broken marks the tools whose connection breaks, or may.
	broken := func() {
		for _, r := range tools {
			r.broken = true
		}
	}
	ends := func(i int, r *runner, interrupt bool) {
		end := time.Now().Add(pbt.Patience(60 * time.Second))
		for r.alive() && time.Now().Before(end) {
			if interrupt {
				// Again, as one may come before it is waited for.
				_ = r.cmd.Process.Signal(os.Interrupt)
			}
			select {
			case <-r.ended:
			case <-time.After(200 * time.Millisecond):
			}
		}
		if r.alive() {
			c.Failf("%s subscriber %d goes on (interrupted: %v); it wrote: %s", r.kind, i, interrupt, r.text())
		}
		r.over = true
		if err := r.compare(all(), true); err != nil {
			c.Failf("%s subscriber %d (types %q): %v; it wrote: %s", r.kind, i, r.types, err, r.text())
		}
	}
	again, cuts, grpcs := 0, 0, 0
	for _, o := range p.Ops {
		c.Alive()
		switch o.Op {
		case "save":
			a := p.Aggs[o.A%len(p.Aggs)]
			var recs []*rangedb.EventRecord
			for _, e := range o.Ev {
				recs = append(recs, e.Record(a.Type, a.ID))
			}
			if _, err := store.Save(ctx, a.Stream, recs...); err != nil {
				c.Failf("Save: %v", err)
			}
			if cuts > 0 && grpcs > 0 {
				again++
			}
		case "sub":
			if len(tools) >= 4 {
				continue
			}
			var typ []string
			for _, i := range o.Types {
				typ = append(typ, names[i])
			}
			var args []string
			if len(typ) > 0 {
				args = append(args, "-aggregateTypes", strings.Join(typ, ","))
			}
			if o.Kind == "ws" {
				n := web.Made()
				r := startTool(dir, "ws", typ, "ws-event-subscriber", append(args, "-host", web.Addr())...)
				tools = append(tools, r)
				for end := time.Now().Add(pbt.Patience(60 * time.Second)); time.Now().Before(end) && r.alive(); time.Sleep(time.Millisecond) {
					if web.Made() > n {
						break
					}
				}
			} else {
				tools = append(tools, startTool(dir, "grpc", typ, "grpc-event-subscriber", append(args, "-host", rpc.Addr())...))
				grpcs++
			}
		case "cut":
			if o.Wait {
				settle()
			}
			broken()
			if o.After > 0 {
				// what a connection takes before the first record is about 60 bytes
				rpc.Limit(60 + o.After)
			}
			rpc.Cut()
			web.Cut()
			cuts++
		case "away":
			broken()
			rpc.Away(true)
			web.Cut()
			time.Sleep(20 * time.Millisecond)
			rpc.Away(false)
			cuts++
			c.Class("server away")
		case "int":
			if o.Sub < len(tools) && !tools[o.Sub].over && !(tools[o.Sub].kind == "ws" && tools[o.Sub].broken) {
				ends(o.Sub, tools[o.Sub], true)
			}
		case "gen":
			rpc.Mend()
			before := len(all())
			r := startTool(dir, "gen", nil, "gen-random-events", "-host", lis.Addr().String(), "-eventType", o.Type, "-maxPerStream", strconv.Itoa(o.Max), "-total", strconv.Itoa(o.Total))
			select {
			case <-r.ended:
			case <-time.After(pbt.Patience(60 * time.Second)):
				_ = r.cmd.Process.Kill()
				<-r.ended
				c.Failf("gen-random-events goes on after a minute: %q, %s", r.lines, r.text())
			}
			if r.err != nil {
				c.Failf("gen-random-events: %v: %s", r.err, r.text())
			}
			made := all()[before:]
			if len(made) != o.Total {
				c.Failf("gen-random-events was to generate %d events and generated %d", o.Total, len(made))
			}
			per := map[string]uint64{}
			for _, x := range made {
				per[x.StreamName]++
				if x.EventType != o.Type || x.StreamSequenceNumber != per[x.StreamName] || per[x.StreamName] > uint64(o.Max) {
					c.Failf("gen-random-events generated %+v", x)
				}
			}
			if s := fmt.Sprintf("Saved %d events", len(made)); o.Total > 0 && !strings.HasSuffix(slices.DeleteFunc(slices.Clone(r.lines), func(l string) bool { return !strings.Contains(l, "Saved") })[0], s) {
				c.Failf("gen-random-events saved %d events and wrote %q", len(made), r.lines)
			}
			c.Class("generated")
		}
	}
	rpc.Mend()
	settle()
	for i, r := range tools {
		if r.over {
			continue
		}
		if r.kind == "ws" && r.broken {
			ends(i, r, false)
			continue
		}
		ends(i, r, true)
		if err := r.compare(all(), false); err != nil {
			c.Failf("%s subscriber %d (types %q): %v", r.kind, i, r.types, err)
		}
	}
	if again > 0 {
		c.NonTrivial()
	}
}

func init() {
	pbt.Reg("C37", "tools", pbt.Opt{Quick: 300, Thorough: 8000, Shards: 8,
		Rule: "the programs grpc-event-subscriber, ws-event-subscriber and gen-random-events on a server: saves, subscribers of all or some types, connections broken at once or after any number of bytes, a server that is away, generated events, and interrupts; non-trivial when events were saved after a connection of a gRPC subscriber was broken"},
		genTools, runTools)
}
