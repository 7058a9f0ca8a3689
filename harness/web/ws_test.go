package web

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// WClient describes one WebSocket client.
type WClient struct {
	Types []int  `json:"types,omitempty"` // none: all events
	From  string `json:"from"`            // the position asked for; "": none
	Delay int    `json:"delay,omitempty"` // milliseconds per message; -1: stops reading after Stall new messages until the end
	Stall int    `json:"stall,omitempty"`
	Leave int    `json:"leave,omitempty"` // how it leaves: 0 drops the connection, 1 says goodbye, 2 sends a message
}

// WOp is one step.
type WOp struct {
	Op     string       `json:"op"` // save, del, join, leave, sleep, stop
	A      int          `json:"a,omitempty"`
	Ev     []kit.EvSpec `json:"ev,omitempty"`
	Rep    int          `json:"rep,omitempty"`
	S      int          `json:"s,omitempty"`
	N      int          `json:"n,omitempty"`
	Settle bool         `json:"settle,omitempty"`
}

// WPlan is a history of saves and WebSocket clients.
type WPlan struct {
	Backend string    `json:"backend"`
	Types   int       `json:"types"`
	Clients []WClient `json:"clients"`
	Ops     []WOp     `json:"ops"`
}

var wnames = []string{"thing", "other", "t-x", "Z", "none"}

func genW(t *rapid.T) WPlan {
	p := WPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb", "memmp", "ldbmp"}).Draw(t, "backend"), Types: rapid.IntRange(1, 4).Draw(t, "types")}
	p.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WClient {
		s := WClient{
			From:  rapid.SampledFrom([]string{"", "", "0", "1", "2", "3", "5", "8", "13", "100", "18446744073709551615", "01"}).Draw(t, "from"),
			Delay: rapid.SampledFrom([]int{0, 0, 0, 0, 20, 90, 300, -1}).Draw(t, "delay"),
			Leave: rapid.IntRange(0, 2).Draw(t, "leave"),
		}
		if rapid.Bool().Draw(t, "typed") {
			s.Types = rapid.SliceOfN(rapid.IntRange(0, p.Types), 1, 6).Draw(t, "types")
		}
		if rapid.IntRange(0, 9).Draw(t, "bad") == 0 {
			s.From = rapid.SampledFrom([]string{"-1", "x", "18446744073709551616", "1.0", "+1", " ", "0x1", "1_0"}).Draw(t, "badfrom")
		}
		if s.Delay < 0 {
			s.Stall = rapid.IntRange(0, 5).Draw(t, "stall")
		}
		return s
	}), 1, 5).Draw(t, "clients")
	many := rapid.IntRange(0, 3).Draw(t, "many") == 0
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WOp {
		o := WOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "save", "del", "join", "join", "join", "join", "leave", "sleep", "stop"}).Draw(t, "op"), Settle: rapid.Bool().Draw(t, "settle")}
		switch o.Op {
		case "save":
			o.A = rapid.IntRange(0, p.Types-1).Draw(t, "a")
			o.Ev = rapid.SliceOfN(kit.GenEv("unbound", "raw", "unbound"), 1, 4).Draw(t, "ev")
			if many {
				o.Rep = rapid.SampledFrom([]int{1, 5, 20, 60}).Draw(t, "rep")
			}
		case "del":
			o.A = rapid.IntRange(0, p.Types-1).Draw(t, "a")
		case "join", "leave":
			o.S = rapid.IntRange(0, len(p.Clients)-1).Draw(t, "s")
		case "sleep":
			o.N = rapid.SampledFrom([]int{10, 90, 150, 1000}).Draw(t, "ms")
		case "stop":
			if rapid.IntRange(0, 15).Draw(t, "really") > 0 {
				o.Op = "sleep"
				o.N = 100
			}
		}
		return o
	}), 4, 18).Draw(t, "ops")
	return p
}

type wclient struct {
	spec    WClient
	mu      sync.Mutex
	got     []*wire
	gone    error // why the connection ended
	quit    chan struct{}
	conn    *websocket.Conn
	started bool
	left    bool
	leaving bool
	from    uint64
	endLow  int
	want    []*kit.MRec
}

func (s *wclient) slow() bool { return s.spec.Delay != 0 }

func (s *wclient) read(c *pbt.C, name string) {
	for {
		typ, msg, err := s.conn.ReadMessage()
		if err != nil {
			s.mu.Lock()
			s.gone = err
			s.mu.Unlock()
			return
		}
		var w wire
		d := json.NewDecoder(bytes.NewReader(msg))
		d.DisallowUnknownFields()
		if err := d.Decode(&w); err != nil || typ != websocket.TextMessage {
			c.Report("%s: message of type %d %.100q is not a record: %v", name, typ, msg, err)
			return
		}
		s.mu.Lock()
		s.got = append(s.got, &w)
		n := len(s.got)
		s.mu.Unlock()
		if s.spec.Delay < 0 && n >= s.spec.Stall {
			<-s.quit
		} else if s.spec.Delay > 0 {
			time.Sleep(time.Duration(s.spec.Delay) * time.Millisecond)
		}
	}
}

func runW(c *pbt.C, p WPlan) {
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	api, err := rangedbws.New(rangedbws.WithStore(b.Store))
	if err != nil {
		c.Failf("%v", err)
	}
	stopped := false
	stop := func() {
		if !stopped {
			stopped = true
			api.Stop()
		}
	}
	c.Cleanup(stop)
	site := serve(c, api)
	dialer := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return site.lis.Dial() }}
	bg := context.Background()
	m := &kit.Model{}
	loose := strings.HasSuffix(p.Backend, "mp")
	clients := make([]*wclient, len(p.Clients))
	for i, spec := range p.Clients {
		clients[i] = &wclient{spec: spec, quit: make(chan struct{})}
	}
	wants := func(s *wclient, r *kit.MRec) bool {
		for _, t := range s.spec.Types {
			if wnames[t] == r.AType {
				return true
			}
		}
		return len(s.spec.Types) == 0
	}
	deleted := map[*kit.MRec]bool{}
	follow := func(name string, s *wclient, got []*wire) int {
		k := 0
		skip := func(until func() bool) {
			for k < len(s.want) && s.slow() && deleted[s.want[k]] && !until() {
				k++
			}
		}
		for i, w := range got {
			skip(func() bool { return same(s.want[k], w, loose) == nil })
			if k >= len(s.want) {
				c.Failf("%s got %d messages, of at most %d; the first extra one is %d of type %q", name, len(got), len(s.want), w.GlobalSequenceNumber, w.AggregateType)
			}
			if err := same(s.want[k], w, loose); err != nil {
				c.Failf("%s, message %d: %v", name, i+1, err)
			}
			k++
		}
		skip(func() bool { return false })
		return k
	}
	settled := 0
	settle := func() {
		backlog := 40 * time.Second
		for _, s := range clients {
			if s.started && s.spec.Delay > 0 {
				backlog = max(backlog, time.Duration(len(s.want)*s.spec.Delay)*time.Millisecond+10*time.Second)
			}
		}
		time.Sleep(backlog)
		c.Wait()
		settled = len(m.Log())
		for _, s := range clients {
			s.leaving = false
		}
	}
	check := func(when string, all bool) {
		for i, s := range clients {
			if !s.started {
				continue
			}
			name := fmt.Sprintf("%s: store %s, client %d (%+v)", when, p.Backend, i, s.spec)
			s.mu.Lock()
			got, gone := append([]*wire(nil), s.got...), s.gone
			s.mu.Unlock()
			pos := follow(name, s, got)
			if !all || s.spec.Delay < 0 && len(got) > 0 && len(got) >= s.spec.Stall {
				continue
			}
			need := len(s.want)
			if s.left {
				need = s.endLow
			}
			switch {
			case s.left && !s.slow() && pos < need && !stopped:
				c.Failf("%s got %d messages of %d before it left", name, len(got), need)
			case s.left:
			case stopped && gone == nil:
				c.Failf("%s: the server was stopped, but the connection stays open", name)
			case stopped:
			case pos < need && gone == nil:
				c.Failf("%s got %d messages of %d, then nothing more on an open connection; the first missing one is %d of type %q", name, len(got), need, s.want[pos].GSN, s.want[pos].AType)
			case pos < need && !s.slow():
				c.Failf("%s got %d messages of %d, though it reads every one at once (%v)", name, len(got), need, gone)
			case pos < need:
				c.Class("dropped")
			}
		}
	}
	for i, o := range p.Ops {
		when := fmt.Sprintf("after step %d (%s)", i, o.Op)
		switch o.Op {
		case "save":
			ty := wnames[o.A]
			var recs []*rangedb.EventRecord
			var specs []kit.EvSpec
			for k := 0; k < max(o.Rep, 1); k++ {
				for _, e := range o.Ev {
					specs = append(specs, e)
					recs = append(recs, e.Record(ty, "id"))
				}
			}
			b.Clock.Set(int64(i + 1))
			if _, err := b.Store.Save(bg, ty+"!id", recs...); err != nil {
				c.Failf("%s: %v", when, err)
			}
			for _, r := range m.Append(ty+"!id", ty, "id", uint64(i+1), specs) {
				for _, s := range clients {
					if s.started && (!s.left || s.leaving) && !stopped && wants(s, r) && r.GSN >= s.from {
						s.want = append(s.want, r)
					}
				}
			}
		case "del":
			stream := wnames[o.A] + "!id"
			if n := m.Len(stream); n > 0 {
				if err := b.Store.OptimisticDeleteStream(bg, n, stream); err != nil {
					c.Failf("%s: %v", when, err)
				}
				for _, r := range m.Stream(stream, 0) {
					deleted[r] = true
				}
				m.Delete(stream)
				settle()
			}
		case "join":
			s := clients[o.S]
			if s.started || s.left || stopped {
				continue
			}
			settle()
			u := "ws://site/events"
			if len(s.spec.Types) > 0 {
				var names []string
				for _, t := range s.spec.Types {
					names = append(names, wnames[t])
				}
				u += "/" + strings.Join(names, ",")
			}
			bad := false
			if s.spec.From != "" {
				u += "?global-sequence-number=" + url.QueryEscape(s.spec.From)
				s.from, err = strconv.ParseUint(s.spec.From, 10, 64)
				bad = err != nil
			}
			conn, resp, err := dialer.Dial(u, nil)
			if bad {
				if err == nil || resp == nil || resp.StatusCode != http.StatusBadRequest {
					c.Failf("%s: position %q was not refused (%v)", when, s.spec.From, err)
				}
				c.Class("refused")
				s.left = true
				continue
			}
			if err != nil {
				c.Failf("%s: %s: %v", when, u, err)
			}
			s.conn, s.started = conn, true
			c.Cleanup(func() {
				select {
				case <-s.quit:
				default:
					close(s.quit)
				}
				_ = conn.Close()
			})
			for _, r := range m.All(s.from) {
				if wants(s, r) {
					s.want = append(s.want, r)
				}
			}
			if len(s.want) > 0 {
				c.Class("catches up")
			}
			// A read holds the store's lock until it is over: a client that stops
			// reading while it catches up would keep every writer out.
			s.spec.Stall += len(s.want)
			go s.read(c, when)
			time.Sleep(time.Duration(max(0, s.spec.Delay)*len(s.want)) * time.Millisecond)
			c.Wait()
		case "leave":
			s := clients[o.S]
			if !s.started || s.left || stopped {
				continue
			}
			s.left, s.leaving = true, true
			for s.endLow = len(s.want); s.endLow > 0 && int(s.want[s.endLow-1].GSN) > settled; s.endLow-- {
			}
			switch s.spec.Leave {
			case 1:
				_ = s.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
			case 2:
				_ = s.conn.SetWriteDeadline(time.Now().Add(time.Second))
				_ = s.conn.WriteMessage(websocket.TextMessage, []byte("bye"))
			default:
				_ = s.conn.Close()
			}
			if s.spec.Leave > 0 {
				settle()
			}
			c.Class("left")
		case "stop":
			stop()
			c.Class("stopped")
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
		if o.Settle {
			settle()
		}
		c.Check()
		if text := site.panics(); text != "" {
			c.Failf("%s: %s", when, text)
		}
		check(when, o.Settle)
	}
	settle()
	check("at the end", true)
	for i, s := range clients {
		if !s.started || s.spec.Delay >= 0 {
			continue
		}
		select {
		case <-s.quit:
			continue
		default:
			close(s.quit)
		}
		settle()
		name := fmt.Sprintf("store %s, client %d (%+v), reading on at the end", p.Backend, i, s.spec)
		s.mu.Lock()
		got, gone := append([]*wire(nil), s.got...), s.gone
		s.mu.Unlock()
		pos := follow(name, s, got)
		if pos < len(s.want) && !s.left && gone == nil {
			c.Failf("%s got %d messages of %d on a connection that stays open", name, len(got), len(s.want))
		}
		if pos < len(s.want) {
			c.Class("overflowed")
		}
	}
	for _, s := range clients {
		if len(s.got) > 1 {
			c.NonTrivial()
		}
	}
}

// JPlan has clients join while writers save.
type JPlan struct {
	Backend string  `json:"backend"`
	Before  int     `json:"before"`
	Writers [][]JOp `json:"writers"`
	Clients []JOp   `json:"clients"`
}

// JOp is a save of N events of type A, or a client joining at position N for the types in Types; it waits Wait milliseconds before.
type JOp struct {
	A     int   `json:"a,omitempty"`
	N     int   `json:"n"`
	Types []int `json:"types,omitempty"`
	Wait  int   `json:"wait,omitempty"`
}

func genJ(t *rapid.T) JPlan {
	p := JPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"), Before: rapid.IntRange(0, 30).Draw(t, "before")}
	wait := rapid.SampledFrom([]int{0, 0, 0, 0, 1})
	p.Writers = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) JOp {
		return JOp{A: rapid.IntRange(0, 2).Draw(t, "a"), N: rapid.IntRange(1, 4).Draw(t, "n"), Wait: wait.Draw(t, "wait")}
	}), 1, 12), 1, 3).Draw(t, "writers")
	p.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) JOp {
		o := JOp{N: rapid.IntRange(0, 40).Draw(t, "from"), Wait: wait.Draw(t, "wait")}
		if rapid.Bool().Draw(t, "typed") {
			o.Types = rapid.SliceOfN(rapid.IntRange(0, 2), 1, 5).Draw(t, "types")
		}
		return o
	}), 1, 4).Draw(t, "clients")
	return p
}

func runJ(c *pbt.C, p JPlan) {
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	api, err := rangedbws.New(rangedbws.WithStore(b.Store))
	if err != nil {
		c.Failf("%v", err)
	}
	c.Cleanup(api.Stop)
	site := serve(c, api)
	dialer := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return site.lis.Dial() }}
	save := func(a, n int) {
		var recs []*rangedb.EventRecord
		for k := 0; k < n; k++ {
			recs = append(recs, kit.EvSpec{Kind: "unbound", Num: int64(k)}.Record(wnames[a], "id"))
		}
		if _, err := b.Store.Save(c0, wnames[a]+"!id", recs...); err != nil {
			c.Report("save: %v", err)
		}
	}
	if p.Before > 0 {
		save(0, p.Before)
	}
	var wg sync.WaitGroup
	for _, ops := range p.Writers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				time.Sleep(time.Duration(o.Wait) * time.Millisecond)
				save(o.A, o.N)
			}
		}()
	}
	clients := make([]*wclient, len(p.Clients))
	for i, o := range p.Clients {
		clients[i] = &wclient{quit: make(chan struct{})}
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(o.Wait) * time.Millisecond)
			u := "ws://site/events"
			var names []string
			for _, t := range o.Types {
				names = append(names, wnames[t])
			}
			if len(names) > 0 {
				u += "/" + strings.Join(names, ",")
			}
			conn, _, err := dialer.Dial(fmt.Sprintf("%s?global-sequence-number=%d", u, o.N), nil)
			if err != nil {
				c.Report("client %d: %v", i, err)
				return
			}
			clients[i].conn = conn
			go clients[i].read(c, fmt.Sprintf("client %d", i))
		}()
	}
	wg.Wait()
	c.Check()
	time.Sleep(30 * time.Second)
	c.Wait()
	c.Check()
	recs, err := kit.Drain(b.Store.Events(c0, 0))
	if err != nil {
		c.Failf("%v", err)
	}
	for i, o := range p.Clients {
		s := clients[i]
		defer s.conn.Close()
		var want []uint64
		for _, r := range recs {
			match := len(o.Types) == 0
			for _, t := range o.Types {
				match = match || wnames[t] == r.AggregateType
			}
			if match && r.GlobalSequenceNumber >= uint64(o.N) {
				want = append(want, r.GlobalSequenceNumber)
			}
		}
		s.mu.Lock()
		var got []uint64
		for _, w := range s.got {
			got = append(got, w.GlobalSequenceNumber)
		}
		gone := s.gone
		s.mu.Unlock()
		for k, g := range got {
			if k >= len(want) || want[k] != g {
				c.Failf("store %s, client %d (from %d, types %v) got %v, expected %v", p.Backend, i, o.N, o.Types, got, want)
			}
		}
		if len(got) < len(want) && gone == nil {
			c.Failf("store %s, client %d (from %d, types %v) got %v and nothing more, expected %v", p.Backend, i, o.N, o.Types, got, want)
		}
		if len(got) > p.Before && p.Before > o.N {
			c.NonTrivial()
		}
		if gone != nil {
			c.Class("dropped")
		}
	}
}

func init() {
	pbt.Reg("C20", "joins", pbt.Opt{Quick: 4000, Thorough: 100000, Shards: 8, Bubble: true,
		Rule: "clients join the feeds, from any position, while up to three writers save concurrently (fake clock); non-trivial when a client got both events stored before and events saved meanwhile"},
		genJ, runJ)
	pbt.Reg("C20", "feeds", pbt.Opt{Quick: 4000, Thorough: 100000, Shards: 8, Bubble: true,
		Rule: "a history of saves (up to 240 events at once), deletions and WebSocket clients of the events and aggregate-types feeds joining with any position, right or malformed, whose readers are immediate, slow or stop reading, and that leave in different ways, or lose their server (fake clock, in-process network without buffers); non-trivial when a client got more than one event"},
		genW, runW)
}
