package web

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/provider/msgpackrecordiostream"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// site is an HTTP server over an in-process network.
type site struct {
	client *http.Client
	lis    *network
	mu     sync.Mutex
	log    bytes.Buffer
}

func (s *site) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.log.Write(b)
}

func (s *site) panics() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if t := s.log.String(); strings.Contains(t, "panic") {
		return t
	}
	return ""
}

func serve(c *pbt.C, h http.Handler) *site {
	s := &site{lis: newNetwork()}
	srv := &http.Server{Handler: h, ErrorLog: log.New(s, "", 0)}
	go func() { _ = srv.Serve(s.lis) }()
	tr := &http.Transport{
		DialContext:        func(context.Context, string, string) (net.Conn, error) { return s.lis.Dial() },
		DisableCompression: true,
	}
	s.client = &http.Client{Transport: tr, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	c.Cleanup(func() { tr.CloseIdleConnections(); _ = srv.Close(); _ = s.lis.Close() })
	return s
}

// answer is a response read to its end.
type answer struct {
	code int
	typ  string
	body []byte
	err  error // the response did not come, or broke off
}

func (a *answer) ok() bool { return a.err == nil && a.code >= 200 && a.code < 300 }

func (s *site) do(method string, u *url.URL, head map[string]string, body []byte) *answer {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, "http://site/", rd)
	if err != nil {
		return &answer{err: err}
	}
	u.Scheme, u.Host = "http", "site"
	req.URL = u
	for k, v := range head {
		if v != "" {
			req.Header.Set(k, v)
		}
	}
	resp, err := s.client.Do(req)
	if err != nil {
		return &answer{err: err}
	}
	defer resp.Body.Close()
	a := &answer{code: resp.StatusCode, typ: resp.Header.Get("Content-Type")}
	a.body, a.err = io.ReadAll(resp.Body)
	if a.err == nil {
		switch resp.Header.Get("Content-Encoding") {
		case "gzip":
			z, err := gzip.NewReader(bytes.NewReader(a.body))
			if err != nil {
				a.err = err
				break
			}
			a.body, a.err = io.ReadAll(z)
		case "deflate":
			a.body, a.err = io.ReadAll(flate.NewReader(bytes.NewReader(a.body)))
		}
	}
	return a
}

// wire is a record as the HTTP API and the WebSocket feeds write it.
type wire struct {
	StreamName           string
	AggregateType        string
	AggregateID          string
	GlobalSequenceNumber uint64
	StreamSequenceNumber uint64
	InsertTimestamp      uint64
	EventID              string
	EventType            string
	Data                 json.RawMessage
	Metadata             json.RawMessage
}

// texts turns every number into text.
func texts(v any) any {
	switch x := v.(type) {
	case json.Number:
		return x.String()
	case []any:
		for i := range x {
			x[i] = texts(x[i])
		}
	case map[string]any:
		for k := range x {
			x[k] = texts(x[k])
		}
	}
	return v
}

func asTexts(v any) (any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	err = d.Decode(&x)
	return texts(x), err
}

// payload is the data that was saved.
func payload(r *kit.MRec) any {
	switch e := r.Spec.Event(r.AType, r.AID).(type) {
	case interface{ EventData() any }:
		return e.EventData()
	default:
		if r.Spec.Kind == "null" {
			return nil
		}
		if r.Spec.Kind == "raw" {
			b, _ := json.Marshal(e)
			var x any
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			_ = d.Decode(&x)
			return x
		}
		return e
	}
}

// same judges a record that came over the wire. With loose numbers may have become text.
func same(r *kit.MRec, w *wire, loose bool) error {
	if w.StreamName != r.Stream || w.AggregateType != r.AType || w.AggregateID != r.AID || w.GlobalSequenceNumber != r.GSN || w.StreamSequenceNumber != r.SSN || w.InsertTimestamp != r.TS || w.EventType != r.Spec.EventType() {
		return fmt.Errorf("got record %+v, expected global %d of stream %q, type %q, id %q, stream number %d, time %d, event type %q", *w, r.GSN, r.Stream, r.AType, r.AID, r.SSN, r.TS, r.Spec.EventType())
	}
	if w.EventID == "" || r.EventID != "" && r.EventID != w.EventID {
		return fmt.Errorf("record %d has event ID %q, earlier %q", r.GSN, w.EventID, r.EventID)
	}
	r.EventID = w.EventID
	for _, x := range []struct {
		what string
		want any
		got  json.RawMessage
	}{{"data", payload(r), w.Data}, {"metadata", r.Spec.Metadata(), w.Metadata}} {
		want, got := x.want, any(x.got)
		if loose {
			var err error
			if want, err = asTexts(want); err != nil {
				return err
			}
			if got, err = asTexts(got); err != nil {
				return err
			}
		}
		if err := kit.SameJSON(fmt.Sprintf("%s of record %d", x.what, r.GSN), want, got); err != nil {
			return err
		}
	}
	return nil
}

// parse reads the records of a response; it reports damage as an error.
func parse(ext string, body []byte) ([]*wire, error) {
	var out []*wire
	switch ext {
	case "json":
		if err := json.Unmarshal(body, &out); err != nil {
			return nil, fmt.Errorf("response is not JSON: %v", err)
		}
		if out == nil {
			return nil, fmt.Errorf("response is %.40q", body)
		}
	case "ndjson":
		d := json.NewDecoder(bytes.NewReader(body))
		for {
			var w wire
			if err := d.Decode(&w); err == io.EOF {
				break
			} else if err != nil {
				return nil, fmt.Errorf("line %d of the response is not JSON: %v", len(out)+1, err)
			}
			out = append(out, &w)
		}
		if n := bytes.Count(bytes.TrimRight(body, "\n"), []byte("\n")) + 1; len(out) > 0 && n != len(out) {
			return nil, fmt.Errorf("%d records on %d lines", len(out), n)
		}
	case "msgpack":
		it := msgpackrecordiostream.New().Read(base64.NewDecoder(base64.RawStdEncoding, bytes.NewReader(body)))
		recs, err := kit.Drain(it)
		if err != nil {
			return nil, err
		}
		for _, r := range recs {
			b, err := json.Marshal(r)
			if err != nil {
				return nil, err
			}
			var w wire
			if err := json.Unmarshal(b, &w); err != nil {
				return nil, err
			}
			out = append(out, &w)
		}
	}
	return out, nil
}

func sameAll(what, ext string, want []*kit.MRec, a *answer) error {
	types := map[string]string{"json": "application/json", "ndjson": "application/json; boundary=LF", "msgpack": "application/msgpack"}
	if !a.ok() {
		return fmt.Errorf("%s: status %d, %v: %.100q", what, a.code, a.err, a.body)
	}
	if a.typ != types[ext] {
		return fmt.Errorf("%s: content type %q", what, a.typ)
	}
	got, err := parse(ext, a.body)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	for i, w := range got {
		if i >= len(want) {
			return fmt.Errorf("%s: %d records instead of %d", what, len(got), len(want))
		}
		if err := same(want[i], w, ext == "msgpack"); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
	}
	if len(got) < len(want) {
		return fmt.Errorf("%s: %d records instead of %d", what, len(got), len(want))
	}
	return nil
}

// APIOp is one request.
type APIOp struct {
	Op    string       `json:"op"` // post, store, del, all, types, stream, list, race
	A     int          `json:"a"`
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Exp   string       `json:"exp,omitempty"` // "": none; "+n" added to the right number; otherwise the header
	Bad   string       `json:"bad,omitempty"` // what is wrong with the request
	At    int          `json:"at,omitempty"`
	Ext   string       `json:"ext,omitempty"`
	Zip   string       `json:"zip,omitempty"`
	Meth  string       `json:"meth,omitempty"`
	Types []int        `json:"types,omitempty"`
	Fault bool         `json:"fault,omitempty"` // the store fails
	After int          `json:"after,omitempty"`
	Late  bool         `json:"late,omitempty"`
}

// APIPlan is a history of requests.
type APIPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []APIOp   `json:"ops"`
}

func genAPI(faults bool) func(t *rapid.T) APIPlan {
	return func(t *rapid.T) APIPlan {
		p := APIPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "memmp", "ldb", "ldbmp"}).Draw(t, "backend")}
		p.Aggs = kit.GenAggs(1, 4, rapid.Bool().Draw(t, "wild")).Draw(t, "aggs")
		ops := []string{"post", "post", "post", "post", "store", "del", "del", "all", "types", "stream", "stream", "list", "race", "crowd"}
		if faults {
			ops = []string{"post", "store", "store", "del", "all", "all", "types", "types", "stream", "stream"}
		}
		p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) APIOp {
			o := APIOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"),
				Ext: rapid.SampledFrom([]string{"json", "ndjson", "msgpack"}).Draw(t, "ext"),
				Zip: rapid.SampledFrom([]string{"", "", "gzip", "deflate"}).Draw(t, "zip")}
			switch o.Op {
			case "post", "store", "race":
				o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 4).Draw(t, "ev")
			case "crowd":
				o.At = rapid.SampledFrom([]int{3, 10, 20, 60, 150}).Draw(t, "crowd")
			case "types":
				o.Types = rapid.SliceOfN(rapid.IntRange(0, len(p.Aggs)), 1, 5).Draw(t, "types")
			}
			if o.Op == "post" || o.Op == "del" {
				o.Exp = rapid.SampledFrom([]string{"", "+0", "+0", "+0", "+1", "+-1", "+100", "-1", "x", "18446744073709551616", "18446744073709551615", "1e3", "0x1"}).Draw(t, "exp")
			}
			if o.Op == "post" {
				o.Bad = rapid.SampledFrom([]string{"", "", "", "", "", "", "cut", "tail", "second", "object", "number", "type", "aggtype", "aggid", "null", "nulls", "empty", "nobody", "typo"}).Draw(t, "bad")
				o.At = rapid.IntRange(0, 1000).Draw(t, "at")
			}
			if faults {
				o.Fault = o.Op != "store" && rapid.Bool().Draw(t, "fault")
				o.After = rapid.IntRange(0, 5).Draw(t, "after")
				o.Late = rapid.Bool().Draw(t, "late")
			}
			return o
		}), 3, 16).Draw(t, "ops")
		return p
	}
}

// addressable says whether a stream name fits in a path segment.
func addressable(name string) bool {
	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/") && utf8.ValidString(name)
}

func typeAddressable(name string) bool {
	for _, r := range name {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '-') {
			return false
		}
	}
	return name != ""
}

type postEvent struct {
	AggregateType string      `json:"aggregateType"`
	AggregateID   string      `json:"aggregateID"`
	EventType     string      `json:"eventType"`
	Data          interface{} `json:"data"`
	Metadata      interface{} `json:"metadata"`
}

func body(a kit.Agg, specs []kit.EvSpec) []postEvent {
	var out []postEvent
	for _, e := range specs {
		r := &kit.MRec{AType: a.Type, AID: a.ID, Spec: e}
		out = append(out, postEvent{a.Type, a.ID, e.EventType(), payload(r), e.Metadata()})
	}
	return out
}

func runAPI(c *pbt.C, p APIPlan) {
	// The served store knows no event types, as that of cmd/rangedb.
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	f := &kit.Faulty{Store: b.Store}
	api, err := rangedbapi.New(rangedbapi.WithStore(f), rangedbapi.WithBaseUri("http://base"))
	if err != nil {
		c.Failf("%v", err)
	}
	s := serve(c, api)
	m := &kit.Model{}
	bg := context.Background()
	n := map[string]int{}
	mayAbort := false
	for i, o := range p.Ops {
		a := p.Aggs[o.A]
		what := fmt.Sprintf("request %d (%s) on %s", i, o.Op, p.Backend)
		now := uint64(i + 1)
		b.Clock.Set(int64(now))
		cur := m.Len(a.Stream)
		exp, expOK, expRight := o.Exp, true, true
		var expN uint64
		if strings.HasPrefix(exp, "+") {
			d, _ := strconv.ParseInt(exp[1:], 10, 64)
			expN = cur + uint64(d)
			exp = strconv.FormatUint(expN, 10)
			expRight = d == 0
		} else if exp != "" {
			expN, err = strconv.ParseUint(exp, 10, 64)
			expOK = err == nil
			expRight = expN == cur
		}
		status := func(resp *answer, codes ...int) {
			if resp.err != nil {
				c.Failf("%s: %v", what, resp.err)
			}
			for _, code := range codes {
				if resp.code == code {
					return
				}
			}
			c.Failf("%s: status %d, expected one of %v: %.200s", what, resp.code, codes, resp.body)
		}
		number := func(resp *answer, key string, want uint64) {
			var v map[string]any
			d := json.NewDecoder(bytes.NewReader(resp.body))
			d.UseNumber()
			if err := d.Decode(&v); err != nil || v["status"] != "OK" || fmt.Sprint(v[key]) != fmt.Sprint(want) {
				c.Failf("%s: answered %s, expected %s %d", what, resp.body, key, want)
			}
			if resp.typ != "application/json" {
				c.Failf("%s: content type %q", what, resp.typ)
			}
		}
		failed := func(resp *answer, text string) {
			var v map[string]any
			if err := json.Unmarshal(resp.body, &v); err != nil || v["status"] != "Failed" || text != "" && v["message"] != text {
				c.Failf("%s: answered %s, expected a failure %q", what, resp.body, text)
			}
			n["refused"]++
		}
		conflict := fmt.Sprintf("unexpected sequence number: %d, actual: %d", expN, cur)
		set := func() {
			if o.Fault {
				f.Set(kit.ErrDisk, o.After, o.Late, kit.ErrDisk)
			}
		}
		switch o.Op {
		case "store":
			var recs []*rangedb.EventRecord
			for _, e := range o.Ev {
				recs = append(recs, e.Record(a.Type, a.ID))
			}
			if _, err := b.Store.Save(bg, a.Stream, recs...); err != nil {
				c.Failf("%s: %v", what, err)
			}
			m.Append(a.Stream, a.Type, a.ID, now, o.Ev)
		case "crowd":
			// One event of each of many other aggregate types.
			for k := 0; k < o.At; k++ {
				t, spec := fmt.Sprintf("crowd%d", k), kit.EvSpec{Kind: "thing", Num: int64(k)}
				if _, err := b.Store.Save(bg, t+"!x", spec.Record(t, "x")); err != nil {
					c.Failf("%s: %v", what, err)
				}
				m.Append(t+"!x", t, "x", now, []kit.EvSpec{spec})
			}
			c.Class("many aggregate types")
		case "post":
			evs, specs := body(a, o.Ev), o.Ev
			typ := "application/json"
			good := true
			var code []int
			switch o.Bad {
			case "aggtype", "aggid":
				if o.Bad == "aggtype" {
					evs = append(evs, postEvent{a.Type + "x", a.ID, "X", 1, nil})
				} else {
					evs = append(evs, postEvent{a.Type, a.ID + "x", "X", 1, nil})
				}
				good = false
			case "null":
				k := o.At % len(evs)
				evs[k].Data = nil
				specs = append([]kit.EvSpec(nil), specs...)
				specs[k] = kit.EvSpec{Kind: "null", Meta: specs[k].Meta, Num: specs[k].Num, Text: specs[k].Text}
				evs[k].EventType = specs[k].EventType()
			case "empty":
				evs, good = []postEvent{}, false
			}
			text, _ := json.Marshal(evs)
			switch o.Bad {
			case "cut":
				text, good, code = text[:o.At%len(text)], false, []int{400}
			case "tail":
				text, good, code = append(text, "x]}1,"[o.At%5]), false, []int{400}
			case "second":
				text, good, code = append(text, text...), false, []int{400}
			case "object":
				text, good, code = text[1:len(text)-1], false, []int{400}
			case "number":
				text, good, code = bytes.Replace(text, []byte(`"eventType":"`), []byte(`"eventType":7,"was":"`), 1), false, []int{400}
			case "type":
				typ, good, code = []string{"", "text/plain", "application/jsonx", "application/x-www-form-urlencoded"}[o.At%4], false, []int{400}
			case "nulls":
				text, good = []byte("null"), false
			case "nobody":
				text, good, code = nil, false, []int{400}
			case "typo":
				// Surrounding blanks and unknown fields change nothing.
				text = bytes.Replace(text, []byte(`"eventType":`), []byte(` "unknown" : [{"x":1}] , "eventType" : `), -1)
				text = append(append([]byte("\n "), text...), "\r\n "...)
			}
			set()
			resp := s.do("POST", &url.URL{Path: "/save-events/" + a.Stream}, map[string]string{"Content-Type": typ, "ExpectedStreamSequenceNumber": exp}, text)
			f.Set(nil, 0, false, nil)
			switch {
			case !addressable(a.Stream):
				if resp.ok() {
					c.Failf("%s: stream %q was accepted", what, a.Stream)
				}
			case code != nil:
				status(resp, code...)
				if o.Bad != "type" {
					failed(resp, "")
				}
				n["refused"]++
			case !expOK:
				status(resp, 400)
				failed(resp, "invalid ExpectedStreamSequenceNumber")
			case o.Fault:
				status(resp, 500)
				failed(resp, "internal server error")
			case !good:
				if resp.err != nil || resp.code < 400 {
					c.Failf("%s: status %d, %v, expected a refusal of the body (%s)", what, resp.code, resp.err, o.Bad)
				}
				failed(resp, "")
			case exp != "" && !expRight:
				status(resp, 409)
				failed(resp, conflict)
			case o.Bad == "null" && resp.err == nil && resp.code != 201:
				// A store that cannot keep null data refuses it.
				status(resp, 500)
				failed(resp, "")
			default:
				status(resp, 201)
				recs := m.Append(a.Stream, a.Type, a.ID, now, specs)
				number(resp, "streamSequenceNumber", recs[len(recs)-1].SSN)
				n["posted"]++
			}
		case "del":
			set()
			resp := s.do("POST", &url.URL{Path: "/delete-stream/" + a.Stream}, map[string]string{"ExpectedStreamSequenceNumber": exp}, nil)
			f.Set(nil, 0, false, nil)
			switch {
			case !addressable(a.Stream):
				if resp.ok() {
					c.Failf("%s: stream %q was accepted", what, a.Stream)
				}
			case !expOK:
				status(resp, 400)
				failed(resp, "")
			case o.Fault:
				status(resp, 500)
				failed(resp, "internal server error")
			case cur == 0 && (exp == "" || expRight):
				status(resp, 404)
				failed(resp, "stream not found")
			case cur == 0:
				status(resp, 404, 409)
				failed(resp, "")
			case expN != cur:
				status(resp, 409)
				failed(resp, conflict)
			default:
				status(resp, 200)
				number(resp, "eventsDeleted", cur)
				m.Delete(a.Stream)
				n["deleted"]++
			}
		case "race":
			// Several clients save on the strength of the same history.
			if !addressable(a.Stream) {
				continue
			}
			text, _ := json.Marshal(body(a, o.Ev))
			var wg sync.WaitGroup
			resps := make([]*answer, 3)
			for k := range resps {
				wg.Add(1)
				go func() {
					defer wg.Done()
					resps[k] = s.do("POST", &url.URL{Path: "/save-events/" + a.Stream}, map[string]string{"Content-Type": "application/json", "ExpectedStreamSequenceNumber": fmt.Sprint(cur)}, text)
				}()
			}
			wg.Wait()
			won := 0
			recs := m.Append(a.Stream, a.Type, a.ID, now, o.Ev)
			for _, resp := range resps {
				if status(resp, 201, 409); resp.code == 201 {
					won++
					number(resp, "streamSequenceNumber", recs[len(recs)-1].SSN)
				}
			}
			if won != 1 {
				c.Failf("%s: %d of %d concurrent saves expecting sequence number %d were accepted", what, won, len(resps), cur)
			}
		case "all", "types", "stream":
			u := &url.URL{Path: "/all-events." + o.Ext}
			want := m.All(0)
			fits := true
			if o.Op == "types" {
				var names []string
				for _, k := range o.Types {
					if k == len(p.Aggs) {
						names = append(names, "unknown")
					} else {
						names = append(names, p.Aggs[k].Type)
					}
				}
				for _, t := range names {
					fits = fits && typeAddressable(t)
				}
				want = m.Types(0, names...)
				u.Path = "/events-by-aggregate-type/" + strings.Join(names, ",") + "." + o.Ext
			}
			if o.Op == "stream" {
				want = m.Stream(a.Stream, 0)
				fits = addressable(a.Stream)
				u.Path = "/events-by-stream/" + a.Stream + "." + o.Ext
			}
			set()
			resp := s.do("GET", u, map[string]string{"Accept-Encoding": o.Zip}, nil)
			f.Set(nil, 0, false, nil)
			switch {
			case !fits && o.Op == "types":
				// Names that do not fit in the path, such as ones with a comma, cannot be asked for.
			case !fits && a.Stream == "":
				if resp.ok() {
					c.Failf("%s: answered for a stream without a name", what)
				}
			case !fits:
				if resp.ok() {
					c.Failf("%s: answered for stream %q", what, a.Stream)
				}
			case o.Fault && o.After < len(want) || o.Fault && o.Op != "stream":
				mayAbort = true
				if _, err := parse(o.Ext, resp.body); resp.ok() && err == nil {
					c.Failf("%s as %s: the store fails after %d of %d records, and the answer looks complete: %.200q", what, o.Ext, o.After, len(want), resp.body)
				}
				if resp.err == nil && resp.code < 400 && o.After == 0 {
					c.Failf("%s as %s: the store fails at once, and the answer has status %d", what, o.Ext, resp.code)
				}
				n["failed read"]++
			case o.Fault:
				mayAbort = true
			case o.Op == "stream" && len(want) == 0:
				status(resp, 404)
				n["missing"]++
			default:
				if err := sameAll(what+" as "+o.Ext, o.Ext, want, resp); err != nil {
					c.Failf("%v", err)
				}
				if len(want) > 1 {
					n["read"]++
				}
			}
		case "list":
			time.Sleep(time.Second)
			c.Wait()
			resp := s.do("GET", &url.URL{Path: "/list-aggregate-types"}, map[string]string{"Accept-Encoding": o.Zip}, nil)
			status(resp, 200)
			counts := map[string]uint64{}
			for _, r := range m.Log() {
				counts[r.AType]++
			}
			names := []string{}
			for t := range counts {
				names = append(names, t)
			}
			sort.Strings(names)
			var v struct {
				Data []struct {
					Name        string
					TotalEvents uint64
				}
				TotalEvents uint64
			}
			if err := json.Unmarshal(resp.body, &v); err != nil {
				c.Failf("%s: %v", what, err)
			}
			if v.TotalEvents != uint64(len(m.Log())) || len(v.Data) != len(names) {
				c.Failf("%s: %s, expected %d events of %d types", what, resp.body, len(m.Log()), len(names))
			}
			for k, t := range names {
				if v.Data[k].Name != t || v.Data[k].TotalEvents != counts[t] {
					c.Failf("%s: %s, expected %d events of type %q at place %d", what, resp.body, counts[t], t, k)
				}
			}
		}
		if text := s.panics(); text != "" && !mayAbort {
			c.Failf("%s: %.600s", what, text)
		} else if strings.Contains(text, "nil pointer") || strings.Contains(text, "runtime error") {
			c.Failf("%s: %.600s", what, text)
		}
		if err := sameStore(m, b.Store, strings.HasSuffix(p.Backend, "mp")); err != nil {
			c.Failf("after %s: the store differs: %v", what, err)
		}
	}
	for _, ext := range []string{"json", "ndjson", "msgpack"} {
		if err := sameAll("all events at the end, as "+ext, ext, m.All(0), s.do("GET", &url.URL{Path: "/all-events." + ext}, nil, nil)); err != nil {
			c.Failf("%v", err)
		}
	}
	for k := range n {
		c.Class(k)
	}
	if n["failed read"] > 0 || n["posted"] >= 2 && n["refused"] > 0 {
		c.NonTrivial()
	}
}

// sameStore judges the content of the store.
func sameStore(m *kit.Model, s rangedb.Store, loose bool) error {
	got, err := kit.Drain(s.Events(context.Background(), 0))
	if err != nil {
		return err
	}
	want := m.All(0)
	for i, r := range got {
		if i >= len(want) {
			break
		}
		b, err := json.Marshal(r)
		if err != nil {
			return err
		}
		var w wire
		if err := json.Unmarshal(b, &w); err != nil {
			return err
		}
		if err := same(want[i], &w, loose); err != nil {
			return err
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d records instead of %d", len(got), len(want))
	}
	return nil
}

var c0 = context.Background()

func init() {
	pbt.Reg("C19", "requests", pbt.Opt{Quick: 3000, Thorough: 60000, Shards: 8, Bubble: true,
		Rule: "a history of HTTP requests (saves with and without an expectation, deletions, reads of all events, by type and by stream in the three formats, plain or compressed, listings, and concurrent saves with one expectation), with right, stale and malformed expectations and good and broken bodies, on an in-memory or LevelDB store that is also written to directly; every answer and the store compared with the model after each; non-trivial when two posts were accepted and a request was refused"},
		genAPI(false), runAPI)
	pbt.Reg("C19", "failures", pbt.Opt{Quick: 2000, Thorough: 30000, Shards: 8, Bubble: true,
		Rule: "requests while the store's reads fail, at once or after some records, and its writes fail; non-trivial when a read failed"},
		genAPI(true), runAPI)
}
