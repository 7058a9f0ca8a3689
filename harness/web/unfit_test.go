package web

import (
	"context"
	"encoding/json"
	"io"
	"log"
	"math"
	"net"
	"net/http"
	"net/url"
	"slices"
	"strconv"
	"time"

	"github.com/gorilla/websocket"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"github.com/inklabs/rangedb/pkg/rangedbws"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// UnfitPlan is a store with events of which some cannot be expressed in JSON.
type UnfitPlan struct {
	Stored []UnfitEv `json:"stored"`
	Live   []UnfitEv `json:"live"`
	Typed  bool      `json:"typed"`
	From   int       `json:"from"`
	Path   string    `json:"path"`
	Ext    string    `json:"ext"`
}

// UnfitEv is an event; one with Meta is unfit for its metadata.
type UnfitEv struct {
	Other bool `json:"other,omitempty"` // of another aggregate type
	Bad   bool `json:"bad,omitempty"`
	Inf   bool `json:"inf,omitempty"`
	Meta  bool `json:"meta,omitempty"`
}

func genUnfit(t *rapid.T) UnfitPlan {
	ev := rapid.Custom(func(t *rapid.T) UnfitEv {
		e := UnfitEv{Other: rapid.IntRange(0, 3).Draw(t, "other") == 0, Bad: rapid.IntRange(0, 4).Draw(t, "bad") == 0}
		if e.Bad {
			e.Inf = rapid.Bool().Draw(t, "inf")
			e.Meta = rapid.Bool().Draw(t, "meta")
		}
		return e
	})
	return UnfitPlan{Stored: rapid.SliceOfN(ev, 0, 8).Draw(t, "stored"), Live: rapid.SliceOfN(ev, 0, 8).Draw(t, "live"),
		Typed: rapid.Bool().Draw(t, "typed"), From: rapid.IntRange(0, 6).Draw(t, "from"),
		Path: rapid.SampledFrom([]string{"all", "types", "stream"}).Draw(t, "path"), Ext: rapid.SampledFrom([]string{"json", "ndjson", "msgpack"}).Draw(t, "ext")}
}

type unfitStore struct {
	c   *pbt.C
	s   rangedb.Store
	all []UnfitEv
}

func openUnfit(c *pbt.C) *unfitStore {
	log.SetOutput(io.Discard)
	b := kit.OpenUnbound("memmp")
	c.Cleanup(b.Close)
	return &unfitStore{c: c, s: b.Store}
}

func (u *unfitStore) save(es []UnfitEv) {
	first := len(u.all)
	u.all = append(u.all, es...)
	u.put(first, es)
}

func (u *unfitStore) put(first int, es []UnfitEv) {
	for i, e := range es {
		typ := "type"
		if e.Other {
			typ = "other"
		}
		r := &rangedb.EventRecord{Metadata: map[string]any{"n": 1}}
		x := any("text")
		if e.Bad {
			x = math.NaN()
			if e.Inf {
				x = math.Inf(-1)
			}
		}
		data := any(map[string]any{"number": first + i, "x": x})
		if e.Meta {
			data, r.Metadata = map[string]any{"number": first + i}, map[string]any{"x": x}
		}
		r.Event = rangedb.NewRawEvent(typ, "id", "Odd", data)
		if _, err := u.s.Save(context.Background(), typ+"!id", r); err != nil {
			panic(err)
		}
	}
}

// want is the global numbers asked for, and how many come before the first unfit one.
func (u *unfitStore) want(from uint64, typed bool) (out []uint64, fit int) {
	fit = -1
	for i, e := range u.all {
		if uint64(i+1) >= from && !(typed && e.Other) {
			if e.Bad && fit < 0 {
				fit = len(out)
			}
			out = append(out, uint64(i+1))
		}
	}
	if fit < 0 {
		fit = len(out)
	}
	return out, fit
}

func runUnfitAPI(c *pbt.C, p UnfitPlan) {
	u := openUnfit(c)
	api, err := rangedbapi.New(rangedbapi.WithStore(u.s), rangedbapi.WithBaseUri("http://x/api"))
	if err != nil {
		c.Failf("%v", err)
	}
	u.save(p.Stored)
	st := serve(c, api)
	path, typed := "/all-events."+p.Ext, false
	switch p.Path {
	case "types":
		path, typed = "/events-by-aggregate-type/type."+p.Ext, true
	case "stream":
		path, typed = "/events-by-stream/type!id."+p.Ext, true
	}
	all, fit := u.want(0, typed)
	if len(all) == 0 {
		return
	}
	a := st.do("GET", &url.URL{Scheme: "http", Host: "x", Path: path}, nil, nil)
	docs, err := parse(p.Ext, a.body)
	if p.Ext == "msgpack" && fit < len(all) && a.ok() {
		c.NonTrivial()
		return // which can express them, but the reader here cannot
	}
	if a.ok() && err == nil && len(docs) != len(all) {
		c.Failf("GET %s was answered as if complete, with %d events of %d (event %d cannot be expressed)", path, len(docs), len(all), fit)
	}
	if fit == len(all) && (!a.ok() || err != nil) {
		c.Failf("GET %s: status %d, %v, %v", path, a.code, a.err, err)
	}
	if fit < len(all) {
		c.NonTrivial()
	}
}

// feed reads numbers until the connection ends, or there are n.
func feed(c *pbt.C, name string, conn *websocket.Conn, number func([]byte) uint64, all []uint64, fit int) {
	var got []uint64
	for len(got) < len(all) {
		_ = conn.SetReadDeadline(time.Now().Add(pbt.Patience(30 * time.Second)))
		_, b, err := conn.ReadMessage()
		if err != nil {
			if e, ok := err.(net.Error); ok && e.Timeout() {
				c.Failf("%s shows nothing more, but goes on, after %v of %v (event %d of them cannot be expressed)", name, got, all, fit)
			}
			break
		}
		got = append(got, number(b))
		if !slices.Equal(got, all[:len(got)]) {
			c.Failf("%s showed the events %v of %v (event %d of them cannot be expressed)", name, got, all, fit)
		}
	}
	if len(got) < fit {
		c.Failf("%s ended after %v of %v (event %d of them cannot be expressed)", name, got, all, fit)
	}
}

func runUnfitWS(c *pbt.C, p UnfitPlan) {
	u := openUnfit(c)
	api, err := rangedbws.New(rangedbws.WithStore(u.s))
	if err != nil {
		c.Failf("%v", err)
	}
	c.Cleanup(api.Stop)
	u.save(p.Stored)
	st := serve(c, api)
	path := "/events"
	if p.Typed {
		path += "/type"
	}
	dialer := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return st.lis.Dial() }}
	conn, _, err := dialer.Dial("ws://x"+path+"?global-sequence-number="+strconv.Itoa(p.From), nil)
	if err != nil {
		c.Failf("connecting: %v", err)
	}
	defer conn.Close()
	// A feed that is not read keeps the store from accepting saves until it has caught up.
	u.all = append(u.all, p.Live...)
	saved := make(chan struct{})
	go func() { u.put(len(p.Stored), p.Live); close(saved) }()
	c.Cleanup(func() { conn.Close(); <-saved })
	all, fit := u.want(uint64(p.From), p.Typed)
	feed(c, "the feed", conn, func(b []byte) uint64 {
		var v struct{ GlobalSequenceNumber uint64 }
		_ = json.Unmarshal(b, &v)
		return v.GlobalSequenceNumber
	}, all, fit)
	if fit < len(all) {
		c.NonTrivial()
	}
}

func runUnfitUI(c *pbt.C, p UnfitPlan) {
	u := openUnfit(c)
	stats := projection.NewAggregateTypeStats()
	if err := u.s.AllEventsSubscription(context.Background(), 1000, stats).StartFrom(0); err != nil {
		c.Failf("%v", err)
	}
	u.save(p.Stored)
	for end := time.Now().Add(pbt.Patience(30 * time.Second)); stats.LatestGlobalSequenceNumber() < uint64(len(u.all)) && time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
	}
	ui := rangedbui.New(stats, u.s)
	st := serve(c, ui)
	for _, path := range []string{"/a/type", "/s/type!id"} {
		all, fit := u.want(0, true)
		if len(all) == 0 {
			continue
		}
		a := st.do("GET", &url.URL{Scheme: "http", Host: "x", Path: path}, nil, nil)
		if a.ok() && fit < len(all) {
			c.Class("unfit events on a page")
		}
	}
	dialer := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return st.lis.Dial() }}
	conn, resp, err := dialer.Dial("ws://x/live/a/type", http.Header{})
	if err != nil {
		c.Failf("connecting: %v %v", err, resp)
	}
	defer conn.Close()
	// The newest event may be shown again. What is saved later is shown when it was there in time, which the first
	// message of a marker tells.
	from := uint64(len(p.Stored))
	if n := len(p.Stored); n == 0 || p.Stored[n-1].Other || p.Stored[n-1].Bad {
		return
	}
	number := func(b []byte) uint64 {
		var v struct {
			Record struct{ GlobalSequenceNumber uint64 }
		}
		_ = json.Unmarshal(b, &v)
		return v.Record.GlobalSequenceNumber
	}
	first, _ := u.want(from, true)
	feed(c, "the live page", conn, number, first, len(first))
	u.all = append(u.all, p.Live...)
	saved := make(chan struct{})
	go func() { u.put(len(p.Stored), p.Live); close(saved) }()
	c.Cleanup(func() { conn.Close(); <-saved })
	all, fit := u.want(from+1, true)
	feed(c, "the live page", conn, number, all, fit)
	if fit < len(all) {
		c.NonTrivial()
	}
}

func init() {
	const rule = "events of which some hold numbers that JSON cannot express, in their data or metadata, in a MessagePack store; "
	pbt.Reg("C19", "unfit", pbt.Opt{Quick: 4000, Thorough: 40000, Shards: 8, Rule: rule + "reads of all kinds in all formats; non-trivial when such an event was asked for"}, genUnfit, runUnfitAPI)
	pbt.Reg("C20", "unfit", pbt.Opt{Quick: 4000, Thorough: 40000, Shards: 8, Rule: rule + "feeds from any position; non-trivial when such an event was due"}, genUnfit, runUnfitWS)
	pbt.Reg("C26", "unfit", pbt.Opt{Quick: 3000, Thorough: 40000, Shards: 8, Rule: rule + "live pages of one aggregate type; non-trivial when such an event was due"}, genUnfit, runUnfitUI)
}
