package web

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/url"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbui"
	"golang.org/x/net/html"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// page is what a browser makes of an HTML response.
type page struct {
	doc      *html.Node
	title    string
	crumbs   []string
	rows     []*row
	prev     string
	next     string
	skeleton string // the elements and attribute names outside of the table and the page links
}

type row struct {
	cells []string
	links []string // per cell; "": no link
}

func attr(n *html.Node, key string) string {
	for _, a := range n.Attr {
		if a.Key == key {
			return a.Val
		}
	}
	return ""
}

func text(n *html.Node) string {
	if n.Type == html.TextNode {
		return n.Data
	}
	var b strings.Builder
	for x := n.FirstChild; x != nil; x = x.NextSibling {
		b.WriteString(text(x))
	}
	return b.String()
}

func each(n *html.Node, f func(*html.Node) bool) {
	if !f(n) {
		return
	}
	for x := n.FirstChild; x != nil; x = x.NextSibling {
		each(x, f)
	}
}

func parsePage(body []byte) (*page, error) {
	doc, err := html.Parse(bytes.NewReader(body))
	if err != nil {
		return nil, err
	}
	p := &page{doc: doc}
	var bad error
	var sk strings.Builder
	each(doc, func(n *html.Node) bool {
		if n.Type == html.CommentNode && bad == nil {
			bad = fmt.Errorf("the page has a comment %q", n.Data)
		}
		if n.Type != html.ElementNode {
			return true
		}
		switch {
		case n.Data == "title":
			p.title = text(n)
		case n.Data == "ul" && attr(n, "class") == "breadcrumbs":
			each(n, func(x *html.Node) bool {
				if x.Data == "li" {
					p.crumbs = append(p.crumbs, strings.TrimSpace(text(x)))
				}
				return true
			})
		case n.Data == "ul" && strings.Contains(attr(n, "class"), "pagination"):
			each(n, func(x *html.Node) bool {
				if x.Data == "a" && strings.Contains(attr(x.Parent, "class"), "previous") {
					p.prev = attr(x, "href")
				} else if x.Data == "a" {
					p.next = attr(x, "href")
				}
				return true
			})
			return false
		case n.Data == "tbody":
			for x := n.FirstChild; x != nil; x = x.NextSibling {
				if x.Type != html.ElementNode {
					if strings.TrimSpace(text(x)) != "" {
						bad = fmt.Errorf("text %q between the rows", text(x))
					}
					continue
				}
				r := &row{}
				if attr(x, "v-for") != "" {
					continue // filled in by the browser
				}
				for td := x.FirstChild; td != nil; td = td.NextSibling {
					if td.Type != html.ElementNode {
						if strings.TrimSpace(text(td)) != "" {
							bad = fmt.Errorf("text %q between the cells", text(td))
						}
						continue
					}
					if x.Data != "tr" || td.Data != "td" {
						bad = fmt.Errorf("a %s in a %s in the table", td.Data, x.Data)
					}
					link := ""
					for y := td.FirstChild; y != nil; y = y.NextSibling {
						if y.Type != html.ElementNode {
							continue
						}
						if y.Data != "a" || link != "" || len(y.Attr) != 1 || y.Attr[0].Key != "href" || y.FirstChild != nil && (y.FirstChild.Type != html.TextNode || y.FirstChild.NextSibling != nil) {
							bad = fmt.Errorf("markup <%s %v> in a cell of the table", y.Data, y.Attr)
						}
						link = y.Attr[0].Val
					}
					r.cells = append(r.cells, text(td))
					r.links = append(r.links, link)
				}
				p.rows = append(p.rows, r)
			}
			return false
		}
		sk.WriteString("<" + n.Data)
		for _, a := range n.Attr {
			sk.WriteString(" " + a.Key)
		}
		sk.WriteString(">")
		return true
	})
	p.skeleton = sk.String()
	return p, bad
}

// shown is how a text looks in an HTML page.
func shown(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, "\x00", "\ufffd"), "\r", "\n")
}

// leads says whether a link on the page leads to a path of these segments.
func leads(link string, query url.Values, segs ...string) error {
	base, _ := url.Parse("http://site/s/x")
	u, err := base.Parse(link)
	if err != nil {
		return fmt.Errorf("link %q: %v", link, err)
	}
	want := "/" + strings.Join(segs, "/")
	if u.Host != "site" || u.Scheme != "http" || u.Path != want || u.Fragment != "" {
		return fmt.Errorf("link %q leads to %q, expected %q", link, u.String(), want)
	}
	if got := u.Query().Encode(); got != query.Encode() {
		return fmt.Errorf("link %q has query %q, expected %q", link, got, query.Encode())
	}
	return nil
}

// UIOp is one step on the web UI or its store.
type UIOp struct {
	Op    string       `json:"op"` // save, del, walk, page, types, live
	A     int          `json:"a"`
	Ev    []kit.EvSpec `json:"ev,omitempty"`
	Rep   int          `json:"rep,omitempty"`
	Type  bool         `json:"type,omitempty"` // the page of the type, otherwise of the stream
	Items string       `json:"items,omitempty"`
	Cur   string       `json:"cur,omitempty"`
	Prev  string       `json:"prev,omitempty"`
	Amid  []UIOp       `json:"amid,omitempty"` // saves and deletions between the pages of a walk
	Fault bool         `json:"fault,omitempty"`
	After int          `json:"after,omitempty"`
	Late  bool         `json:"late,omitempty"`
}

// UIPlan is a history of saves and page views.
type UIPlan struct {
	Backend string    `json:"backend"`
	Aggs    []kit.Agg `json:"aggs"`
	Ops     []UIOp    `json:"ops"`
}

var uiItems = []string{"", "1", "1", "2", "2", "3", "5", "0", "1000", "1001", "18446744073709551615", "18446744073709551616", "-1", "x", "07", "1e1", " 2", "+2"}

func genUI(t *rapid.T) UIPlan {
	p := UIPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "memmp", "ldb", "ldbmp"}).Draw(t, "backend")}
	p.Aggs = kit.GenAggs(1, 3, rapid.Bool().Draw(t, "wild")).Draw(t, "aggs")
	if rapid.Bool().Draw(t, "odd") {
		s := rapid.SampledFrom([]string{"%zz", "a?b=c", "a#b", "a b", "%2F", "a&current=9", "<b>x</b>", "\"><script>alert(1)</script>", "javascript:alert(1)", "a:b", "é", "a%20b", "a+b", "'", "\\", "{{.}}", "a;b", "日本", "&lt;", "&amp;amp;", "*", "a\nb", "--><i>", "${x}"}).Draw(t, "name")
		k := rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "which")
		if rapid.Bool().Draw(t, "stream") {
			p.Aggs[k].Stream = s
		} else {
			p.Aggs[k].Type = s
		}
	}
	change := rapid.Custom(func(t *rapid.T) UIOp {
		o := UIOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "del"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a")}
		if o.Op == "save" {
			o.Ev = rapid.SliceOfN(kit.GenEv(), 1, 4).Draw(t, "ev")
			o.Rep = rapid.SampledFrom([]int{1, 1, 1, 3, 10}).Draw(t, "rep")
		}
		return o
	})
	index := rapid.SampledFrom([]string{"", "", "0", "1", "2", "3", "4", "7", "12", "100", "18446744073709551615", "18446744073709551616", "-1", "x", "03"})
	view := rapid.Custom(func(t *rapid.T) UIOp {
		o := UIOp{Op: rapid.SampledFrom([]string{"walk", "walk", "walk", "page", "page", "types", "live"}).Draw(t, "op"), A: rapid.IntRange(0, len(p.Aggs)-1).Draw(t, "a"),
			Type: rapid.Bool().Draw(t, "type"), Items: rapid.SampledFrom(uiItems).Draw(t, "items")}
		if o.Op == "walk" {
			o.Cur = rapid.SampledFrom([]string{"", "", "0", "1", "2", "5"}).Draw(t, "cur")
			if rapid.IntRange(0, 2).Draw(t, "change") == 0 {
				o.Amid = rapid.SliceOfN(change, 1, 3).Draw(t, "amid")
			}
		}
		if o.Op == "page" {
			o.Cur = index.Draw(t, "cur")
			o.Prev = rapid.SampledFrom([]string{"", "", "1", "0", "1,2", "1,2,3", "9,9", "x", "1,x,3", ",", "1,", "18446744073709551615,2", "-1,2", "1, 2", "[1"}).Draw(t, "prev")
			o.Fault = rapid.IntRange(0, 2).Draw(t, "fault") == 0
			o.After = rapid.IntRange(0, 4).Draw(t, "after")
			o.Late = rapid.Bool().Draw(t, "late")
		}
		return o
	})
	first := rapid.SliceOfN(change, 1, 5).Draw(t, "first")
	rest := rapid.SliceOfN(rapid.OneOf(change, view, view), 1, 7).Draw(t, "rest")
	p.Ops = append(first, rest...)
	p.Ops = append(p.Ops, view.Draw(t, "last"))
	return p
}

type uiSite struct {
	c      *pbt.C
	b      *kit.Backend
	f      *kit.Faulty
	m      *kit.Model
	aggs   []kit.Agg
	site   *site
	now    int64
	frames map[string]string // skeletons of benign pages
}

func (u *uiSite) apply(o UIOp, when string) {
	a := u.aggs[o.A]
	u.now++
	u.b.Clock.Set(u.now)
	switch o.Op {
	case "save":
		var recs []*rangedb.EventRecord
		var specs []kit.EvSpec
		for k := 0; k < max(1, o.Rep); k++ {
			for _, e := range o.Ev {
				recs = append(recs, e.Record(a.Type, a.ID))
				specs = append(specs, e)
			}
		}
		if _, err := u.b.Store.Save(c0, a.Stream, recs...); err != nil {
			u.c.Failf("%s: %v", when, err)
		}
		u.m.Append(a.Stream, a.Type, a.ID, uint64(u.now), specs)
	case "del":
		if n := u.m.Len(a.Stream); n > 0 {
			if err := u.b.Store.OptimisticDeleteStream(c0, n, a.Stream); err != nil {
				u.c.Failf("%s: %v", when, err)
			}
			u.m.Delete(a.Stream)
		}
	}
	time.Sleep(time.Second)
	u.c.Wait()
}

func (u *uiSite) total(typ string) (n uint64) {
	for _, r := range u.m.Log() {
		if r.AType == typ {
			n++
		}
	}
	return n
}

// get asks for a page as a browser does.
func (u *uiSite) get(target *url.URL) *answer {
	return u.site.do("GET", target, map[string]string{"Accept-Encoding": "gzip"}, nil)
}

func (u *uiSite) html(what string, a *answer) *page {
	if a.err != nil || a.code != 200 {
		u.c.Failf("%s: status %d, %v: %.300q", what, a.code, a.err, a.body)
	}
	if a.typ != "text/html; charset=utf-8" {
		u.c.Failf("%s: content type %q", what, a.typ)
	}
	p, err := parsePage(a.body)
	if err != nil {
		u.c.Failf("%s: %v", what, err)
	}
	return p
}

// same compares the frame of a page with that of a page without any odd names.
func (u *uiSite) frame(what, benign string, p *page) {
	want, ok := u.frames[benign]
	if !ok {
		empty := rangedbui.New(projection.NewAggregateTypeStats(), u.b.Store)
		resp, crash := ask(empty, WildReq{Method: "GET", Target: benign})
		if crash != "" || resp.Code != 200 {
			u.c.Failf("%s: %s", benign, crash)
		}
		q, err := parsePage(resp.Body.Bytes())
		if err != nil {
			u.c.Failf("%s: %v", benign, err)
		}
		want = q.skeleton
		u.frames[benign] = want
	}
	if p.skeleton != want {
		u.c.Failf("%s: the page has other elements than a plain one:\n%s\n%s", what, p.skeleton, want)
	}
}

// comma groups the digits of a number.
func comma(n uint64) string {
	s := fmt.Sprint(n)
	for i := len(s) - 3; i > 0; i -= 3 {
		s = s[:i] + "," + s[i:]
	}
	return s
}

func cleanType(name string) string { return shown(name) }

// rows compares the rows of a page of records.
func (u *uiSite) rows(what string, p *page, want []*kit.MRec) {
	for i, r := range p.rows {
		if i >= len(want) {
			u.c.Failf("%s: the page lists %d events, expected %d", what, len(p.rows), len(want))
		}
		w := want[i]
		if len(r.cells) != 7 {
			u.c.Failf("%s: row %d has %d cells: %q", what, i, len(r.cells), r.cells)
		}
		stamp := time.Unix(int64(w.TS), 0).UTC().Format("Jan 02, 2006 15:04:05 UTC")
		exp := []string{fmt.Sprint(w.GSN), fmt.Sprint(w.SSN), shown(w.Spec.EventType()), shown(w.AType), shown(w.Stream), stamp}
		for k, e := range exp {
			if r.cells[k] != e {
				u.c.Failf("%s: row %d shows %q, expected %q in cell %d", what, i, r.cells, e, k)
			}
		}
		if err := kit.SameJSON(fmt.Sprintf("%s: data of row %d", what, i), payload(w), json.RawMessage(r.cells[6])); err != nil {
			u.c.Failf("%v", err)
		}
		for k, l := range r.links {
			var err error
			switch {
			case k == 3 && typeAddressable(w.AType):
				err = leads(l, nil, "a", w.AType)
			case k == 4 && addressable(w.Stream) && !strings.Contains(w.Stream, "\x00"):
				err = leads(l, nil, "s", w.Stream)
			case k != 3 && k != 4 && l != "":
				err = fmt.Errorf("cell %d is a link to %q", k, l)
			case k == 3 || k == 4:
				// Leads nowhere, but not out of the site either.
				base, _ := url.Parse("http://site/s/x")
				if to, e := base.Parse(l); e == nil && (to.Host != "site" || to.Scheme != "http") {
					err = fmt.Errorf("link %q leads out of the site", l)
				}
			}
			if err != nil {
				u.c.Failf("%s: row %d: %v", what, i, err)
			}
		}
	}
	if len(p.rows) < len(want) {
		u.c.Failf("%s: the page lists %d events, expected %d", what, len(p.rows), len(want))
	}
}

func number(s string, def uint64) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return def
	}
	return n
}

// view loads and judges one page. It returns it with the number of the item after it, or 0.
func (u *uiSite) view(what string, o UIOp, target *url.URL) *page {
	a := u.aggs[o.A]
	q := target.Query()
	n := number(q.Get("itemsPerPage"), 10)
	if n == 0 {
		n = 10
	}
	n = min(n, 1000)
	cur := number(q.Get("current"), 0)
	var prev []uint64
	for _, s := range strings.Split(q.Get("previous"), ",") {
		k, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			break
		}
		prev = append(prev, k)
	}
	resp := u.get(target)
	what = fmt.Sprintf("%s: %s", what, target.String())
	p := u.html(what, resp)
	var all []*kit.MRec
	name, total, benign := a.Stream, uint64(0), "/s/benign"
	kind := "s"
	if o.Type {
		name, kind, benign = a.Type, "a", "/a/benign"
		all, total = u.m.Types(cur, a.Type), u.total(a.Type)
	} else {
		all, total = u.m.Stream(a.Stream, cur), u.m.Len(a.Stream)
	}
	u.frame(what, benign, p)
	if p.title != shown(name)+" - RangeDB" {
		u.c.Failf("%s: the title is %q", what, p.title)
	}
	head := fmt.Sprintf("%s (%s)", shown(name), comma(uint64(total)))
	found := false
	for _, s := range p.crumbs {
		found = found || s == strings.TrimSpace(head)
	}
	if !found {
		u.c.Failf("%s: the headings %q do not include %q", what, p.crumbs, head)
	}
	want := all
	if uint64(len(all)) > n {
		want = all[:n]
		next := all[n].SSN
		if o.Type {
			next = all[n].GSN
		}
		v := url.Values{"itemsPerPage": {fmt.Sprint(n)}, "current": {fmt.Sprint(next)}, "previous": {csv(append(append([]uint64(nil), prev...), cur))}}
		if p.next == "" {
			u.c.Failf("%s: %d of %d events are listed, and there is no link to more", what, n, len(all))
		}
		if err := leads(p.next, v, kind, name); err != nil {
			u.c.Failf("%s: next page: %v", what, err)
		}
	} else if p.next != "" {
		u.c.Failf("%s: all events are listed, and there is a next page %s", what, p.next)
	}
	if len(prev) > 0 {
		v := url.Values{"itemsPerPage": {fmt.Sprint(n)}, "current": {fmt.Sprint(prev[len(prev)-1])}}
		if len(prev) > 1 {
			v.Set("previous", csv(prev[:len(prev)-1]))
		}
		if err := leads(p.prev, v, kind, name); err != nil {
			u.c.Failf("%s: previous page: %v", what, err)
		}
	} else if p.prev != "" {
		u.c.Failf("%s: the first page links to a previous one %s", what, p.prev)
	}
	u.rows(what, p, want)
	return p
}

func csv(ns []uint64) string {
	var s []string
	for _, n := range ns {
		s = append(s, fmt.Sprint(n))
	}
	return strings.Join(s, ",")
}

func runUI(c *pbt.C, p UIPlan) {
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	f := &kit.Faulty{Store: b.Store}
	stats := projection.NewAggregateTypeStats()
	ctx, cancel := context.WithCancel(c0)
	c.Cleanup(cancel)
	if err := b.Store.AllEventsSubscription(ctx, 1000, stats).StartFrom(0); err != nil {
		c.Failf("%v", err)
	}
	u := &uiSite{c: c, b: b, f: f, m: &kit.Model{}, aggs: p.Aggs, frames: map[string]string{}}
	u.site = serve(c, rangedbui.New(stats, f, rangedbui.WithHost("host:1")))
	walked := 0
	for i, o := range p.Ops {
		when := fmt.Sprintf("step %d (%s) on %s", i, o.Op, p.Backend)
		a := p.Aggs[o.A]
		name, kind := a.Stream, "s"
		fits := addressable(name)
		if o.Type {
			name, kind = a.Type, "a"
			fits = typeAddressable(name)
		}
		target := &url.URL{Path: "/" + kind + "/" + name}
		q := url.Values{}
		for k, v := range map[string]string{"itemsPerPage": o.Items, "current": o.Cur, "previous": o.Prev} {
			if v != "" {
				q.Set(k, v)
			}
		}
		target.RawQuery = q.Encode()
		switch o.Op {
		case "save", "del":
			u.apply(o, when)
		case "walk":
			if !fits {
				continue
			}
			seen := 0
			var visited []string
			amid := o.Amid
			for n := 0; ; n++ {
				if n > 2000 {
					c.Failf("%s: the walk does not end", when)
				}
				pg := u.view(when, o, target)
				visited = append(visited, target.String())
				seen += len(pg.rows)
				if len(amid) > 0 {
					u.apply(amid[0], when)
					amid = amid[1:]
				}
				if pg.next == "" {
					break
				}
				to, err := target.Parse(pg.next)
				if err != nil {
					c.Failf("%s: %v", when, err)
				}
				target = to
				walked++
			}
			// All the way back.
			for n := len(visited) - 1; len(o.Amid) == 0; n-- {
				pg := u.view(when+", back", o, target)
				if pg.prev == "" {
					if n != 0 {
						c.Failf("%s: the way back ends %d pages from the start", when, n)
					}
					break
				}
				target, _ = target.Parse(pg.prev)
			}
			if len(visited) > 2 {
				c.NonTrivial()
				c.Class("walked")
			}
		case "page":
			if !fits {
				if resp := u.get(target); !o.Type && resp.ok() {
					c.Failf("%s: answered for %q", when, name)
				}
				continue
			}
			if o.Fault {
				f.Set(kit.ErrDisk, o.After, o.Late, nil)
				resp := u.get(target)
				f.Set(nil, 0, false, nil)
				if resp.err == nil && resp.code < 400 {
					pg := u.html(when, resp)
					if len(pg.rows) == 0 || pg.next == "" {
						c.Failf("%s: the store fails after %d records, and %s is answered with a page of %d events that looks like the last one", when, o.After, target, len(pg.rows))
					}
				} else {
					c.Class("failed")
				}
			}
			u.view(when, o, target)
		case "types":
			for _, live := range []string{"", "/live"} {
				pg := u.html(when, u.get(&url.URL{Path: "/aggregate-types" + live}))
				if live != "" {
					u.frame(when, "/aggregate-types/live", pg)
					continue
				}
				u.frame(when, "/aggregate-types", pg)
				counts := map[string]uint64{}
				for _, r := range u.m.Log() {
					counts[r.AType]++
				}
				var names []string
				for t := range counts {
					names = append(names, t)
				}
				sort.Strings(names)
				if len(pg.rows) != len(names) {
					c.Failf("%s: %d aggregate types are listed, expected %q", when, len(pg.rows), names)
				}
				for k, r := range pg.rows {
					if len(r.cells) != 2 || r.cells[0] != cleanType(names[k]) || r.cells[1] != comma(uint64(counts[names[k]])) {
						c.Failf("%s: row %d is %q, expected type %q with %d events", when, k, r.cells, names[k], counts[names[k]])
					}
					if typeAddressable(names[k]) {
						if err := leads(r.links[0], nil, "a", names[k]); err != nil {
							c.Failf("%s: %v", when, err)
						}
					}
				}
				if head := fmt.Sprintf("Aggregate (%s)", comma(uint64(len(u.m.Log())))); len(pg.crumbs) == 0 || pg.crumbs[0] != head {
					c.Failf("%s: the headings are %q, expected %q", when, pg.crumbs, head)
				}
			}
		case "live":
			if !typeAddressable(a.Type) {
				continue
			}
			what := when + ": /a/" + a.Type + "/live"
			pg := u.html(what, u.get(&url.URL{Path: "/a/" + a.Type + "/live"}))
			u.frame(what, "/a/benign/live", pg)
			script := ""
			each(pg.doc, func(n *html.Node) bool {
				if n.Data == "script" {
					script += text(n)
				}
				return true
			})
			script = strings.ReplaceAll(script, `\/`, `/`)
			if !strings.Contains(script, "'ws://host:1/live/a/"+a.Type+"'") {
				c.Failf("%s: the page does not open ws://host:1/live/a/%s", what, a.Type)
			}
			if !strings.Contains(strings.ReplaceAll(script, " ", ""), fmt.Sprintf("totalEvents:%d\n", u.total(a.Type))) {
				c.Failf("%s: the page does not start with %d events", what, u.total(a.Type))
			}
		}
		if text := u.site.panics(); text != "" {
			c.Failf("%s: %.800s", when, text)
		}
	}
	if walked > 0 {
		c.Class("next page")
	}
}

// UIFeedPlan is a history of saves and live pages.
type UIFeedPlan struct {
	Backend string    `json:"backend"`
	Types   int       `json:"types"`
	Clients []WClient `json:"clients"`
	Ops     []WOp     `json:"ops"`
}

func genUIFeed(t *rapid.T) UIFeedPlan {
	p := UIFeedPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "ldb"}).Draw(t, "backend"), Types: rapid.IntRange(1, 3).Draw(t, "types")}
	p.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WClient {
		s := WClient{Types: []int{rapid.IntRange(0, p.Types).Draw(t, "type")}, Leave: rapid.IntRange(0, 2).Draw(t, "leave"),
			Delay: rapid.SampledFrom([]int{0, 0, 20, 300, 700, -1}).Draw(t, "delay")}
		if rapid.IntRange(0, 2).Draw(t, "overview") == 0 {
			s.Types = nil
		}
		if s.Delay < 0 {
			s.Stall = rapid.IntRange(1, 5).Draw(t, "stall")
		}
		return s
	}), 1, 4).Draw(t, "clients")
	many := rapid.IntRange(0, 3).Draw(t, "many") == 0
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WOp {
		o := WOp{Op: rapid.SampledFrom([]string{"save", "save", "save", "save", "trickle", "join", "join", "join", "leave", "sleep"}).Draw(t, "op"), Settle: rapid.Bool().Draw(t, "settle")}
		switch o.Op {
		case "save", "trickle":
			o.A = rapid.IntRange(0, p.Types-1).Draw(t, "a")
			o.Ev = rapid.SliceOfN(kit.GenEv("unbound", "raw", "unbound"), 1, 4).Draw(t, "ev")
			if o.Op == "trickle" {
				// One save after the other, with a pause before each.
				o.N = rapid.SampledFrom([]int{40, 90, 130, 250}).Draw(t, "ms")
				o.Rep = rapid.IntRange(1, 3).Draw(t, "rep")
			} else if many {
				o.Rep = rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "rep")
			}
		case "join", "leave":
			o.S = rapid.IntRange(0, len(p.Clients)-1).Draw(t, "s")
		case "sleep":
			o.N = rapid.SampledFrom([]int{10, 90, 150, 1000}).Draw(t, "ms")
		}
		return o
	}), 4, 16).Draw(t, "ops")
	return p
}

type envelope struct {
	Record         *wire
	TotalEvents    uint64
	AggregateTypes []struct {
		Name        string
		TotalEvents uint64
	}
}

type uiClient struct {
	spec    WClient
	mu      sync.Mutex
	got     []*envelope
	gone    error
	quit    chan struct{}
	conn    *websocket.Conn
	started bool
	left    bool
	base    uint64 // events of the type when it joined
	want    []*kit.MRec
	low     int
}

func (s *uiClient) read(c *pbt.C, name string) {
	for {
		_, msg, err := s.conn.ReadMessage()
		if err != nil {
			s.mu.Lock()
			s.gone = err
			s.mu.Unlock()
			return
		}
		e := &envelope{}
		if err := json.Unmarshal(msg, e); err != nil {
			c.Report("%s: message %.100q: %v", name, msg, err)
			return
		}
		s.mu.Lock()
		s.got = append(s.got, e)
		n := len(s.got)
		s.mu.Unlock()
		if s.spec.Delay < 0 && n >= s.spec.Stall {
			<-s.quit
		} else if s.spec.Delay > 0 {
			time.Sleep(time.Duration(s.spec.Delay) * time.Millisecond)
		}
	}
}

func serving() int {
	buf := make([]byte, 4<<20)
	s := string(buf[:runtime.Stack(buf, true)])
	return strings.Count(s, "rangedbui.(*webUI).realtime")
}

func runUIFeed(c *pbt.C, p UIFeedPlan) {
	b := kit.OpenUnbound(p.Backend)
	c.Cleanup(b.Close)
	stats := projection.NewAggregateTypeStats()
	ctx, cancel := context.WithCancel(c0)
	c.Cleanup(cancel)
	if err := b.Store.AllEventsSubscription(ctx, 5000, stats).StartFrom(0); err != nil {
		c.Failf("%v", err)
	}
	site := serve(c, rangedbui.New(stats, b.Store))
	dialer := &websocket.Dialer{NetDial: func(string, string) (net.Conn, error) { return site.lis.Dial() }}
	m := &kit.Model{}
	settled := 0
	clients := make([]*uiClient, len(p.Clients))
	for i, spec := range p.Clients {
		clients[i] = &uiClient{spec: spec, quit: make(chan struct{})}
	}
	settle := func() {
		time.Sleep(200 * time.Second)
		c.Wait()
		settled = len(m.Log())
	}
	counts := func(upto uint64) map[string]uint64 {
		n := map[string]uint64{}
		for _, r := range m.Log() {
			if r.GSN <= upto {
				n[r.AType]++
			}
		}
		return n
	}
	check := func(when string, all bool) {
		for i, s := range clients {
			if !s.started {
				continue
			}
			name := fmt.Sprintf("%s: store %s, live page %d (%+v)", when, p.Backend, i, s.spec)
			s.mu.Lock()
			got, gone := append([]*envelope(nil), s.got...), s.gone
			s.mu.Unlock()
			if s.spec.Types == nil {
				last := uint64(0)
				for k, e := range got {
					if e.Record != nil || e.TotalEvents < last || e.TotalEvents > uint64(len(m.Log())) {
						c.Failf("%s, message %d: total %d after %d, of %d", name, k, e.TotalEvents, last, len(m.Log()))
					}
					last = e.TotalEvents
					if e.TotalEvents == uint64(settled) || k == len(got)-1 && all && !s.left && s.spec.Delay >= 0 && gone == nil {
						// Other messages may be seen between two counts.
						n := counts(e.TotalEvents)
						ok := len(n) == len(e.AggregateTypes)
						for j, x := range e.AggregateTypes {
							ok = ok && n[x.Name] == x.TotalEvents && (j == 0 || e.AggregateTypes[j-1].Name < x.Name)
						}
						if !ok {
							c.Failf("%s, message %d: %+v, expected %v", name, k, *e, n)
						}
					}
				}
				if all && !s.left && (s.spec.Delay >= 0 || len(got) < s.spec.Stall) {
					if gone != nil {
						c.Failf("%s: the connection ended: %v", name, gone)
					}
					if len(m.Log()) > 0 && last != uint64(len(m.Log())) {
						c.Failf("%s shows %d events of %d", name, last, len(m.Log()))
					}
				}
				continue
			}
			for k, e := range got {
				if k >= len(s.want) {
					c.Failf("%s got %d messages, of at most %d", name, len(got), len(s.want))
				}
				if e.Record == nil {
					c.Failf("%s, message %d: no record", name, k)
				}
				if err := same(s.want[k], e.Record, false); err != nil {
					c.Failf("%s, message %d: %v", name, k, err)
				}
				// The event that was the newest when the page joined is counted twice (a test insists on it).
				if e.TotalEvents != s.base+uint64(k)+1 {
					c.Failf("%s, message %d: total %d, expected %d", name, k, e.TotalEvents, s.base+uint64(k)+1)
				}
			}
			stalled := s.spec.Delay < 0 && len(got) >= s.spec.Stall
			need := len(s.want)
			if s.left {
				need = min(s.low, need)
			}
			switch {
			case !all || stalled:
			case len(got) < need && (s.left || gone == nil):
				c.Failf("%s got %d messages of %d, then nothing more", name, len(got), need)
			case len(got) < need && s.spec.Delay == 0:
				c.Failf("%s got %d messages of %d, though it reads every one at once: %v", name, len(got), need, gone)
			case len(got) < need:
				c.Class("dropped")
			}
		}
	}
	save := func(when string, a, i int, specs []kit.EvSpec) {
		ty := wnames[a]
		var recs []*rangedb.EventRecord
		for _, e := range specs {
			recs = append(recs, e.Record(ty, "id"))
		}
		b.Clock.Set(int64(i + 1))
		if _, err := b.Store.Save(c0, ty+"!id", recs...); err != nil {
			c.Failf("%s: %v", when, err)
		}
		for _, r := range m.Append(ty+"!id", ty, "id", uint64(i+1), specs) {
			for _, s := range clients {
				if s.started && !s.left && s.spec.Types != nil && wnames[s.spec.Types[0]] == r.AType {
					s.want = append(s.want, r)
				}
			}
		}
	}
	for i, o := range p.Ops {
		when := fmt.Sprintf("after step %d (%s)", i, o.Op)
		switch o.Op {
		case "save", "trickle":
			var specs []kit.EvSpec
			for k := 0; k < max(o.Rep, 1); k++ {
				specs = append(specs, o.Ev...)
			}
			if o.Op == "save" {
				save(when, o.A, i, specs)
				break
			}
			for _, e := range specs {
				time.Sleep(time.Duration(o.N) * time.Millisecond)
				save(when, o.A, i, []kit.EvSpec{e})
			}
		case "join":
			s := clients[o.S]
			if s.started {
				continue
			}
			settle()
			path := "/live/aggregate-types"
			if s.spec.Types != nil {
				ty := wnames[s.spec.Types[0]]
				path = "/live/a/" + ty
				s.base = counts(1 << 62)[ty]
				// A page starts with the newest event of all, if it is of its type.
				if log := m.Log(); len(log) > 0 && log[len(log)-1].AType == ty {
					s.want = append(s.want, log[len(log)-1])
				}
			}
			conn, _, err := dialer.Dial("ws://site"+path, nil)
			if err != nil {
				c.Failf("%s: %v", when, err)
			}
			s.conn, s.started = conn, true
			s.spec.Stall += len(s.want)
			c.Cleanup(func() {
				select {
				case <-s.quit:
				default:
					close(s.quit)
				}
				_ = conn.Close()
			})
			go s.read(c, when)
			settle()
		case "leave":
			s := clients[o.S]
			if !s.started || s.left {
				continue
			}
			settle()
			s.low = len(s.want)
			s.mu.Lock()
			stuck := s.spec.Delay < 0 && len(s.got) >= s.spec.Stall
			dropped := s.gone != nil
			s.mu.Unlock()
			if stuck || dropped {
				// Covered by check.
				continue
			}
			before := serving()
			check(when, true)
			s.left = true
			switch s.spec.Leave {
			case 1:
				_ = s.conn.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Now().Add(time.Second))
			case 2:
				_ = s.conn.SetWriteDeadline(time.Now().Add(time.Second))
				_ = s.conn.WriteMessage(websocket.TextMessage, []byte("bye"))
			default:
				_ = s.conn.Close()
			}
			time.Sleep(10 * time.Second)
			c.Wait()
			if n := serving(); n >= before {
				c.Failf("%s: live page %d (%+v) has left, and is still served", when, o.S, s.spec)
			}
			c.Class("left")
		case "sleep":
			time.Sleep(time.Duration(o.N) * time.Millisecond)
		}
		if o.Settle {
			settle()
		}
		c.Check()
		if text := site.panics(); text != "" {
			c.Failf("%s: %s", when, text)
		}
		check(when, o.Settle)
	}
	settle()
	check("at the end", true)
	for _, s := range clients {
		s.mu.Lock()
		if len(s.got) > 1 {
			c.NonTrivial()
		}
		s.mu.Unlock()
	}
}

func init() {
	pbt.Reg("C26", "pages", pbt.Opt{Quick: 2000, Thorough: 40000, Shards: 8, Bubble: true,
		Rule: "a history of saves and deletions in streams and types with plain and awkward names, with page views in between: walks along the next links and back (with changes amid), single pages at arbitrary positions, sizes and histories, pages while the store fails, the overview and the live pages; every page is parsed as a browser does and compared with the model row by row, link by link, and its elements with those of a page without awkward content; non-trivial when a walk had more than two pages"},
		genUI, runUI)
	pbt.Reg("C26", "feeds", pbt.Opt{Quick: 1000, Thorough: 20000, Shards: 8, Bubble: true,
		Rule: "live pages (of a type or the overview) that come, read fast, slowly or not at all, and leave, while events are saved; non-trivial when a page got more than one message"},
		genUIFeed, runUIFeed)
	routes := []string{"/*", "/*/*", "/", "/aggregate-types", "/aggregate-types/*", "/aggregate-types/live", "/a/*", "/a/thing", "/a/thing", "/a/*/live", "/s/*", "/s/*", "/s/a!a", "/s/a!a", "/static/*", "/static/css/*", "/live/a/*", "/live/aggregate-types", "/live/a/thing"}
	heads := map[string][]string{
		"Accept-Encoding": {"gzip", "deflate", "gzip;q=0", "*", "br"},
		"Upgrade":         {"websocket", "x"},
		"Connection":      {"Upgrade", "close"},
	}
	pbt.Reg("C26", "wild", pbt.Opt{Quick: 6000, Thorough: 200000, Shards: 8,
		Rule: "arbitrary requests near the valid ones on a UI over a store with content: no handler panics, no page fails with a server error, no page contains other elements than it should; non-trivial when one was accepted and one refused"},
		genWild(routes, heads), func(c *pbt.C, p WildPlan) {
			b := kit.OpenUnbound("mem")
			c.Cleanup(b.Close)
			stats := projection.NewAggregateTypeStats()
			for _, stream := range []string{"a!a", "a", "%", "<script>", "$", "..", "a b", "\"", "'"} {
				for k := 0; k < 3; k++ {
					if _, err := b.Store.Save(c0, stream, kit.EvSpec{Kind: "unbound", Text: "</td><script>"}.Record("thing", "id")); err != nil {
						c.Failf("%v", err)
					}
				}
			}
			recs, err := kit.Drain(b.Store.Events(c0, 0))
			if err != nil {
				c.Failf("%v", err)
			}
			for _, r := range recs {
				stats.Accept(r)
			}
			ui := rangedbui.New(stats, b.Store)
			yes, no := 0, 0
			for i, r := range p.Reqs {
				resp, crash := ask(ui, r)
				if crash != "" {
					c.Failf("request %d (%s %s) made the handler panic: %s", i, r.Method, r.Target, crash)
				}
				if resp == nil {
					continue
				}
				if resp.Code >= 500 {
					c.Failf("request %d (%s %s): status %d: %.300s", i, r.Method, r.Target, resp.Code, resp.Body)
				}
				if resp.Code != 200 {
					no++
					continue
				}
				yes++
				if strings.HasPrefix(resp.Header().Get("Content-Type"), "text/html") && resp.Header().Get("Content-Encoding") == "" && r.Method != "HEAD" && !strings.HasPrefix(r.Target, "/static") {
					pg, err := parsePage(resp.Body.Bytes())
					if err != nil {
						c.Failf("request %d (%s %s): %v", i, r.Method, r.Target, err)
					}
					if n := strings.Count(pg.skeleton, "<script"); n > 2 {
						c.Failf("request %d (%s %s): %d scripts on the page", i, r.Method, r.Target, n)
					}
				}
			}
			if yes > 0 && no > 0 {
				c.NonTrivial()
			}
		})
}
