package web

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime/debug"
	"strings"

	"github.com/inklabs/rangedb/pkg/rangedbapi"
	"pgregory.net/rapid"

	"verifharness/kit"
	"verifharness/pbt"
)

// WildReq is an arbitrary request.
type WildReq struct {
	Method string            `json:"m"`
	Target string            `json:"t"` // path and query, escaped
	Head   map[string]string `json:"h,omitempty"`
	Body   string            `json:"b,omitempty"`
}

// WildPlan is a sequence of requests on a store with content.
type WildPlan struct {
	Reqs []WildReq `json:"reqs"`
}

func genWild(routes []string, heads map[string][]string) func(t *rapid.T) WildPlan {
	seg := rapid.OneOf(
		rapid.SampledFrom([]string{"", "a", "b", "a!a", "%2F", "%00", "%ff", "..", ".", "%252e", "a.json", ".json", "a,b", ",", ",,", "-", "é", "%E2%80%A8", "a%20b", "json", "%3Cscript%3E", "+", "~", "'", "\"", "%22", "{streamName}", "$", "*"}),
		rapid.StringMatching(`[a-zA-Z0-9!$,.%-]{1,8}`).Filter(func(s string) bool { return !strings.Contains(s, "%") }),
	)
	query := rapid.OneOf(
		rapid.SampledFrom([]string{"", "page=0", "page=1&itemsPerPage=1", "page=-1", "itemsPerPage=0", "itemsPerPage=-5", "page=99999999999999999999", "page=18446744073709551615&itemsPerPage=18446744073709551615", "page=9223372036854775807&itemsPerPage=1000", "itemsPerPage=18446744073709551616", "page=x", "page=2&itemsPerPage=2", "page=1;page=2", "%zz", "current=1&itemsPerPage=1", "current=1&itemsPerPage=1&previous=0", "previous=1,2,x", "previous=18446744073709551615&current=18446744073709551615", "current=2&itemsPerPage=1&previous=%2C", "itemsPerPage=1", "global-sequence-number=-1", "global-sequence-number=x", "global-sequence-number=18446744073709551615"}),
		rapid.Custom(func(t *rapid.T) string {
			return fmt.Sprintf("page=%d&itemsPerPage=%d", rapid.Int64().Draw(t, "page"), rapid.Int64().Draw(t, "items"))
		}),
		rapid.StringMatching(`[a-z0-9=&%-]{0,12}`),
	)
	value := rapid.OneOf(
		rapid.SampledFrom([]string{`null`, `[]`, `{}`, `[null]`, `[[]]`, `[{}]`, `"x"`, `[{"data":1}]`, `[{"aggregateType":1}]`, `[{"aggregateType":"a","aggregateID":"a","eventType":"E","data":{"a":1}}]`, `[{"aggregateType":"a","aggregateID":"a","eventType":"E","data":1e999}]`, `[{"aggregateType":"a","aggregateID":"a","eventType":"E","data":1,"metadata":[1e999,-0,1E5]}]`, `[{"aggregateType":"\ud800","data":"\udfff"}]`, "[{\"data\":\"\xff\"}]", `[{"data":1,"data":2}]`, `[{"DATA":1}]`, strings.Repeat("[", 20000), strings.Repeat(`{"a":`, 20000)}),
		rapid.StringMatching(`[\[\]{}",:0-9a-z. \\u-]{0,30}`),
	)
	return func(t *rapid.T) WildPlan {
		return WildPlan{Reqs: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) WildReq {
			r := WildReq{Method: rapid.SampledFrom([]string{"GET", "GET", "POST", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "BREW"}).Draw(t, "method")}
			r.Target = rapid.SampledFrom(routes).Draw(t, "route")
			for strings.Contains(r.Target, "*") {
				r.Target = strings.Replace(r.Target, "*", "\x01", 1)
				r.Target = strings.Replace(r.Target, "\x01", strings.ReplaceAll(seg.Draw(t, "seg"), "*", "%2A"), 1)
			}
			if q := query.Draw(t, "query"); q != "" && rapid.Bool().Draw(t, "q") {
				r.Target += "?" + q
			}
			r.Head = map[string]string{}
			for k, vs := range heads {
				if v := rapid.SampledFrom(append([]string{""}, vs...)).Draw(t, k); v != "" {
					r.Head[k] = v
				}
			}
			r.Body = value.Draw(t, "body")
			return r
		}), 1, 8).Draw(t, "reqs")}
	}
}

// ask passes a request to a handler; it reports a panic.
func ask(h http.Handler, r WildReq) (resp *httptest.ResponseRecorder, crash string) {
	req, err := http.NewRequest(r.Method, "http://site"+r.Target, strings.NewReader(r.Body))
	if err != nil {
		return nil, ""
	}
	req.RequestURI = r.Target
	for k, v := range r.Head {
		req.Header.Set(k, v)
	}
	resp = httptest.NewRecorder()
	defer func() {
		if x := recover(); x != nil && x != http.ErrAbortHandler {
			crash = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	h.ServeHTTP(resp, req)
	return resp, ""
}

func init() {
	routes := []string{"/*", "/*/*", "/health-check", "/delete-stream/*", "/save-events/*", "/save-events/a!a", "/save-events/a!a", "/all-events.*", "/all-events.json", "/all-events.ndjson", "/all-events.msgpack", "/events-by-stream/*.json", "/events-by-stream/a!a.msgpack", "/events-by-stream/*.*", "/events-by-aggregate-type/*.json", "/events-by-aggregate-type/*,*.ndjson", "/events-by-aggregate-type/*.*", "/list-aggregate-types"}
	heads := map[string][]string{
		"Content-Type":                 {"application/json", "application/json", "text/plain"},
		"ExpectedStreamSequenceNumber": {"0", "1", "-1", "x", "18446744073709551615", "18446744073709551616", " 1", "0x1"},
		"Accept-Encoding":              {"gzip", "deflate", "gzip;q=0", "*", "br"},
	}
	pbt.Reg("C19", "wild", pbt.Opt{Quick: 16000, Thorough: 400000, Shards: 8,
		Rule: "arbitrary requests (methods, paths, queries, headers and bodies, mostly near the valid ones): no handler panics, and whatever is not answered with a success changes nothing; non-trivial when one was accepted and one refused"},
		genWild(routes, heads), func(c *pbt.C, p WildPlan) {
			b := kit.OpenUnbound("mem")
			c.Cleanup(b.Close)
			api, err := rangedbapi.New(rangedbapi.WithStore(b.Store))
			if err != nil {
				c.Failf("%v", err)
			}
			content := func() string {
				recs, err := kit.Drain(b.Store.Events(c0, 0))
				if err != nil {
					c.Failf("%v", err)
				}
				return kit.Show(recs) + fmt.Sprint(len(recs))
			}
			yes, no := 0, 0
			for i, r := range p.Reqs {
				before := content()
				resp, crash := ask(api, r)
				if crash != "" {
					c.Failf("request %d (%s %s) made the handler panic: %s", i, r.Method, r.Target, crash)
				}
				if resp == nil {
					continue
				}
				if resp.Code >= 200 && resp.Code < 300 {
					yes++
				} else {
					no++
					if now := content(); now != before {
						c.Failf("request %d (%s %s) was answered with %d, but changed the store:\n%s\n%s", i, r.Method, r.Target, resp.Code, before, now)
					}
				}
			}
			if resp, _ := ask(api, WildReq{Method: "GET", Target: "/all-events.json"}); resp.Code != 200 {
				c.Failf("all events afterwards: status %d: %s", resp.Code, resp.Body)
			} else if _, err := parse("json", resp.Body.Bytes()); err != nil {
				c.Failf("all events afterwards: %v", err)
			}
			if yes > 0 && no > 0 {
				c.NonTrivial()
			}
		})
}
