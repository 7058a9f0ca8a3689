package crypto

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"path"
	"regexp"
	"strings"
	"sync"
)

// faults hands out what goes wrong with the requests of the next operation.
type faults struct {
	mu    sync.Mutex
	next  []string
	fired int
	// yield varies the schedule of concurrent requests.
	yield func()
	// unsupported notes requests this stand-in does not understand.
	unsupported string
}

func (f *faults) set(next ...string) { f.mu.Lock(); f.next, f.fired = next, 0; f.mu.Unlock() }

func (f *faults) take() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(f.next) == 0 {
		return ""
	}
	x := f.next[0]
	f.next = f.next[1:]
	if x != "" {
		f.fired++
	}
	return x
}

func (f *faults) count() int { f.mu.Lock(); defer f.mu.Unlock(); return f.fired }

func (f *faults) unknown(what string) {
	f.mu.Lock()
	if f.unsupported == "" {
		f.unsupported = what
	}
	f.mu.Unlock()
}

var errBroken = errors.New("connection reset")

// vault stands in for a Vault server with a version 2 key/value engine.
type vault struct {
	faults
	token   string
	mux     sync.Mutex
	secrets map[string][]vaultVersion
}

type vaultVersion struct {
	data      map[string]any
	destroyed bool
	deleted   bool
}

func newVault() *vault { return &vault{token: "the token", secrets: map[string][]vaultVersion{}} }

func (v *vault) RoundTrip(r *http.Request) (*http.Response, error) {
	if v.yield != nil {
		v.yield()
		defer v.yield()
	}
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		_ = r.Body.Close()
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	fault := v.take()
	switch fault {
	case "net before":
		return nil, errBroken
	case "500 before":
		return respond(r, 500, `{"errors":["internal error"]}`), nil
	case "503 before":
		return respond(r, 503, "<html>unavailable</html>"), nil
	case "429 before":
		return respond(r, 429, `{"errors":["too many requests"]}`), nil
	}
	code, out := v.serve(r, body)
	switch fault {
	case "net after":
		return nil, errBroken
	case "500 after":
		return respond(r, 500, `{"errors":["internal error"]}`), nil
	}
	resp := respond(r, code, out)
	if code == http.StatusMovedPermanently {
		resp.Header.Set("Location", out)
	}
	return resp, nil
}

func respond(r *http.Request, code int, body string) *http.Response {
	return &http.Response{
		StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Request: r,
		Header: http.Header{"Content-Type": {"application/json"}},
		Body:   io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)),
	}
}

func (v *vault) serve(r *http.Request, body []byte) (int, string) {
	v.mux.Lock()
	defer v.mux.Unlock()
	// The server's multiplexer redirects paths that are not clean.
	p := r.URL.Path
	clean := path.Clean("/" + p)
	if strings.HasSuffix(p, "/") && clean != "/" {
		clean += "/"
	}
	if clean != p {
		u := *r.URL
		u.Path, u.RawPath = clean, ""
		return http.StatusMovedPermanently, u.String()
	}
	if r.Header.Get("X-Vault-Token") != v.token {
		return 403, `{"errors":["permission denied"]}`
	}
	rest, ok := strings.CutPrefix(p, "/v1/secret/")
	if !ok {
		return 404, `{"errors":["no handler for route"]}`
	}
	kind, name, _ := strings.Cut(rest, "/")
	if name == "" || strings.HasSuffix(name, "/") {
		if r.Method == http.MethodGet {
			return 404, `{"errors":[]}`
		}
		return 400, `{"errors":["cannot write to a path ending in '/'"]}`
	}
	versions := v.secrets[name]
	meta := func(i int) map[string]any {
		return map[string]any{"created_time": "2024-01-02T03:04:05.678Z", "custom_metadata": nil, "deletion_time": "", "destroyed": versions[i].destroyed, "version": i + 1}
	}
	switch kind + " " + r.Method {
	case "data GET":
		if len(versions) == 0 {
			return 404, `{"errors":[]}`
		}
		i := len(versions) - 1
		if versions[i].destroyed || versions[i].deleted {
			return 404, text(map[string]any{"request_id": "x", "data": map[string]any{"data": nil, "metadata": meta(i)}})
		}
		return 200, text(map[string]any{"request_id": "x", "lease_id": "", "renewable": false, "lease_duration": 0,
			"data": map[string]any{"data": versions[i].data, "metadata": meta(i)}, "wrap_info": nil, "warnings": nil, "auth": nil})
	case "data POST", "data PUT":
		var in struct {
			Data    map[string]any `json:"data"`
			Options struct {
				CAS *int `json:"cas"`
			} `json:"options"`
		}
		if err := json.Unmarshal(body, &in); err != nil || in.Data == nil {
			return 400, `{"errors":["no data provided"]}`
		}
		if in.Options.CAS != nil && *in.Options.CAS != len(versions) {
			return 400, `{"errors":["check-and-set parameter did not match the current version"]}`
		}
		versions = append(versions, vaultVersion{data: in.Data})
		v.secrets[name] = versions
		return 200, text(map[string]any{"request_id": "x", "data": meta(len(versions) - 1)})
	case "destroy POST", "destroy PUT":
		var in struct {
			Versions []int `json:"versions"`
		}
		if err := json.Unmarshal(body, &in); err != nil || len(in.Versions) == 0 {
			return 400, `{"errors":["no version number provided"]}`
		}
		for _, n := range in.Versions {
			if n >= 1 && n <= len(versions) {
				versions[n-1].destroyed, versions[n-1].data = true, nil
			}
		}
		return 204, ""
	case "data DELETE":
		if len(versions) > 0 {
			versions[len(versions)-1].deleted = true
		}
		return 204, ""
	case "metadata DELETE":
		delete(v.secrets, name)
		return 204, ""
	}
	v.unknown(kind + " " + r.Method)
	return 405, `{"errors":["unsupported operation"]}`
}

func text(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// dynamo stands in for DynamoDB. Reads that do not ask for consistency may
// lag behind the writes.
type dynamo struct {
	faults
	mux   sync.Mutex
	items map[string][]map[string]any // every state the item has had
	lag   int
}

var (
	dynamoOnce   sync.Once
	dynamoServer *httptest.Server
	dynamoMux    sync.Mutex
	dynamoTables = map[string]*dynamo{}
	tableSeq     int
)

// newDynamo makes a table of its own on the process's server.
func newDynamo() (d *dynamo, url, table string) {
	dynamoOnce.Do(func() { dynamoServer = httptest.NewServer(http.HandlerFunc(serveDynamo)) })
	dynamoMux.Lock()
	defer dynamoMux.Unlock()
	tableSeq++
	table = fmt.Sprintf("table%d", tableSeq)
	d = &dynamo{items: map[string][]map[string]any{}}
	dynamoTables[table] = d
	return d, dynamoServer.URL, table
}

func dropDynamo(table string) { dynamoMux.Lock(); delete(dynamoTables, table); dynamoMux.Unlock() }

func serveDynamo(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	var in map[string]any
	d := json.NewDecoder(bytes.NewReader(body))
	_ = d.Decode(&in)
	name, _ := in["TableName"].(string)
	dynamoMux.Lock()
	t := dynamoTables[name]
	dynamoMux.Unlock()
	w.Header().Set("Content-Type", "application/x-amz-json-1.0")
	if t == nil {
		dynamoError(w, 400, "ResourceNotFoundException")
		return
	}
	if t.yield != nil {
		t.yield()
		defer t.yield()
	}
	fault := t.take()
	switch fault {
	case "denied before":
		dynamoError(w, 400, "AccessDeniedException")
		return
	case "500 before":
		dynamoError(w, 500, "InternalServerError")
		return
	}
	_, op, _ := strings.Cut(r.Header.Get("X-Amz-Target"), ".")
	code, out := t.serve(op, in)
	if fault == "500 after" {
		dynamoError(w, 500, "InternalServerError")
		return
	}
	if fault == "denied after" {
		dynamoError(w, 400, "AccessDeniedException")
		return
	}
	if code != 200 {
		dynamoError(w, code, out)
		return
	}
	_, _ = io.WriteString(w, out)
}

func dynamoError(w http.ResponseWriter, code int, typ string) {
	w.WriteHeader(code)
	_, _ = fmt.Fprintf(w, `{"__type":"com.amazonaws.dynamodb.v20120810#%s","message":"%s"}`, typ, typ)
}

var (
	reCond   = regexp.MustCompile(`^\s*attribute_(not_)?exists\s*\(\s*([#\w]+)\s*\)\s*$`)
	reAssign = regexp.MustCompile(`^\s*([#\w]+)\s*=\s*(:\w+)\s*$`)
)

func (t *dynamo) serve(op string, in map[string]any) (int, string) {
	t.mux.Lock()
	defer t.mux.Unlock()
	names, _ := in["ExpressionAttributeNames"].(map[string]any)
	values, _ := in["ExpressionAttributeValues"].(map[string]any)
	attr := func(x string) string {
		if n, ok := names[x].(string); ok {
			return n
		}
		return x
	}
	holder := "Key"
	if op == "PutItem" {
		holder = "Item"
	}
	key, _ := in[holder].(map[string]any)
	id, _ := key["SubjectID"].(map[string]any)
	subject, isText := id["S"].(string)
	if !isText || subject == "" || len(subject) > 2048 {
		return 400, "ValidationException"
	}
	history := t.items[subject]
	var cur map[string]any
	if len(history) > 0 {
		cur = history[len(history)-1]
	}
	if cond, ok := in["ConditionExpression"].(string); ok {
		m := reCond.FindStringSubmatch(cond)
		if m == nil {
			t.unknown(op + " if " + cond)
			return 400, "ValidationException"
		}
		_, exists := cur[attr(m[2])]
		if exists == (m[1] == "not_") {
			return 400, "ConditionalCheckFailedException"
		}
	}
	switch op {
	case "GetItem":
		if consistent, _ := in["ConsistentRead"].(bool); !consistent && t.lag > 0 {
			cur = nil
			if n := len(history) - 1 - t.lag; n >= 0 {
				cur = history[n]
			}
		}
		out := map[string]any{}
		want, _ := in["AttributesToGet"].([]any)
		if e, ok := in["ProjectionExpression"].(string); ok {
			for _, a := range strings.Split(e, ",") {
				want = append(want, attr(strings.TrimSpace(a)))
			}
		}
		for k, v := range cur {
			keep := len(want) == 0
			for _, a := range want {
				keep = keep || a == k
			}
			if keep {
				out[k] = v
			}
		}
		if cur == nil {
			return 200, "{}"
		}
		return 200, text(map[string]any{"Item": out})
	case "PutItem":
		t.items[subject] = append(history, key)
		return 200, "{}"
	case "UpdateItem":
		next := map[string]any{"SubjectID": id}
		for k, v := range cur {
			next[k] = v
		}
		e, _ := in["UpdateExpression"].(string)
		sets, ok := strings.CutPrefix(strings.TrimSpace(e), "SET ")
		if !ok {
			t.unknown("UpdateItem " + e)
			return 400, "ValidationException"
		}
		for _, a := range strings.Split(sets, ",") {
			m := reAssign.FindStringSubmatch(a)
			if m == nil || values[m[2]] == nil {
				t.unknown("UpdateItem " + e)
				return 400, "ValidationException"
			}
			next[attr(m[1])] = values[m[2]]
		}
		t.items[subject] = append(history, next)
		return 200, "{}"
	}
	t.unknown(op)
	return 400, "ValidationException"
}
