package crypto

import (
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/crypto/aes"
	"github.com/inklabs/rangedb/pkg/crypto/eventencryptor"
	"github.com/inklabs/rangedb/pkg/crypto/provider/cachekeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/dynamodbkeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/inmemorykeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/postgreskeystore"
	"github.com/inklabs/rangedb/pkg/crypto/provider/vaultkeystore"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"pgregory.net/rapid"

	"verifharness/fakepg"
	"verifharness/kit"
	"verifharness/pbt"
)

// backend is a key store server and its clients.
type backend struct {
	name    string
	clients []crypto.KeyStore
	fresh   func() crypto.KeyStore // a client that has cached nothing
	faults  *faults
	dyn     *dynamo
	first   *flaky // the cache
	close   func()
}

var databases atomic.Int64

func openKeys(name string, clients int, yield func()) *backend {
	b := &backend{name: name, faults: &faults{}, close: func() {}}
	var connect func() crypto.KeyStore
	cached := strings.HasPrefix(name, "cache-")
	switch strings.TrimPrefix(name, "cache-") {
	case "mem":
		s := &flaky{KeyStore: inmemorykeystore.New(), f: b.faults}
		s.f.yield = yield
		connect = func() crypto.KeyStore { return s }
	case "vault":
		v := newVault()
		v.yield = yield
		b.faults = &v.faults
		connect = func() crypto.KeyStore {
			s, err := vaultkeystore.New(vaultkeystore.Config{Address: "http://vault.test:8200", Token: v.token})
			if err != nil {
				panic(err)
			}
			s.SetTransport(v)
			return s
		}
	case "dynamo":
		d, url, table := newDynamo()
		d.yield = yield
		b.faults, b.dyn = &d.faults, d
		connect = func() crypto.KeyStore {
			s, err := dynamodbkeystore.New(&dynamodbkeystore.Config{TableName: table, AWSRegion: "us-east-1", AccessKeyID: "id", SecretAccessKey: "secret", EndpointURL: url})
			if err != nil {
				panic(err)
			}
			return s
		}
		b.close = func() { dropDynamo(table) }
	case "pg":
		db := fakepg.Create(fmt.Sprintf("keys%d", databases.Add(1)))
		connect = func() crypto.KeyStore {
			s, err := postgreskeystore.New(&postgresstore.Config{Host: "127.0.0.1", Port: fakepg.Port(), User: "u", Password: "p", DBName: db.Name})
			if err != nil {
				panic(err)
			}
			return s
		}
		db.SetHook(func(string) fakepg.Act {
			if yield != nil {
				yield()
			}
			switch b.faults.take() {
			case "net before":
				return fakepg.Act{Drop: "before"}
			case "net after":
				return fakepg.Act{Drop: "after"}
			case "net mid":
				return fakepg.Act{Drop: "mid"}
			case "500 before":
				return fakepg.Act{Err: &fakepg.Error{Code: "53100", Message: "could not extend file"}}
			}
			return fakepg.Act{}
		})
		b.close = db.Drop
	default:
		panic(name)
	}
	b.fresh = connect
	if cached {
		// Clients share one cache, as they do within one process.
		first := &flaky{KeyStore: inmemorykeystore.New(), f: &faults{yield: yield}, shared: b.faults}
		b.first = first
		s := cachekeystore.New(first, connect())
		connect = func() crypto.KeyStore { return s }
	}
	for i := 0; i < clients; i++ {
		b.clients = append(b.clients, connect())
	}
	return b
}

// flaky is a key store whose calls are delayed, and may fail without effect.
type flaky struct {
	crypto.KeyStore
	f      *faults
	shared *faults // the cache level fails when the next fault says so

	brokenDelete bool // deletions fail
	failed       int
}

func (s *flaky) fail(op string) error {
	if s.f.yield != nil {
		s.f.yield()
	}
	if s.shared != nil {
		s.shared.mu.Lock()
		defer s.shared.mu.Unlock()
		if len(s.shared.next) > 0 && s.shared.next[0] == "cache "+op {
			s.shared.next = s.shared.next[1:]
			s.shared.fired++
			return errBroken
		}
		return nil
	}
	if x := s.f.take(); strings.HasSuffix(x, "before") {
		return errBroken
	}
	return nil
}

func (s *flaky) Get(id string) (string, error) {
	if err := s.fail("get"); err != nil {
		return "", err
	}
	k, err := s.KeyStore.Get(id)
	if s.f.yield != nil {
		s.f.yield()
	}
	return k, err
}

func (s *flaky) Set(id, key string) error {
	if err := s.fail("set"); err != nil {
		return err
	}
	err := s.KeyStore.Set(id, key)
	if s.f.yield != nil {
		s.f.yield()
	}
	return err
}

func (s *flaky) Delete(id string) error {
	if err := s.fail("delete"); err != nil {
		return err
	}
	if s.brokenDelete {
		s.failed++
		return errBroken
	}
	return s.KeyStore.Delete(id)
}

// KOp is one call.
type KOp struct {
	Op     string   `json:"op"` // get, set, del, enc
	Client int      `json:"c,omitempty"`
	S      int      `json:"s"`
	K      int      `json:"k,omitempty"` // -1: no key
	Faults []string `json:"f,omitempty"`
	Lag    int      `json:"lag,omitempty"`
	Cache  bool     `json:"cache,omitempty"` // the cache cannot delete
}

// KPlan is a history of calls on a key store.
type KPlan struct {
	Backend  string   `json:"backend"`
	Clients  int      `json:"clients"`
	Subjects []string `json:"subjects"`
	Ops      []KOp    `json:"ops"`
}

var backends = []string{"mem", "vault", "vault", "dynamo", "dynamo", "pg", "pg", "cache-mem", "cache-vault", "cache-dynamo", "cache-pg"}

func genSubjects(t *rapid.T) []string {
	plain := rapid.SampledFrom([]string{"a", "b", "c3po", "6bf99d62af77440498b852e0c03e1d87", "user_1-x"})
	var out []string
	n := rapid.IntRange(1, 4).Draw(t, "subjects")
	for len(out) < n {
		s := plain.Draw(t, "subject")
		if rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
			of := s
			if len(out) > 0 {
				of = out[rapid.IntRange(0, len(out)-1).Draw(t, "of")]
			}
			s = rapid.SampledFrom([]string{"", "%s?x=1", "%s#f", "%s/", "/%s", "./%s", "x/../%s", "%s/../b", "%s/b", "%s%%", "%s%%20", "%%61", "%s ", " %s", "%s\x00", "%sé", "%s:", "..", ".", "%s\n", "%s;v", "%s&x", "%s+1", "A", "%s?version=1", "@%s", "%s?"}).Draw(t, "shape")
			if strings.Contains(s, "%s") {
				s = fmt.Sprintf(s, of)
			} else if strings.Contains(s, "%%") {
				s = strings.ReplaceAll(s, "%%", "%")
			}
		}
		dup := false
		for _, x := range out {
			dup = dup || x == s
		}
		if !dup {
			out = append(out, s)
		} else {
			n--
		}
	}
	return out
}

func genKPlan(t *rapid.T) KPlan {
	p := KPlan{Backend: rapid.SampledFrom(backends).Draw(t, "backend"), Clients: rapid.IntRange(1, 2).Draw(t, "clients"), Subjects: genSubjects(t)}
	faulty := rapid.IntRange(0, 1).Draw(t, "faulty") == 0
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) KOp {
		o := KOp{Op: rapid.SampledFrom([]string{"get", "get", "set", "set", "set", "del", "enc"}).Draw(t, "op"),
			Client: rapid.IntRange(0, p.Clients-1).Draw(t, "client"), S: rapid.IntRange(0, len(p.Subjects)-1).Draw(t, "s"), K: rapid.IntRange(-1, 6).Draw(t, "k")}
		o.Lag = rapid.IntRange(0, 2).Draw(t, "lag")
		if faulty && rapid.IntRange(0, 2).Draw(t, "fault") == 0 {
			kinds := []string{"net before"}
			switch strings.TrimPrefix(p.Backend, "cache-") {
			case "vault":
				kinds = []string{"", "net before", "net after", "500 before", "500 after", "503 before", "429 before"}
			case "pg":
				kinds = []string{"", "net before", "net after", "net mid", "500 before"}
			case "dynamo":
				kinds = []string{"", "denied before", "denied before", "denied after", "denied after", "500 after"}
			}
			if strings.HasPrefix(p.Backend, "cache-") {
				kinds = append(kinds, "cache get", "cache set", "cache get", "cache set")
			}
			o.Faults = rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 2).Draw(t, "faults")
			if o.Op == "del" && strings.HasPrefix(p.Backend, "cache-") {
				if o.Cache = rapid.Bool().Draw(t, "cache"); o.Cache {
					o.Faults = nil
				}
			}
		}
		return o
	}), 2, 16).Draw(t, "ops")
	return p
}

var rePlain = regexp.MustCompile(`^[A-Za-z0-9_-]+$`)

// refusable says whether a store may refuse to keep keys for a subject.
func refusable(backend, subject string) bool {
	if strings.HasSuffix(backend, "vault") {
		return !rePlain.MatchString(subject)
	}
	if strings.HasSuffix(backend, "pg") {
		return strings.Contains(subject, "\x00")
	}
	return strings.HasSuffix(backend, "dynamo") && subject == ""
}

// keyState is what may be true of a subject: "" unknown, "K:key", "D" deleted.
type keyState struct {
	may     map[string]bool
	lateDel bool // a deletion that failed may still take effect
	split   bool // a deletion failed halfway, and the cache may have kept the key
}

func (s *keyState) has(prefix string) bool {
	for x := range s.may {
		if strings.HasPrefix(x, prefix) {
			return true
		}
	}
	return false
}

func (s *keyState) only(f func(string) bool) {
	if s.split {
		return
	}
	for x := range s.may {
		if !f(x) {
			delete(s.may, x)
		}
	}
}

func (s *keyState) String() string {
	var out []string
	for x := range s.may {
		if x == "" {
			x = "unknown"
		}
		out = append(out, x)
	}
	sort.Strings(out)
	return strings.Join(out, " or ")
}

func theKey(i int) string {
	if i < 0 {
		return ""
	}
	return b64.EncodeToString([]byte(fmt.Sprintf("%032d", i)))
}

func init() {
	pbt.Reg("C22", "histories", pbt.Opt{Quick: 4000, Thorough: 150000, Shards: 4,
		Rule: "a case is a history of get, set, delete and first-use encryptions over a few (also strange) subjects by one or two clients of one key store, with request failures and stale reads; non-trivial when a key was set and read back, or refused, or deleted"},
		genKPlan, runKeys)
	pbt.Reg("C22", "races", pbt.Opt{Quick: 2500, Thorough: 60000, Shards: 8, Race: true,
		Rule: "a case is several goroutines getting, setting, deleting and first-use encrypting at the same time; non-trivial when at least two of them address the same subject"},
		genRPlan, runRaces)
	pbt.Reg("C22", "stampede", pbt.Opt{Quick: 300, Thorough: 12000, Shards: 2,
		Rule: "a case is 50 to 200 rounds, in each of which 2 to 6 goroutines meet on one subject of an in-memory or cached key store and get, set, delete or first-use encrypt at the same moment; each is non-trivial"},
		genMPlan, runStampede)
}

// MPlan is a number of rounds in which all clients meet on a new subject.
type MPlan struct {
	Backend string `json:"backend"`
	Clients []KOp  `json:"clients"`
	Rounds  int    `json:"rounds"`
	Warm    bool   `json:"warm"` // the subject has a key already
}

func genMPlan(t *rapid.T) MPlan {
	p := MPlan{Backend: rapid.SampledFrom([]string{"mem", "mem", "cache-mem"}).Draw(t, "backend"), Warm: rapid.IntRange(0, 3).Draw(t, "warm") == 0}
	ops := rapid.SampledFrom([][]string{{"set"}, {"enc"}, {"set", "enc"}, {"set", "get", "enc"}, {"set", "del", "enc", "get"}}).Draw(t, "ops")
	p.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) KOp { return KOp{Op: rapid.SampledFrom(ops).Draw(t, "op")} }), 2, 6).Draw(t, "clients")
	p.Rounds = rapid.IntRange(50, 200).Draw(t, "rounds")
	return p
}

func runStampede(c *pbt.C, p MPlan) {
	b := openKeys(p.Backend, len(p.Clients), nil)
	c.Cleanup(b.close)
	c.Class("backend " + p.Backend)
	var clock atomic.Int64
	logs := make([][]*event, p.Rounds)
	for r := range logs {
		if p.Warm {
			key := theKey(r)
			if err := b.clients[0].Set(fmt.Sprintf("s%d", r), key); err != nil {
				c.Failf("cannot set the first key: %v", err)
			}
			logs[r] = append(logs[r], &event{op: KOp{Op: "set"}, begin: clock.Add(1), end: clock.Add(1), key: key})
		}
		logs[r] = append(logs[r], make([]*event, len(p.Clients))...)
	}
	arrived := make([]atomic.Int64, p.Rounds)
	var wg sync.WaitGroup
	for i, o := range p.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := b.clients[i]
			for r := range logs {
				subject := fmt.Sprintf("s%d", r)
				e := &event{op: o, client: i}
				ev := &secret{ID: subject, Text: "clear text"}
				enc := eventencryptor.New(s, aes.NewGCM())
				e.key = theKey(1000 + r*10 + i)
				arrived[r].Add(1)
				for spin := 0; arrived[r].Load() < int64(len(p.Clients)); spin++ {
					if spin > 2000 {
						runtime.Gosched()
					}
				}
				e.begin = clock.Add(1)
				switch o.Op {
				case "get":
					e.key, e.err = s.Get(subject)
				case "set":
					e.err = s.Set(subject, e.key)
				case "del":
					e.err = s.Delete(subject)
				case "enc":
					e.err = enc.Encrypt(ev)
					e.text = ev.Text
				}
				e.end = clock.Add(1)
				logs[r][len(logs[r])-len(p.Clients)+i] = e
			}
		}()
	}
	wg.Wait()
	for r := range logs {
		judgeRace(c, fmt.Sprintf("s%d", r), logs[r], b.fresh())
	}
	c.NonTrivial()
}

func runKeys(c *pbt.C, p KPlan) {
	kit.Excuse(c)
	b := openKeys(p.Backend, p.Clients, nil)
	c.Cleanup(b.close)
	c.Class("backend " + p.Backend)
	states := make([]*keyState, len(p.Subjects))
	for i := range states {
		states[i] = &keyState{may: map[string]bool{"": true}}
	}
	used := map[string]string{} // key: the subject it was accepted for, "?" when it may have been
	for i, o := range p.Ops {
		st, subject, s := states[o.S], p.Subjects[o.S], b.clients[o.Client]
		if b.dyn != nil {
			b.dyn.mux.Lock()
			b.dyn.lag = o.Lag
			b.dyn.mux.Unlock()
		}
		b.faults.set(o.Faults...)
		what := fmt.Sprintf("op %d: %s(%q)", i, o.Op, subject)
		guard(c, what, func() { doKeyOp(c, b, s, st, o, subject, what, used) })
		b.faults.set()
		if b.faults.unsupported != "" {
			c.Class("unsupported request: " + b.faults.unsupported)
			return
		}
	}
	if b.dyn != nil {
		b.dyn.mux.Lock()
		b.dyn.lag = 2
		b.dyn.mux.Unlock()
	}
	// Whatever happened, every client and a new one agree in the end.
	for _, s := range append([]crypto.KeyStore{b.clients[0], b.clients[len(b.clients)-1]}, b.fresh()) {
		for i, subject := range p.Subjects {
			guard(c, "final get", func() {
				doKeyOp(c, b, s, states[i], KOp{Op: "get"}, subject, fmt.Sprintf("at the end: get(%q)", subject), used)
			})
		}
	}
}

// maybe marks a key that was perhaps accepted for some subject.
const maybe = "(maybe)"

func mayUse(used map[string]string, key string) {
	if used[key] == "" {
		used[key] = maybe
	}
}

func doKeyOp(c *pbt.C, b *backend, s crypto.KeyStore, st *keyState, o KOp, subject, what string, used map[string]string) {
	was := st.String()
	mayFail := func() bool { return b.faults.count() > 0 || refusable(b.name, subject) }
	switch o.Op {
	case "get":
		key, err := s.Get(subject)
		if err != nil && key != "" {
			c.Failf("%s: key %q along with error %v", what, key, err)
		}
		var now string
		switch {
		case err == nil:
			now = "K:" + key
			c.NonTrivial()
		case err == crypto.ErrKeyNotFound:
			now = ""
		case err == crypto.ErrKeyWasDeleted:
			now = "D"
			c.NonTrivial()
		case mayFail():
			return
		default:
			c.Failf("%s: fails with %v; the key is %s", what, err, was)
		}
		if !st.may[now] {
			c.Failf("%s: got key %q and error %v; the key is %s", what, key, err, was)
		}
		late := st.lateDel && st.may["D"]
		st.only(func(x string) bool { return x == now || late && x == "D" })
	case "set":
		key := theKey(o.K)
		err := s.Set(subject, key)
		failed := b.faults.count() > 0
		switch {
		case err == nil:
			if key == "" || !st.may[""] {
				c.Failf("%s: key %q is accepted; the key is %s", what, key, was)
			}
			if by, ok := used[key]; strings.HasSuffix(b.name, "mem") && ok && by != maybe {
				c.Failf("%s: key %q is accepted for a second subject, after %s", what, key, by)
			}
			st.may = map[string]bool{"K:" + key: true}
			st.lateDel = false
			used[key] = fmt.Sprintf("subject %q", subject)
		case key == "":
			if err != crypto.ErrInvalidKey && !mayFail() {
				c.Failf("%s: no key is refused with %v", what, err)
			}
		case err == crypto.ErrKeyAlreadyUsed:
			if used[key] == "" {
				c.Failf("%s: %v, but key %q was never used", what, err, key)
			}
		case err == crypto.ErrKeyExistsForSubjectID:
			c.NonTrivial()
			if failed && st.may[""] {
				st.may["K:"+key] = true // its own first attempt may have come through
				mayUse(used, key)
			}
			if !st.has("K:") && !st.has("D") {
				c.Failf("%s: %v; the key is %s", what, err, was)
			}
			st.only(func(x string) bool { return x != "" })
		case failed || refusable(b.name, subject):
			if failed && st.may[""] {
				st.may["K:"+key] = true
				mayUse(used, key)
			}
		case st.has("D"):
			// A deleted subject may be refused with any error.
			st.only(func(x string) bool { return x != "" })
		default:
			c.Failf("%s: refused with %v; the key is %s", what, err, was)
		}
	case "del":
		if b.first != nil {
			b.first.brokenDelete, b.first.failed = o.Cache, 0
			defer func() { b.first.brokenDelete = false }()
		}
		err := s.Delete(subject)
		if b.first != nil && b.first.failed > 0 {
			c.Class("cache cannot delete")
			if err != nil {
				st.may["D"], st.split = true, true
				return
			}
			// It says that the key is deleted, so nobody gets it any more.
		}
		switch {
		case err == nil:
			st.split = false
			next := map[string]bool{"D": true}
			if st.may[""] { // deleting an unknown subject may leave it unknown
				next[""] = true
			}
			st.may, st.lateDel = next, false
		case mayFail() || st.may[""]:
			st.may["D"] = true
			st.lateDel = true
		default:
			c.Failf("%s: fails with %v; the key is %s", what, err, was)
		}
	case "enc":
		e := eventencryptor.New(s, aes.NewGCM())
		ev := &secret{ID: subject, Text: "clear text"}
		err := e.Encrypt(ev)
		failed := b.faults.count() > 0
		if err != nil {
			if ev.Text != "clear text" {
				c.Failf("%s: the event is changed although encrypting failed", what)
			}
			if err == crypto.ErrKeyWasDeleted {
				if !st.may["D"] {
					c.Failf("%s: %v; the key is %s", what, err, was)
				}
				return
			}
			if !mayFail() {
				c.Failf("%s: cannot encrypt for a subject whose key is %s: %v", what, was, err)
			}
			// The key made for it may have been kept: learn it from a good read.
			b.faults.set()
			key, err := b.fresh().Get(subject)
			if err == nil && st.may[""] && used[key] == "" && failed {
				st.may["K:"+key] = true
				mayUse(used, key)
			}
			return
		}
		b.faults.set()
		key, err := s.Get(subject)
		if err != nil {
			if refusable(b.name, subject) {
				return
			}
			c.Failf("%s: encrypted, but then the key cannot be read: %v; the key was %s", what, err, was)
		}
		if st.may[""] && used[key] == "" {
			st.may["K:"+key] = true
			mayUse(used, key)
		}
		if !st.may["K:"+key] {
			c.Failf("%s: encrypted with key %q; the key is %s", what, key, was)
		}
		if got, err := aes.NewGCM().Decrypt(key, ev.Text); err != nil || got != "clear text" {
			c.Failf("%s: the subject's key does not decrypt what was just encrypted (%q, %v); the key was %s", what, got, err, was)
		}
		late := st.lateDel && st.may["D"]
		st.only(func(x string) bool { return x == "K:"+key || late && x == "D" })
		c.NonTrivial()
		c.Class("first use")
	}
}

// secret is an event with one secret field.
type secret struct{ ID, Text string }

func (s *secret) AggregateID() string   { return s.ID }
func (s *secret) AggregateType() string { return "secret" }
func (s *secret) EventType() string     { return "secret" }
func (s *secret) Encrypt(e crypto.Encryptor) error {
	x, err := e.Encrypt(s.ID, s.Text)
	if err == nil {
		s.Text = x
	}
	return err
}
func (s *secret) Decrypt(e crypto.Encryptor) error {
	x, err := e.Decrypt(s.ID, s.Text)
	if err == nil {
		s.Text = x
	}
	return err
}

// RPlan is a set of concurrent clients.
type RPlan struct {
	Backend string  `json:"backend"`
	Seed    uint64  `json:"seed"`
	Warm    bool    `json:"warm"` // subject 0 has a key already, no client has cached it
	Clients [][]KOp `json:"clients"`
}

func genRPlan(t *rapid.T) RPlan {
	p := RPlan{Backend: rapid.SampledFrom(backends).Draw(t, "backend"), Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Warm: rapid.IntRange(0, 2).Draw(t, "warm") == 0}
	ops := rapid.SampledFrom([][]string{{"enc"}, {"enc", "get"}, {"get", "set", "enc"}, {"get", "set", "del", "enc", "get"}}).Draw(t, "ops")
	p.Clients = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) KOp {
		return KOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), S: rapid.IntRange(0, 9).Draw(t, "s") / 7}
	}), 1, 4), 2, 6).Draw(t, "clients")
	return p
}

type event struct {
	op         KOp
	client     int
	begin, end int64
	key        string // read or set
	text       string // ciphertext
	err        error
}

func runRaces(c *pbt.C, p RPlan) {
	kit.Excuse(c)
	y := &kit.Yielder{Seed: p.Seed}
	b := openKeys(p.Backend, len(p.Clients), y.Yield)
	c.Cleanup(b.close)
	c.Class("backend " + p.Backend)
	subjects := []string{"alice", "bob"}
	var clock atomic.Int64
	var log []*event
	if p.Warm {
		key := theKey(999)
		if err := b.fresh().Set(subjects[0], key); err != nil {
			c.Failf("cannot set the first key: %v", err)
		}
		log = append(log, &event{op: KOp{Op: "set"}, begin: clock.Add(1), end: clock.Add(1), key: key})
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	seen := map[int]bool{}
	for i, ops := range p.Clients {
		mine := map[int]bool{}
		for _, o := range ops {
			mine[o.S] = true
		}
		for s := range mine {
			if seen[s] {
				c.NonTrivial()
			}
			seen[s] = true
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			s := b.clients[i]
			for j, o := range ops {
				e := &event{op: o, client: i, begin: clock.Add(1)}
				subject := subjects[o.S]
				switch o.Op {
				case "get":
					e.key, e.err = s.Get(subject)
				case "set":
					e.key = theKey(10*i + j)
					e.err = s.Set(subject, e.key)
				case "del":
					e.err = s.Delete(subject)
				case "enc":
					ev := &secret{ID: subject, Text: "clear text"}
					e.err = eventencryptor.New(s, aes.NewGCM()).Encrypt(ev)
					e.text = ev.Text
				}
				e.end = clock.Add(1)
				mu.Lock()
				log = append(log, e)
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	if b.faults.unsupported != "" {
		c.Class("unsupported request: " + b.faults.unsupported)
		return
	}
	for i, subject := range subjects {
		var of []*event
		for _, e := range log {
			if e.op.S == i {
				of = append(of, e)
			}
		}
		judgeRace(c, subject, of, b.fresh())
	}
}

func judgeRace(c *pbt.C, subject string, log []*event, fresh crypto.KeyStore) {
	final, finalErr := fresh.Get(subject)
	keys := map[string]string{} // key: who claims it
	claim := func(key, who string) {
		keys[key] = who
		if len(keys) > 1 {
			c.Failf("%s: more than one key: %v", subject, keys)
		}
	}
	if finalErr == nil {
		claim(final, "the last read")
	}
	deletedBy := int64(1) << 60 // a deletion had returned by then
	deletes, sets, encs := 0, 0, 0
	firstDel := int64(1) << 60
	for _, e := range log {
		if e.op.Op == "del" {
			deletes++
			if e.err != nil {
				c.Failf("%s: a deletion fails: %v", subject, e.err)
			}
			firstDel = min(firstDel, e.begin)
		}
	}
	setEnd := int64(1) << 60 // a key existed by then
	for _, e := range log {
		who := fmt.Sprintf("%s by client %d", e.op.Op, e.client)
		switch e.op.Op {
		case "get":
			switch e.err {
			case nil:
				claim(e.key, who)
				setEnd = min(setEnd, e.end)
			case crypto.ErrKeyNotFound:
			case crypto.ErrKeyWasDeleted:
				if deletes == 0 {
					c.Failf("%s: a get reports the key deleted, nobody deleted it", subject)
				}
			default:
				c.Failf("%s: a get fails: %v", subject, e.err)
			}
		case "set":
			if e.err == nil {
				sets++
				claim(e.key, who)
				setEnd = min(setEnd, e.end)
			} else if deletes == 0 && e.err != crypto.ErrKeyExistsForSubjectID {
				c.Failf("%s: a set is refused with %v", subject, e.err)
			}
		case "enc":
			if e.err == nil {
				encs++
				setEnd = min(setEnd, e.end)
			} else if deletes == 0 || e.err != crypto.ErrKeyWasDeleted {
				c.Failf("%s: client %d cannot encrypt for a new subject: %v", subject, e.client, e.err)
			}
		}
	}
	if sets > 1 {
		c.Failf("%s: %d sets are accepted", subject, sets)
	}
	if encs > 0 {
		c.Class("concurrent first use")
	}
	// A deletion of a key that surely existed removes it for good.
	for _, e := range log {
		if e.op.Op == "del" && e.begin > setEnd {
			deletedBy = min(deletedBy, e.end)
		}
	}
	for _, e := range log {
		if e.begin > deletedBy && e.op.Op != "del" {
			ok := e.err == crypto.ErrKeyWasDeleted || e.op.Op == "set" && e.err != nil
			if !ok {
				c.Failf("%s: after the key was deleted, %s by client %d gives key %q, error %v", subject, e.op.Op, e.client, e.key, e.err)
			}
		}
		if e.op.Op == "get" && e.err == crypto.ErrKeyNotFound && e.begin > setEnd && setEnd < firstDel {
			c.Failf("%s: a key that was there is reported as not found", subject)
		}
	}
	if deletedBy < 1<<60 && finalErr != crypto.ErrKeyWasDeleted {
		c.Failf("%s: the key was deleted, the last read gives %q, %v", subject, final, finalErr)
	}
	if deletes == 0 && setEnd < 1<<60 && finalErr != nil {
		c.Failf("%s: the last read fails: %v", subject, finalErr)
	}
	if finalErr == nil {
		for _, e := range log {
			if e.op.Op == "enc" && e.err == nil {
				if got, err := aes.NewGCM().Decrypt(final, e.text); err != nil || got != "clear text" {
					c.Failf("%s: what client %d encrypted is lost: the key does not decrypt it (%v)", subject, e.client, err)
				}
			}
		}
	} else {
		// Ciphertexts of a deleted subject still share one key.
		c.Class("deleted meanwhile")
	}
}
