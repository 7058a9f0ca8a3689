package gen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"github.com/inklabs/rangedb/pkg/eventparser"
	"github.com/inklabs/rangedb/pkg/structparser"
	"pgregory.net/rapid"

	"verifharness/pbt"
)

// GField is a field of an annotated struct.
type GField struct {
	Names []string `json:"n"`
	Kind  string   `json:"k"` // id, subject, idsubject, personal, serial, plain
	Type  string   `json:"t,omitempty"`
	To    string   `json:"to,omitempty"`  // where a serialised field is kept
	Tag   int      `json:"tag,omitempty"` // how the tag is written
}

// GStruct is an annotated event or command.
type GStruct struct {
	Name   string   `json:"name"`
	Fields []GField `json:"f"`
	Group  bool     `json:"g,omitempty"` // declared in a type group with the one before
	Noise  int      `json:"noise,omitempty"`
}

// GPkg is a package of annotated source.
type GPkg struct {
	Agg      string      `json:"agg"`
	Type     string      `json:"type"`
	ID       string      `json:"id"`
	Events   [][]GStruct `json:"events"` // files; the first is that of the aggregate
	Commands []GStruct   `json:"commands"`
	Env      bool        `json:"env"` // flags are left to go generate's environment
	Seed     int         `json:"seed"`
}

// GPlan is a program.
type GPlan struct {
	Pkgs []GPkg `json:"pkgs"`
}

var fieldWords = []string{"Name", "Email", "Phone", "Type", "Err", "E", "Range", "Address", "Map", "Encryptor", "Crypto", "String", "Strconv", "Func", "Value", "Note", "Überschrift", "Größe", "Name2", "URL", "IPAddress", "note", "X", "Error", "Key", "SubjectID", "Package", "Default", "日本", "Nil", "New", "Int", "NameEncrypted", "RedactTo", "DecryptedAge"}
var serialWords = []string{"Age", "BirthYear", "Number", "Pin", "Err2", "Zahl", "Äpfel", "Count", "Var", "Import"}
var nameWords = []string{"Thing", "User", "Room", "Order", "Überweisung", "URL", "A", "Go", "Éclair", "X", "Item2", "TypeOf"}
var verbWords = []string{"Done", "WasMade", "WasSeen", "Changed", "2", "Ünd", "_Left", "Ended"}
var cmdWords = []string{"Make", "See", "Change", "Öffne", "End", "Do", "Set2"}

func genPkg(t *rapid.T) GPkg {
	p := GPkg{
		Agg:  rapid.SampledFrom([]string{"room", "Room", "theThing", "x", "gerät"}).Draw(t, "agg"),
		Type: rapid.SampledFrom([]string{"room", "Thing", "my-thing", "a b", "thing.v2", "ding-für-alle", "t"}).Draw(t, "type"),
		ID:   rapid.SampledFrom([]string{"ID", "UserID", "Key", "id"}).Draw(t, "idfield"),
		Env:  rapid.Bool().Draw(t, "env"),
		Seed: rapid.IntRange(0, 1000).Draw(t, "seed"),
	}
	used := map[string]bool{"load": true, "handle": true, "apply": true, "raise": true, "resetPendingEvents": true, "commandTypes": true, p.Agg: true, "log": true, "pendingEvents": true, lower(p.Agg): true}
	name := func(a, b []string) string {
		for {
			n := rapid.SampledFrom(a).Draw(t, "a") + rapid.SampledFrom(b).Draw(t, "b")
			if !used[lower(n)] {
				used[lower(n)] = true
				return n
			}
			if k := rapid.IntRange(0, 999).Draw(t, "k"); !used[lower(n)+strconv.Itoa(k)] {
				n += strconv.Itoa(k)
				used[lower(n)] = true
				return n
			}
		}
	}
	event := func(t *rapid.T) GStruct {
		s := GStruct{Name: name(nameWords, verbWords), Group: rapid.Bool().Draw(t, "group"), Noise: rapid.IntRange(0, 5).Draw(t, "noise")}
		s.Fields = genFields(t, p.ID, true)
		return s
	}
	files := rapid.IntRange(1, 2).Draw(t, "files")
	for i := 0; i < files; i++ {
		var f []GStruct
		for n := rapid.IntRange(1, 4).Draw(t, "events"); n > 0; n-- {
			f = append(f, event(t))
		}
		p.Events = append(p.Events, f)
	}
	for n := rapid.IntRange(0, 4).Draw(t, "commands"); n > 0; n-- {
		s := GStruct{Name: name(cmdWords, nameWords), Group: rapid.Bool().Draw(t, "group"), Noise: rapid.IntRange(0, 5).Draw(t, "noise")}
		s.Fields = genFields(t, p.ID, false)
		p.Commands = append(p.Commands, s)
	}
	return p
}

func genFields(t *rapid.T, id string, personal bool) []GField {
	taken := map[string]bool{lower(id): true}
	pick := func(from []string) string {
		for _, i := range rapid.Permutation(from).Draw(t, "pick") {
			if !taken[lower(i)] {
				taken[lower(i)] = true
				return i
			}
		}
		return ""
	}
	var fields []GField
	add := func(f GField) { fields = append(fields, f) }
	subject := ""
	if personal {
		subject = rapid.SampledFrom([]string{"", "id", "own", "id"}).Draw(t, "subject")
	}
	idKind := "id"
	if subject == "id" {
		idKind = "idsubject"
	}
	tag := func() int { return rapid.IntRange(0, 6).Draw(t, "tag") }
	idf := GField{Names: []string{id}, Kind: idKind, Type: "string", Tag: tag()}
	if idKind == "id" && rapid.IntRange(0, 3).Draw(t, "joint") == 0 {
		idf.Names = append(idf.Names, pick(fieldWords))
	}
	add(idf)
	if subject == "own" {
		add(GField{Names: []string{pick(fieldWords)}, Kind: "subject", Type: "string", Tag: tag()})
	}
	names := func() []string {
		out := []string{pick(fieldWords)}
		for rapid.IntRange(0, 4).Draw(t, "more") == 0 && len(out) < 4 {
			if n := pick(fieldWords); n != "" {
				out = append(out, n)
			}
		}
		return out
	}
	if subject != "" {
		for n := rapid.IntRange(0, 4).Draw(t, "personals"); n > 0; n-- {
			add(GField{Names: names(), Kind: "personal", Type: "string", Tag: tag()})
		}
		for n := rapid.IntRange(0, 2).Draw(t, "serials"); n > 0; n-- {
			s := pick(serialWords)
			to := s + "Encrypted"
			if rapid.IntRange(0, 4).Draw(t, "to") == 0 {
				to = pick(fieldWords)
			}
			taken[lower(to)] = true
			add(GField{Names: []string{s}, Kind: "serial", Type: "int", To: to, Tag: tag()})
			add(GField{Names: []string{to}, Kind: "target", Type: "string"})
		}
	}
	for n := rapid.IntRange(0, 3).Draw(t, "plains"); n > 0; n-- {
		add(GField{Names: names(), Kind: "plain", Type: rapid.SampledFrom([]string{"string", "int", "bool", "[]string", "map[string]int", "*int", "struct{ A, B string }", "interface{}", "float64", "func()"}).Draw(t, "type"), Tag: tag()})
	}
	return rapid.Permutation(fields).Draw(t, "order")
}

func lower(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToLower(r)) + s[n:]
}

// source writes a struct as Go.
func (s GStruct) source(b *strings.Builder, inGroup bool) {
	if !inGroup {
		b.WriteString("type ")
	}
	fmt.Fprintf(b, "%s struct {\n", s.Name)
	for i, f := range s.Fields {
		if s.Noise == 3 && i == 0 {
			b.WriteString("\t// A comment with `encrypt:\"personal-data\"` in it.\n")
		}
		fmt.Fprintf(b, "\t%s %s%s\n", strings.Join(f.Names, ", "), f.Type, f.tag())
	}
	b.WriteString("}\n\n")
}

func (f GField) tag() string {
	var tags []string
	switch f.Kind {
	case "subject", "idsubject":
		tags = append(tags, `encrypt:"subject-id"`)
	case "personal":
		tags = append(tags, `encrypt:"personal-data"`)
	case "serial":
		tags = append(tags, `encrypt:"personal-data"`, fmt.Sprintf(`serialized:%q`, f.To))
	}
	switch f.Tag {
	case 1:
		tags = append(tags, `json:"x,omitempty"`)
	case 2:
		tags = append([]string{`json:"-"`, `xml:"y"`}, tags...)
	case 3:
		for i, j := 0, len(tags)-1; i < j; i, j = i+1, j-1 {
			tags[i], tags[j] = tags[j], tags[i]
		}
	}
	if len(tags) == 0 {
		return ""
	}
	text := strings.Join(tags, " ")
	if f.Tag == 4 {
		return " " + strconv.Quote(text)
	}
	if f.Tag == 5 {
		return " `" + text + "` // a comment"
	}
	return " `" + text + "`"
}

var noises = []string{"", "// nothing\n\n", "type Alias%d = string\n\n", "type Iface%d interface {\n\tDo() error\n}\n\n", "func helper%d() string { return \"type X struct {}\" }\n\n", "const c%d = 1\n\nvar v%d = map[string]int{}\n\ntype num%d int\n\n"}

func fileSource(pkg string, decls []GStruct, salt int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "// Package %s is annotated source.\npackage %s\n\n", pkg, pkg)
	for i := 0; i < len(decls); i++ {
		n := noises[decls[i].Noise%len(noises)]
		b.WriteString(strings.ReplaceAll(n, "%d", strconv.Itoa(salt*100+i)))
		j := i + 1
		for j < len(decls) && decls[j].Group {
			j++
		}
		if j == i+1 {
			decls[i].source(&b, false)
			continue
		}
		b.WriteString("type (\n")
		for ; i < j; i++ {
			decls[i].source(&b, true)
		}
		i--
		b.WriteString(")\n\n")
	}
	return b.String()
}

// value is what a string or int field is set to.
func value(seed int, st, field, typ string) (string, string) {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d %s %s", seed, st, field)
	n := int(h.Sum32())
	switch typ {
	case "string":
		v := []string{"", "v-" + field, "é \"q\" \\ \n", "0", strings.Repeat("long ", 20), "enc(k:v)"}[n%6]
		return v, strconv.Quote(v)
	case "int":
		v := []int{0, 1, -1, 1999, 1 << 62, -(1 << 62)}[n%6]
		return strconv.Itoa(v), strconv.Itoa(v)
	case "bool":
		return "true", "true"
	case "float64":
		return "1.5", "1.5"
	}
	return "", ""
}

// fields calls f with every single field.
func (s GStruct) fields(f func(name string, g GField)) {
	for _, g := range s.Fields {
		for i, n := range g.Names {
			h := g
			if g.Kind == "id" && i > 0 {
				h.Kind = "plain"
			}
			f(n, h)
		}
	}
}

func dumpable(typ string) bool {
	return typ == "string" || typ == "int" || typ == "bool" || typ == "float64"
}

func (s GStruct) literal(seed int) string {
	var b strings.Builder
	b.WriteString(s.Name + "{")
	s.fields(func(name string, g GField) {
		if g.Kind == "target" || !dumpable(g.Type) {
			return
		}
		_, lit := value(seed, s.Name, name, g.Type)
		fmt.Fprintf(&b, "%s: %s, ", name, lit)
	})
	b.WriteString("}")
	return b.String()
}

// driver writes the code which exercises the generated code of a package.
func (p GPkg) driver(pkg string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"fmt\"\n\t\"genprogram/probe\"\n\t\"github.com/inklabs/rangedb\"\n)\n\nvar _ = fmt.Sprint\n\n", pkg)
	// The aggregate and its handlers.
	events := p.Events[0]
	fmt.Fprintf(&b, "type %s struct {\n\tpendingEvents []rangedb.Event\n\tlog []string\n}\n\n", p.Agg)
	if len(events) > 0 {
		for _, e := range events {
			fmt.Fprintf(&b, "func (a *%s) %s(e %s) { a.log = append(a.log, \"event %s \"+e.%s) }\n", p.Agg, lower(e.Name), e.Name, e.Name, p.ID)
		}
	}
	for i, c := range p.Commands {
		fmt.Fprintf(&b, "func (a *%s) %s(c %s) {\n\ta.log = append(a.log, \"command %s \"+c.%s)\n", p.Agg, lower(c.Name), c.Name, c.Name, p.ID)
		e := events[i%len(events)]
		for k := 0; k < i%3; k++ {
			amp := ""
			if k == 0 {
				amp = "&"
			}
			fmt.Fprintf(&b, "\ta.raise(%s%s{%s: c.%s})\n", amp, e.Name, p.ID, p.ID)
		}
		b.WriteString("}\n")
	}
	b.WriteString("\nfunc Run() (r probe.Result) {\n")
	for _, f := range p.Events {
		for _, e := range f {
			fmt.Fprintf(&b, "\tr.Events = append(r.Events, probe.Event(func() rangedb.Event { v := %s; return &v }, func() rangedb.Event { return %s }, func(x rangedb.Event) map[string]string {\n\t\te := x.(*%s)\n\t\treturn map[string]string{", e.literal(p.Seed), e.literal(p.Seed), e.Name)
			e.fields(func(name string, g GField) {
				if dumpable(g.Type) {
					fmt.Fprintf(&b, "%q: fmt.Sprint(e.%s), ", name, name)
				}
			})
			b.WriteString("}\n\t}))\n")
		}
	}
	b.WriteString("\tr.Bound = probe.Bound(func(b rangedb.EventBinder) { BindEvents(b) })\n")
	fmt.Fprintf(&b, "\ta := &%s{}\n", p.Agg)
	b.WriteString("\tr.Aggregate = probe.Aggregate(a, func() []string { return a.log }, []probe.Cmd{")
	for _, c := range p.Commands {
		fmt.Fprintf(&b, "func() probe.Command { v := %s; return &v }(), %s, ", c.literal(p.Seed), c.literal(p.Seed))
	}
	b.WriteString("probe.Unknown{}}, []rangedb.Event{")
	for _, f := range p.Events {
		for _, e := range f {
			fmt.Fprintf(&b, "func() rangedb.Event { v := %s; return &v }(), %s, ", e.literal(p.Seed), e.literal(p.Seed))
		}
	}
	b.WriteString("})\n\treturn r\n}\n")
	return b.String()
}

const probeSource = `package probe

import (
	"errors"
	"fmt"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
	"github.com/inklabs/rangedb/pkg/crypto"
)

type Command = cqrs.Command
type Cmd = cqrs.Command

// Unknown is a command no aggregate handles.
type Unknown struct{}

func (Unknown) AggregateID() string   { return "u" }
func (Unknown) AggregateType() string { return "u" }
func (Unknown) CommandType() string   { return "Unknown" }

type Stage struct {
	Err    string
	Fields map[string]string
	Calls  [][2]string
}

type EventResult struct {
	ID, Type, EventType    string
	ID2, Type2, EventType2 string
	SelfEncrypts           bool
	Before                 map[string]string
	Encrypted, Decrypted   *Stage
	FailEncrypt, GoneEncrypt, FailDecrypt, GoneDecrypt []Stage
	BadPlain *Stage
}

type AggResult struct {
	CommandTypes []string
	Log          []string
	Raised       [][]string
	LoadLog      []string
}

type Result struct {
	Events    []EventResult
	Bound     []string
	Aggregate AggResult
}

var ErrOther = errors.New("other failure")

type enc struct {
	calls  [][2]string
	failAt int
	err    error
}

func (e *enc) step(subject, text string) error {
	e.calls = append(e.calls, [2]string{subject, text})
	if e.failAt > 0 && len(e.calls) == e.failAt {
		return e.err
	}
	return nil
}

func (e *enc) Encrypt(subject, text string) (string, error) {
	if err := e.step(subject, text); err != nil {
		return "", err
	}
	return "<" + subject + "|" + text + ">", nil
}

func (e *enc) Decrypt(subject, text string) (string, error) {
	if err := e.step(subject, text); err != nil {
		return "", err
	}
	want := "<" + subject + "|"
	if len(text) <= len(want) || text[:len(want)] != want {
		return "", fmt.Errorf("not encrypted: %q", text)
	}
	return text[len(want) : len(text)-1], nil
}

func Event(mk, byValue func() rangedb.Event, dump func(rangedb.Event) map[string]string) (r EventResult) {
	e, v := mk(), byValue()
	r.ID, r.Type, r.EventType = e.AggregateID(), e.AggregateType(), e.EventType()
	r.ID2, r.Type2, r.EventType2 = v.AggregateID(), v.AggregateType(), v.EventType()
	r.Before = dump(e)
	if _, ok := e.(crypto.SelfEncryptor); !ok {
		return r
	}
	r.SelfEncrypts = true
	run := func(e rangedb.Event, decrypt bool, failAt int, err error) *Stage {
		c := &enc{failAt: failAt, err: err}
		var res error
		if decrypt {
			res = e.(crypto.SelfEncryptor).Decrypt(c)
		} else {
			res = e.(crypto.SelfEncryptor).Encrypt(c)
		}
		s := &Stage{Fields: dump(e), Calls: c.calls}
		if res != nil {
			s.Err = res.Error()
		}
		return s
	}
	r.Encrypted = run(e, false, 0, nil)
	r.Decrypted = run(e, true, 0, nil)
	for k := 1; k <= len(r.Encrypted.Calls); k++ {
		r.FailEncrypt = append(r.FailEncrypt, *run(mk(), false, k, ErrOther))
		r.GoneEncrypt = append(r.GoneEncrypt, *run(mk(), false, k, crypto.ErrKeyWasDeleted))
	}
	for k := 1; k <= len(r.Decrypted.Calls); k++ {
		e := mk()
		run(e, false, 0, nil)
		r.FailDecrypt = append(r.FailDecrypt, *run(e, true, k, ErrOther))
		e = mk()
		run(e, false, 0, nil)
		r.GoneDecrypt = append(r.GoneDecrypt, *run(e, true, k, crypto.ErrKeyWasDeleted))
	}
	return r
}

type binder struct{ names []string }

func (b *binder) Bind(events ...rangedb.Event) {
	for _, e := range events {
		b.names = append(b.names, fmt.Sprintf("%s", e.EventType()))
	}
}

func Bound(f func(rangedb.EventBinder)) []string {
	b := &binder{}
	f(b)
	return b.names
}

func Aggregate(a cqrs.Aggregate, log func() []string, commands []Cmd, events []rangedb.Event) (r AggResult) {
	r.CommandTypes = a.CommandTypes()
	for _, c := range commands {
		raised := []string{}
		for _, e := range a.Handle(c) {
			raised = append(raised, fmt.Sprintf("%s %s", e.EventType(), e.AggregateID()))
		}
		r.Raised = append(r.Raised, raised)
	}
	r.Log = append([]string{}, log()...)
	ch := make(chan rangedb.ResultRecord, len(events)+10)
	for i, e := range events {
		ch <- rangedb.ResultRecord{Record: &rangedb.Record{Data: e}}
		if i == 0 {
			ch <- rangedb.ResultRecord{Record: &rangedb.Record{Data: map[string]interface{}{"a": 1}}}
			ch <- rangedb.ResultRecord{Record: &rangedb.Record{}}
		}
	}
	close(ch)
	a.Load(rangedb.NewRecordIterator(ch))
	r.LoadLog = append([]string{}, log()[len(r.Log):]...)
	return r
}
`

type stage struct {
	Err    string
	Fields map[string]string
	Calls  [][2]string
}

type eventResult struct {
	ID, Type, EventType                                string
	ID2, Type2, EventType2                             string
	SelfEncrypts                                       bool
	Before                                             map[string]string
	Encrypted, Decrypted                               *stage
	FailEncrypt, GoneEncrypt, FailDecrypt, GoneDecrypt []stage
}

type result struct {
	Events    []eventResult
	Bound     []string
	Aggregate struct {
		CommandTypes []string
		Log          []string
		Raised       [][]string
		LoadLog      []string
	}
}

var (
	toolsOnce sync.Once
	toolsDir  string
	toolsErr  error
)

// tools builds the generators.
func tools() (string, error) {
	toolsOnce.Do(func() {
		toolsDir = filepath.Join(os.Getenv("PBT_WORK"), "tools")
		_ = os.MkdirAll(toolsDir, 0o755)
		cmd := exec.Command("go", "build", "-o", toolsDir+"/", "github.com/inklabs/rangedb/gen/eventgenerator", "github.com/inklabs/rangedb/gen/commandgenerator", "github.com/inklabs/rangedb/gen/aggregategenerator", "github.com/inklabs/rangedb/gen/eventbinder")
		cmd.Dir = os.Getenv("PBT_HARNESS")
		if out, err := cmd.CombinedOutput(); err != nil {
			toolsErr = fmt.Errorf("building the generators: %v\n%s", err, out)
		}
	})
	return toolsDir, toolsErr
}

func write(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

func runTool(dir, tool string, env []string, args ...string) error {
	cmd := exec.Command(filepath.Join(toolsDir, tool), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%s %v: %v\n%s", tool, args, err, out)
	}
	return nil
}

func runProgram(c *pbt.C, plan GPlan) {
	if _, err := tools(); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("PBT_WORK"), "prog")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	mod, err := os.ReadFile(filepath.Join(os.Getenv("PBT_HARNESS"), "go.mod"))
	if err != nil {
		panic(err)
	}
	sum, err := os.ReadFile(filepath.Join(os.Getenv("PBT_HARNESS"), "go.sum"))
	if err != nil {
		panic(err)
	}
	write(filepath.Join(dir, "go.mod"), strings.Replace(string(mod), "module verifharness", "module genprogram", 1))
	write(filepath.Join(dir, "go.sum"), string(sum))
	write(filepath.Join(dir, "probe/probe.go"), probeSource)
	var main strings.Builder
	main.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\t\"genprogram/probe\"\n")
	for i := range plan.Pkgs {
		fmt.Fprintf(&main, "\t\"genprogram/pkg%d\"\n", i)
	}
	main.WriteString(")\n\nfunc main() {\n\tout := []probe.Result{")
	for i := range plan.Pkgs {
		fmt.Fprintf(&main, "pkg%d.Run(), ", i)
	}
	main.WriteString("}\n\tif err := json.NewEncoder(os.Stdout).Encode(out); err != nil {\n\t\tpanic(err)\n\t}\n}\n")
	write(filepath.Join(dir, "main.go"), main.String())
	for i, p := range plan.Pkgs {
		if err := p.generate(dir, fmt.Sprintf("pkg%d", i)); err != nil {
			c.Failf("package %d: the generators refuse valid source: %v", i, err)
		}
	}
	build := exec.Command("go", "build", "-ldflags=-s -w", "-o", "prog", ".")
	build.Dir = dir
	if out, err := build.CombinedOutput(); err != nil {
		c.Failf("the generated code does not compile: %v\n%s\n%s", err, out, sources(dir))
	}
	cmd := exec.Command(filepath.Join(dir, "prog"))
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		c.Failf("the generated code fails: %v\n%s", err, stderr.String())
	}
	var res []result
	if err := json.Unmarshal(out, &res); err != nil {
		panic(err)
	}
	for i, p := range plan.Pkgs {
		if err := p.judge(c, res[i]); err != nil {
			c.Failf("package %d: %v\n%s", i, err, sources(filepath.Join(dir, fmt.Sprintf("pkg%d", i))))
		}
	}
}

// sources shows generated files, for messages.
func sources(dir string) string {
	var b strings.Builder
	_ = filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(path, "_gen.go") && b.Len() < 3000 {
			t, _ := os.ReadFile(path)
			fmt.Fprintf(&b, "== %s\n%s\n", filepath.Base(path), t)
		}
		return nil
	})
	return b.String()
}

func (p GPkg) generate(dir, pkg string) error {
	d := filepath.Join(dir, pkg)
	var names []string
	for i, f := range p.Events {
		name := fmt.Sprintf("%s_events.go", p.Agg)
		if i > 0 {
			name = fmt.Sprintf("more%d.go", i)
		}
		names = append(names, name)
		write(filepath.Join(d, name), fileSource(pkg, f, i))
		var err error
		if p.Env {
			err = runTool(d, "eventgenerator", []string{"GOPACKAGE=" + pkg, "GOFILE=" + name}, "-id", p.ID, "-aggregateType", p.Type)
		} else {
			err = runTool(d, "eventgenerator", nil, "-id", p.ID, "-aggregateType", p.Type, "-package", pkg, "-inFile", name, "-outFile", fmt.Sprintf("ev%d_gen.go", i))
		}
		if err != nil {
			return err
		}
	}
	cmds := fmt.Sprintf("%s_commands.go", p.Agg)
	write(filepath.Join(d, cmds), fileSource(pkg, p.Commands, 9))
	if len(p.Commands) > 0 {
		var err error
		if p.Env {
			err = runTool(d, "commandgenerator", []string{"GOPACKAGE=" + pkg, "GOFILE=" + cmds}, "-id", p.ID, "-aggregateType", p.Type)
		} else {
			err = runTool(d, "commandgenerator", nil, "-id", p.ID, "-aggregateType", p.Type, "-package", pkg, "-inFile", cmds, "-outFile", "cmd_gen.go")
		}
		if err != nil {
			return err
		}
	}
	var err error
	if p.Env {
		err = runTool(d, "aggregategenerator", []string{"GOPACKAGE=" + pkg}, "-name", p.Agg)
	} else {
		err = runTool(d, "aggregategenerator", nil, "-name", p.Agg, "-package", pkg, "-commands", cmds, "-events", names[0], "-out", "agg_gen.go")
	}
	if err != nil {
		return err
	}
	if p.Env {
		err = runTool(d, "eventbinder", []string{"GOPACKAGE=" + pkg}, "-files", strings.Join(names, ","))
	} else {
		err = runTool(d, "eventbinder", nil, "-package", pkg, "-files", strings.Join(names, ","), "-out", "binder_gen.go")
	}
	if err != nil {
		return err
	}
	write(filepath.Join(d, "driver.go"), p.driver(pkg))
	return nil
}

func (p GPkg) judge(c *pbt.C, r result) error {
	var all []GStruct
	for _, f := range p.Events {
		all = append(all, f...)
	}
	if len(r.Events) != len(all) {
		return errors.New("events are missing")
	}
	var names []string
	for i, s := range all {
		names = append(names, s.Name)
		if err := p.judgeEvent(c, s, r.Events[i]); err != nil {
			return fmt.Errorf("event %s: %v", s.Name, err)
		}
	}
	sort.Strings(names)
	bound := append([]string{}, r.Bound...)
	sort.Strings(bound)
	if !reflect.DeepEqual(names, bound) {
		return fmt.Errorf("events %v are bound, declared are %v", bound, names)
	}
	// The aggregate.
	a := r.Aggregate
	var cmds, log, load []string
	for _, s := range p.Commands {
		cmds = append(cmds, s.Name)
	}
	types := append([]string{}, a.CommandTypes...)
	sort.Strings(types)
	sorted := append([]string{}, cmds...)
	sort.Strings(sorted)
	if fmt.Sprint(types) != fmt.Sprint(sorted) {
		return fmt.Errorf("command types are %v, declared are %v", types, sorted)
	}
	for i, s := range p.Commands {
		id, _ := value(p.Seed, s.Name, p.ID, "string")
		var raised []string
		for k := 0; k < i%3; k++ {
			raised = append(raised, p.Events[0][i%len(p.Events[0])].Name+" "+id)
		}
		for k := 0; k < 2; k++ {
			log = append(log, "command "+s.Name+" "+id)
			if fmt.Sprint(a.Raised[2*i+k]) != fmt.Sprint(raised) {
				return fmt.Errorf("command %s raises %q, its handler raised %q", s.Name, a.Raised[2*i+k], raised)
			}
		}
	}
	if n := len(a.Raised); n != 2*len(p.Commands)+1 || len(a.Raised[n-1]) > 0 {
		return fmt.Errorf("an unknown command raises events: %v", a.Raised)
	}
	if fmt.Sprint(a.Log) != fmt.Sprint(log) {
		return fmt.Errorf("commands were routed as %q, expected %q", a.Log, log)
	}
	for _, s := range p.Events[0] {
		id, _ := value(p.Seed, s.Name, p.ID, "string")
		load = append(load, "event "+s.Name+" "+id, "event "+s.Name+" "+id)
	}
	if fmt.Sprint(a.LoadLog) != fmt.Sprint(load) {
		return fmt.Errorf("events were applied as %q, expected %q", a.LoadLog, load)
	}
	if len(cmds) > 0 {
		c.NonTrivial()
	}
	return nil
}

func (p GPkg) judgeEvent(c *pbt.C, s GStruct, r eventResult) error {
	id, _ := value(p.Seed, s.Name, p.ID, "string")
	for _, got := range [][3]string{{r.ID, r.Type, r.EventType}, {r.ID2, r.Type2, r.EventType2}} {
		if got != [3]string{id, p.Type, s.Name} {
			return fmt.Errorf("its ID, type and event type are %q, expected %q %q %q", got, id, p.Type, s.Name)
		}
	}
	subject, has := "", false
	personal := 0
	s.fields(func(name string, g GField) {
		if g.Kind == "subject" || g.Kind == "idsubject" {
			subject, _ = value(p.Seed, s.Name, name, "string")
			has = true
		}
		if g.Kind == "personal" || g.Kind == "serial" {
			personal++
		}
	})
	if !has {
		if r.SelfEncrypts {
			return errors.New("it has no personal data, yet encrypts itself")
		}
		return nil
	}
	if !r.SelfEncrypts {
		return errors.New("it has personal data and does not encrypt itself")
	}
	c.Class(fmt.Sprintf("personal-fields:%d", personal))
	if personal > 0 {
		c.NonTrivial()
	}
	plain, enc, gone := map[string]string{}, map[string]string{}, map[string]string{}
	var serialized []string
	s.fields(func(name string, g GField) {
		if !dumpable(g.Type) || g.Kind == "target" {
			return
		}
		v, _ := value(p.Seed, s.Name, name, g.Type)
		plain[name], enc[name], gone[name] = v, v, v
		switch g.Kind {
		case "personal":
			enc[name], gone[name] = "<"+subject+"|"+v+">", ""
		case "serial":
			plain[g.To], enc[name], gone[name] = "", "0", "0"
			enc[g.To] = "<" + subject + "|" + v + ">"
			serialized = append(serialized, g.To)
		}
	})
	is := func(what string, st stage, want map[string]string, err string, anyTarget bool) error {
		got := map[string]string{}
		w := map[string]string{}
		for k, v := range st.Fields {
			got[k] = v
		}
		for k, v := range want {
			w[k] = v
		}
		if anyTarget {
			// What no key can decrypt any more may be kept or cleared.
			for _, k := range serialized {
				if got[k] != "" && got[k] != enc[k] {
					return fmt.Errorf("%s: field %s is %q", what, k, got[k])
				}
				delete(got, k)
				delete(w, k)
			}
		}
		if st.Err != err {
			return fmt.Errorf("%s: error %q, expected %q", what, st.Err, err)
		}
		if !reflect.DeepEqual(got, w) {
			return fmt.Errorf("%s: its fields are %q, expected %q", what, got, w)
		}
		for _, call := range st.Calls {
			if call[0] != subject {
				return fmt.Errorf("%s: the key of %q is used, the subject is %q", what, call[0], subject)
			}
		}
		return nil
	}
	if err := is("as built", stage{Fields: r.Before}, plain, "", false); err != nil {
		return err
	}
	if err := is("encrypted", *r.Encrypted, enc, "", false); err != nil {
		return err
	}
	if len(r.Encrypted.Calls) != personal {
		return fmt.Errorf("%d values are encrypted, it has %d personal fields", len(r.Encrypted.Calls), personal)
	}
	if err := is("decrypted", *r.Decrypted, plain, "", false); err != nil {
		return err
	}
	for k := range r.FailEncrypt {
		if err := is(fmt.Sprintf("encryption failed at value %d", k), r.FailEncrypt[k], plain, "other failure", false); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("encryption found the key deleted at value %d", k), r.GoneEncrypt[k], gone, "removed from GDPR request", true); err != nil {
			return err
		}
	}
	for k := range r.FailDecrypt {
		if err := is(fmt.Sprintf("decryption failed at value %d", k), r.FailDecrypt[k], enc, "other failure", false); err != nil {
			return err
		}
		if err := is(fmt.Sprintf("decryption found the key deleted at value %d", k), r.GoneDecrypt[k], gone, "removed from GDPR request", true); err != nil {
			return err
		}
	}
	return nil
}

// RPlan is a source whose declared personal data cannot be protected.
type RPlan struct {
	Pkg  GPkg   `json:"pkg"`
	Ev   int    `json:"ev"`
	What string `json:"what"`
}

func genRefused(t *rapid.T) RPlan {
	p := RPlan{Pkg: genPkg(t), What: rapid.SampledFrom([]string{"nosubject", "nosubject", "type", "sametarget", "notarget", "targettype", "joint"}).Draw(t, "what")}
	p.Pkg.Events = p.Pkg.Events[:1]
	p.Ev = rapid.IntRange(0, len(p.Pkg.Events[0])-1).Draw(t, "ev")
	s := &p.Pkg.Events[0][p.Ev]
	s.Fields = []GField{{Names: []string{p.Pkg.ID}, Kind: "idsubject", Type: "string", Tag: rapid.IntRange(0, 6).Draw(t, "tag")}}
	serial := func(name, to string) GField {
		return GField{Names: []string{name}, Kind: "serial", Type: "int", To: to}
	}
	add := func(f ...GField) { s.Fields = append(s.Fields, f...) }
	switch p.What {
	case "nosubject":
		s.Fields[0].Kind = "id"
		if rapid.Bool().Draw(t, "serial") {
			add(serial("Age", "AgeSafe"), GField{Names: []string{"AgeSafe"}, Kind: "target", Type: "string"})
		} else {
			add(GField{Names: []string{"Email"}, Kind: "personal", Type: "string", Tag: rapid.IntRange(0, 6).Draw(t, "tag")})
		}
	case "type":
		add(GField{Names: []string{"Email"}, Kind: "personal", Type: rapid.SampledFrom([]string{"int", "[]string", "bool", "*string", "interface{}", "map[string]string"}).Draw(t, "type")})
	case "sametarget":
		add(serial("Age", "Safe"), GField{Names: []string{"Safe"}, Kind: "target", Type: "string"}, serial("Pin", "Safe"))
	case "joint":
		add(GField{Names: []string{"Age", "Pin"}, Kind: "serial", Type: "int", To: "Safe"}, GField{Names: []string{"Safe"}, Kind: "target", Type: "string"})
	case "notarget":
		add(serial("Age", "Safe"))
	case "targettype":
		add(serial("Age", "Safe"), GField{Names: []string{"Safe"}, Kind: "target", Type: rapid.SampledFrom([]string{"int", "[]string", "*string"}).Draw(t, "type")})
	}
	s.Fields = rapid.Permutation(s.Fields).Draw(t, "order")
	return p
}

// runRefused checks that personal data which cannot be protected is reported,
// by the generator or the compiler.
func runRefused(c *pbt.C, p RPlan) {
	if _, err := tools(); err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp(os.Getenv("PBT_WORK"), "refused")
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { _ = os.RemoveAll(dir) })
	c.Class(p.What)
	c.NonTrivial()
	write(filepath.Join(dir, "p", "events.go"), fileSource("p", p.Pkg.Events[0], 0))
	if err := runTool(filepath.Join(dir, "p"), "eventgenerator", nil, "-id", p.Pkg.ID, "-aggregateType", p.Pkg.Type, "-package", "p", "-inFile", "events.go", "-outFile", "events_gen.go"); err != nil {
		c.Class("refused-by-generator")
		return
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(os.Getenv("PBT_HARNESS"), f))
		if err != nil {
			panic(err)
		}
		write(filepath.Join(dir, f), strings.Replace(string(b), "module verifharness", "module genprogram", 1))
	}
	build := exec.Command("go", "build", "./p")
	build.Dir = dir
	if _, err := build.CombinedOutput(); err == nil {
		c.Failf("personal data of event %s cannot be protected (%s), which neither the generator nor the compiler reports\n%s", p.Pkg.Events[0][p.Ev].Name, p.What, sources(filepath.Join(dir, "p")))
	}
	c.Class("refused-by-compiler")
}

// TPlan is arbitrary text given to the parsers.
type TPlan struct {
	Pkg  GPkg     `json:"pkg"`
	Cuts []int    `json:"cuts"`
	Ins  []string `json:"ins"`
}

func runText(c *pbt.C, p TPlan) {
	text := []byte(fileSource("p", p.Pkg.Events[0], 0))
	for i, at := range p.Cuts {
		k := at % (len(text) + 1)
		end := min(k+at%7, len(text))
		text = append(append(append([]byte{}, text[:k]...), p.Ins[i%len(p.Ins)]...), text[end:]...)
	}
	events, err := eventparser.GetEvents(bytes.NewReader(text))
	names, err2 := structparser.GetStructNames(bytes.NewReader(text))
	if err == nil {
		c.NonTrivial()
		var out bytes.Buffer
		if e := eventparser.WriteEvents(&out, events, "p", "ID", "thing"); e != nil && len(events) > 0 {
			c.Failf("parsed events are not written: %v", e)
		}
		if err2 != nil {
			c.Failf("one parser accepts the source, the other does not: %v", err2)
		}
		var evs []string
		for _, e := range events {
			evs = append(evs, e.Name)
		}
		if fmt.Sprint(evs) != fmt.Sprint(names) {
			c.Failf("the parsers find %v and %v", evs, names)
		}
	}
	c.Class(fmt.Sprintf("accepted:%v", err == nil))
}

func init() {
	pbt.Reg("C27", "refused", pbt.Opt{Quick: 120, Thorough: 2000, Shards: 4, Rule: "an event whose declared personal data cannot be protected (no subject, a type that cannot be encrypted, no usable place for a serialised field) is refused by the generator or does not compile; always non-trivial"}, genRefused, runRefused)
	pbt.Reg("C27", "text", pbt.Opt{Quick: 4000, Thorough: 200000, Shards: 2, Rule: "the parsers read a damaged source without panicking, and agree; non-trivial when it is still accepted"},
		func(t *rapid.T) TPlan {
			p := TPlan{Pkg: genPkg(t)}
			p.Cuts = rapid.SliceOfN(rapid.IntRange(0, 3000), 0, 4).Draw(t, "cuts")
			p.Ins = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", " ", "\n", "`", "\"", "struct", "{", "}", "type T struct{}", "\x00", "é", "[]", "func", "encrypt:\"personal-data\"", "//", "/*", "A, B string"}), 1, 4).Draw(t, "ins")
			return p
		}, runText)
	pbt.Reg("C27", "programs", pbt.Opt{Quick: 240, Thorough: 6000, Shards: 8, Rule: "a program of annotated event and command sources, generated, compiled and run; non-trivial when it has personal data or an aggregate with commands"},
		func(t *rapid.T) GPlan {
			return GPlan{Pkgs: rapid.SliceOfN(rapid.Custom(genPkg), 1, 3).Draw(t, "pkgs")}
		}, runProgram)
}
