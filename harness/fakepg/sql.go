package fakepg

import (
	"fmt"
	"strconv"
	"strings"
)

// The part of SQL a statement can use.  What is beyond it is refused with
// "feature not supported" and noted, so that no verdict is built on it.

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tString
	tNumber
	tParam
	tPunct
)

type token struct {
	kind   tokKind
	text   string // identifiers in lower case
	quoted bool
}

// Error is what the server answers.
type Error struct {
	Code, Message, Constraint string
}

func (e *Error) Error() string { return e.Message + " (" + e.Code + ")" }

func unsupported(format string, args ...any) error {
	return &Error{Code: "0A000", Message: "fakepg: not supported: " + fmt.Sprintf(format, args...)}
}

func lex(s string) ([]token, error) {
	var out []token
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return nil, &Error{Code: "42601", Message: "unterminated comment"}
			}
			i += j + 4
		case c == '\'':
			var b strings.Builder
			i++
			for {
				if i >= len(s) {
					return nil, &Error{Code: "42601", Message: "unterminated quoted string"}
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, token{kind: tString, text: b.String()})
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return nil, &Error{Code: "42601", Message: "unterminated quoted identifier"}
			}
			out = append(out, token{kind: tIdent, text: s[i+1 : i+1+j], quoted: true})
			i += j + 2
		case c == '$' && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, token{kind: tParam, text: s[i+1 : j]})
			i = j
		case c == '$':
			// A dollar-quoted string.
			j := strings.IndexByte(s[i+1:], '$')
			if j < 0 {
				return nil, &Error{Code: "42601", Message: "syntax error at or near \"$\""}
			}
			tag := s[i : i+j+2]
			k := strings.Index(s[i+len(tag):], tag)
			if k < 0 {
				return nil, &Error{Code: "42601", Message: "unterminated dollar-quoted string"}
			}
			out = append(out, token{kind: tString, text: s[i+len(tag) : i+len(tag)+k]})
			i += 2*len(tag) + k
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, token{kind: tNumber, text: s[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 0x80) {
				j++
			}
			out = append(out, token{kind: tIdent, text: strings.ToLower(s[i:j])})
			i = j
		default:
			two := ""
			if i+1 < len(s) {
				two = s[i : i+2]
			}
			switch two {
			case "<=", ">=", "<>", "!=", "::", "||":
				out = append(out, token{kind: tPunct, text: two})
				i += 2
				continue
			}
			out = append(out, token{kind: tPunct, text: string(c)})
			i++
		}
	}
	return out, nil
}

// typ is a type of SQL.
type typ int

const (
	tyUnknown typ = iota
	tyText
	tyInt4
	tyInt8
	tyBool
	tyTextArray
	tyInt8Array
	tyVoid
)

func (t typ) oid() int32 {
	switch t {
	case tyInt4:
		return 23
	case tyInt8:
		return 20
	case tyBool:
		return 16
	case tyTextArray:
		return 1009
	case tyInt8Array:
		return 1016
	case tyVoid:
		return 2278
	}
	return 25
}

func (t typ) array() typ {
	if t == tyInt4 || t == tyInt8 {
		return tyInt8Array
	}
	return tyTextArray
}

type expr interface{}

type (
	exCol   struct{ name string }
	exLit   struct{ v any } // nil, int64, string, bool
	exParam struct{ n int }
	exBin   struct {
		op   string
		l, r expr
	}
	exNot    struct{ x expr }
	exIsNull struct {
		x   expr
		not bool
	}
	exAny struct {
		op   string
		l, r expr
	}
	exIn struct {
		l    expr
		list []expr
		not  bool
	}
	exFunc struct {
		name string
		args []expr
		star bool
	}
	exCast struct {
		x expr
		t typ
	}
	exExists struct{ q *selectStmt }
	exSub    struct{ q *selectStmt }
)

type selCol struct {
	x    expr
	name string
}

type order struct {
	x    expr
	desc bool
}

type (
	selectStmt struct {
		cols          []selCol
		star          bool
		table         string
		where         expr
		group         []expr
		order         []order
		limit, offset expr
		lock          bool // FOR UPDATE or FOR SHARE
	}
	insertStmt struct {
		table     string
		cols      []string
		rows      [][]expr
		returning []selCol
		star      bool
		ignore    bool // ON CONFLICT DO NOTHING
	}
	deleteStmt struct {
		table     string
		where     expr
		returning []selCol
	}
	updateStmt struct {
		table     string
		cols      []string
		vals      []expr
		where     expr
		returning []selCol
	}
	createTable struct {
		name        string
		ifNotExists bool
		cols        []column
	}
	createFunction struct {
		name, body string
	}
	createTrigger struct {
		name, table, function string
	}
	dropTrigger struct {
		name, table string
	}
	listenStmt   struct{ channel string }
	unlistenStmt struct{ channel string }
	notifyStmt   struct{ channel, payload string }
	beginStmt    struct{ strict bool }
	commitStmt   struct{}
	rollbackStmt struct{}
	nothing      struct{ tag string }
	lockTable    struct{ table string }
	truncate     struct{ table string }
	setStmt      struct{}
	alterSeq     struct {
		name string
		next int64
	}
)

type column struct {
	name    string
	t       typ
	serial  bool
	unique  string // name of the constraint
	notNull bool
}

type parser struct {
	toks []token
	i    int
}

func (p *parser) peek() token {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return token{}
}

func (p *parser) next() token { t := p.peek(); p.i++; return t }

// is consumes a sequence of keywords or signs if they come next.
func (p *parser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.toks) {
			return false
		}
		t := p.toks[p.i+k]
		if t.text != w || t.quoted || (t.kind != tIdent && t.kind != tPunct) {
			return false
		}
	}
	p.i += len(words)
	return true
}

func (p *parser) syntax() error {
	t := p.peek()
	if t.kind == tEOF {
		return &Error{Code: "42601", Message: "syntax error at end of input"}
	}
	return &Error{Code: "42601", Message: fmt.Sprintf("syntax error at or near %q", t.text)}
}

func (p *parser) must(words ...string) error {
	if !p.is(words...) {
		return p.syntax()
	}
	return nil
}

func (p *parser) ident() (string, error) {
	t := p.peek()
	if t.kind != tIdent {
		return "", p.syntax()
	}
	p.i++
	return t.text, nil
}

// tableName reads a name that may have a schema.
func (p *parser) tableName() (string, error) {
	n, err := p.ident()
	if err != nil {
		return "", err
	}
	if p.is(".") {
		return p.ident()
	}
	return n, nil
}

// parse splits a text into statements.
func parse(s string) ([]any, error) {
	toks, err := lex(s)
	if err != nil {
		return nil, err
	}
	var out []any
	for len(toks) > 0 {
		n := 0
		for n < len(toks) && !(toks[n].kind == tPunct && toks[n].text == ";") {
			n++
		}
		if n > 0 {
			p := &parser{toks: toks[:n]}
			st, err := p.statement()
			if err != nil {
				return nil, err
			}
			if p.i < len(p.toks) {
				if e, ok := st.(*nothing); !ok || e.tag == "" {
					return nil, unsupported("%q in %q", p.peek().text, s)
				}
			}
			out = append(out, st)
		}
		if n < len(toks) {
			n++
		}
		toks = toks[n:]
	}
	return out, nil
}

func (p *parser) statement() (any, error) {
	switch {
	case p.is("select"):
		return p.selectStmt()
	case p.is("insert", "into"):
		return p.insertStmt()
	case p.is("delete", "from"):
		st := &deleteStmt{}
		var err error
		if st.table, err = p.tableName(); err != nil {
			return nil, err
		}
		if p.is("where") {
			if st.where, err = p.expr(); err != nil {
				return nil, err
			}
		}
		st.returning, err = p.returning()
		return st, err
	case p.is("update"):
		return p.updateStmt()
	case p.is("begin"), p.is("start", "transaction"):
		st := &beginStmt{}
		for p.i < len(p.toks) {
			t := p.next()
			if t.text == "serializable" || t.text == "repeatable" {
				st.strict = true
			}
		}
		return st, nil
	case p.is("commit"), p.is("end"):
		p.is("transaction")
		return &commitStmt{}, nil
	case p.is("rollback"), p.is("abort"):
		p.is("transaction")
		return &rollbackStmt{}, nil
	case p.is("alter", "sequence"):
		n, err := p.tableName()
		if err != nil {
			return nil, err
		}
		st := &alterSeq{name: n, next: 1}
		if err := p.must("restart"); err != nil {
			return nil, err
		}
		p.is("with")
		if t := p.peek(); t.kind == tNumber {
			p.i++
			st.next, err = strconv.ParseInt(t.text, 10, 64)
		}
		return st, err
	case p.is("listen"):
		c, err := p.ident()
		return &listenStmt{c}, err
	case p.is("unlisten"):
		if p.is("*") {
			return &unlistenStmt{}, nil
		}
		c, err := p.ident()
		return &unlistenStmt{c}, err
	case p.is("notify"):
		c, err := p.ident()
		if err != nil {
			return nil, err
		}
		st := &notifyStmt{channel: c}
		if p.is(",") {
			if p.peek().kind != tString {
				return nil, p.syntax()
			}
			st.payload = p.next().text
		}
		return st, nil
	case p.is("create", "table"):
		return p.createTable()
	case p.is("create", "index"), p.is("create", "unique", "index"):
		if p.toks[1].text == "unique" {
			return nil, unsupported("unique index")
		}
		p.i = len(p.toks)
		return &nothing{"CREATE INDEX"}, nil
	case p.is("create", "function"), p.is("create", "or", "replace", "function"):
		st := &createFunction{}
		var err error
		if st.name, err = p.tableName(); err != nil {
			return nil, err
		}
		for p.i < len(p.toks) {
			if t := p.next(); t.kind == tString {
				st.body = t.text
			}
		}
		return st, nil
	case p.is("drop", "trigger"):
		p.is("if", "exists")
		st := &dropTrigger{}
		var err error
		if st.name, err = p.ident(); err != nil {
			return nil, err
		}
		if err = p.must("on"); err != nil {
			return nil, err
		}
		st.table, err = p.tableName()
		return st, err
	case p.is("create", "trigger"), p.is("create", "or", "replace", "trigger"):
		st := &createTrigger{}
		var err error
		if st.name, err = p.ident(); err != nil {
			return nil, err
		}
		if !p.is("after", "insert", "on") {
			return nil, unsupported("trigger other than AFTER INSERT")
		}
		if st.table, err = p.tableName(); err != nil {
			return nil, err
		}
		if !p.is("for", "each", "row", "execute", "procedure") && !p.is("for", "each", "row", "execute", "function") {
			return nil, unsupported("trigger not for each row")
		}
		if st.function, err = p.tableName(); err != nil {
			return nil, err
		}
		return st, p.must("(", ")")
	case p.is("lock"):
		p.is("table")
		st := &lockTable{}
		var err error
		if st.table, err = p.tableName(); err != nil {
			return nil, err
		}
		if !p.is("in", "exclusive", "mode") && !p.is("in", "share", "row", "exclusive", "mode") && !p.is("in", "access", "exclusive", "mode") && p.i < len(p.toks) {
			return nil, unsupported("LOCK mode")
		}
		return st, nil
	case p.is("truncate"):
		p.is("table")
		n, err := p.tableName()
		return &truncate{n}, err
	case p.is("set"):
		p.i = len(p.toks)
		return &nothing{"SET"}, nil
	}
	return nil, unsupported("statement beginning with %q", p.peek().text)
}

func (p *parser) createTable() (any, error) {
	st := &createTable{ifNotExists: p.is("if", "not", "exists")}
	var err error
	if st.name, err = p.tableName(); err != nil {
		return nil, err
	}
	if err := p.must("("); err != nil {
		return nil, err
	}
	for {
		if p.is("primary", "key", "(") || p.is("unique", "(") {
			pk := p.toks[p.i-2].text == "key"
			n, err := p.ident()
			if err != nil {
				return nil, err
			}
			if !p.is(")") {
				return nil, unsupported("constraint over several columns")
			}
			for i := range st.cols {
				if st.cols[i].name == n {
					st.cols[i].unique = st.name + "_" + n + "_key"
					if pk {
						st.cols[i].unique = st.name + "_pkey"
					}
				}
			}
		} else {
			var c column
			if c.name, err = p.ident(); err != nil {
				return nil, err
			}
			t, err := p.ident()
			if err != nil {
				return nil, err
			}
			switch t {
			case "text":
				c.t = tyText
			case "varchar":
				c.t = tyText
				if p.is("(") {
					return nil, unsupported("limited text")
				}
			case "integer", "int", "int4":
				c.t = tyInt4
			case "bigint", "int8":
				c.t = tyInt8
			case "serial":
				c.t, c.serial, c.notNull = tyInt4, true, true
			case "bigserial":
				c.t, c.serial, c.notNull = tyInt8, true, true
			case "boolean", "bool":
				c.t = tyBool
			default:
				return nil, unsupported("column type %q", t)
			}
			for {
				if p.is("primary", "key") {
					c.unique, c.notNull = st.name+"_pkey", true
				} else if p.is("unique") {
					c.unique = st.name + "_" + c.name + "_key"
				} else if p.is("not", "null") {
					c.notNull = true
				} else if p.is("null") {
				} else {
					break
				}
			}
			st.cols = append(st.cols, c)
		}
		if p.is(",") {
			continue
		}
		return st, p.must(")")
	}
}

func (p *parser) returning() ([]selCol, error) {
	if !p.is("returning") {
		return nil, nil
	}
	return p.selCols()
}

func (p *parser) selCols() ([]selCol, error) {
	var out []selCol
	for {
		x, err := p.expr()
		if err != nil {
			return nil, err
		}
		c := selCol{x: x, name: "?column?"}
		switch v := x.(type) {
		case *exCol:
			c.name = v.name
		case *exFunc:
			c.name = v.name
		}
		if p.is("as") {
			if c.name, err = p.ident(); err != nil {
				return nil, err
			}
		}
		out = append(out, c)
		if !p.is(",") {
			return out, nil
		}
	}
}

func (p *parser) selectStmt() (*selectStmt, error) {
	st := &selectStmt{}
	var err error
	if p.is("*") {
		st.star = true
	} else if st.cols, err = p.selCols(); err != nil {
		return nil, err
	}
	if p.is("from") {
		if st.table, err = p.tableName(); err != nil {
			return nil, err
		}
	}
	if p.is("where") {
		if st.where, err = p.expr(); err != nil {
			return nil, err
		}
	}
	if p.is("group", "by") {
		for {
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			st.group = append(st.group, x)
			if !p.is(",") {
				break
			}
		}
	}
	if p.is("order", "by") {
		for {
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			o := order{x: x}
			if p.is("desc") {
				o.desc = true
			} else {
				p.is("asc")
			}
			st.order = append(st.order, o)
			if !p.is(",") {
				break
			}
		}
	}
	for {
		if p.is("limit") {
			if st.limit, err = p.expr(); err != nil {
				return nil, err
			}
		} else if p.is("offset") {
			if st.offset, err = p.expr(); err != nil {
				return nil, err
			}
		} else {
			break
		}
	}
	if p.is("for", "update") || p.is("for", "share") || p.is("for", "no", "key", "update") {
		st.lock = true
	}
	return st, nil
}

func (p *parser) insertStmt() (any, error) {
	st := &insertStmt{}
	var err error
	if st.table, err = p.tableName(); err != nil {
		return nil, err
	}
	if p.is("(") {
		for {
			c, err := p.ident()
			if err != nil {
				return nil, err
			}
			st.cols = append(st.cols, c)
			if !p.is(",") {
				break
			}
		}
		if err := p.must(")"); err != nil {
			return nil, err
		}
	}
	if !p.is("values") {
		return nil, unsupported("INSERT without VALUES")
	}
	for {
		if err := p.must("("); err != nil {
			return nil, err
		}
		var row []expr
		for {
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			row = append(row, x)
			if !p.is(",") {
				break
			}
		}
		if err := p.must(")"); err != nil {
			return nil, err
		}
		st.rows = append(st.rows, row)
		if !p.is(",") {
			break
		}
	}
	if p.is("on", "conflict") {
		if p.is("(") {
			for !p.is(")") {
				p.next()
				if p.i > len(p.toks) {
					return nil, p.syntax()
				}
			}
		}
		if !p.is("do", "nothing") {
			return nil, unsupported("ON CONFLICT DO UPDATE")
		}
		st.ignore = true
	}
	st.returning, err = p.returning()
	return st, err
}

func (p *parser) updateStmt() (any, error) {
	st := &updateStmt{}
	var err error
	if st.table, err = p.tableName(); err != nil {
		return nil, err
	}
	if err := p.must("set"); err != nil {
		return nil, err
	}
	for {
		c, err := p.ident()
		if err != nil {
			return nil, err
		}
		if err := p.must("="); err != nil {
			return nil, err
		}
		x, err := p.add()
		if err != nil {
			return nil, err
		}
		st.cols, st.vals = append(st.cols, c), append(st.vals, x)
		if !p.is(",") {
			break
		}
	}
	if p.is("where") {
		if st.where, err = p.expr(); err != nil {
			return nil, err
		}
	}
	st.returning, err = p.returning()
	return st, err
}

func (p *parser) expr() (expr, error) {
	l, err := p.and()
	for err == nil && p.is("or") {
		var r expr
		r, err = p.and()
		l = &exBin{"or", l, r}
	}
	return l, err
}

func (p *parser) and() (expr, error) {
	l, err := p.not()
	for err == nil && p.is("and") {
		var r expr
		r, err = p.not()
		l = &exBin{"and", l, r}
	}
	return l, err
}

func (p *parser) not() (expr, error) {
	if p.is("not") {
		x, err := p.not()
		return &exNot{x}, err
	}
	return p.comparison()
}

func (p *parser) comparison() (expr, error) {
	l, err := p.add()
	if err != nil {
		return nil, err
	}
	for _, op := range []string{"=", "<>", "!=", "<=", ">=", "<", ">"} {
		if p.is(op) {
			if op == "!=" {
				op = "<>"
			}
			if p.is("any", "(") {
				r, err := p.expr()
				if err != nil {
					return nil, err
				}
				return &exAny{op, l, r}, p.must(")")
			}
			r, err := p.add()
			return &exBin{op, l, r}, err
		}
	}
	if p.is("between") {
		a, err := p.add()
		if err != nil {
			return nil, err
		}
		if err := p.must("and"); err != nil {
			return nil, err
		}
		b, err := p.add()
		return &exBin{"and", &exBin{">=", l, a}, &exBin{"<=", l, b}}, err
	}
	if p.is("is", "not", "null") {
		return &exIsNull{l, true}, nil
	}
	if p.is("is", "null") {
		return &exIsNull{l, false}, nil
	}
	not := p.is("not", "in", "(")
	if not || p.is("in", "(") {
		in := &exIn{l: l, not: not}
		for {
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			in.list = append(in.list, x)
			if !p.is(",") {
				break
			}
		}
		return in, p.must(")")
	}
	return l, nil
}

func (p *parser) add() (expr, error) {
	l, err := p.unit()
	for err == nil {
		op := ""
		switch {
		case p.is("+"):
			op = "+"
		case p.is("-"):
			op = "-"
		case p.is("||"):
			op = "||"
		default:
			return l, nil
		}
		var r expr
		r, err = p.unit()
		l = &exBin{op, l, r}
	}
	return l, err
}

func (p *parser) unit() (expr, error) {
	x, err := p.atom()
	for err == nil && p.is("::") {
		var t string
		if t, err = p.ident(); err != nil {
			return nil, err
		}
		ty := tyUnknown
		switch t {
		case "text", "varchar":
			ty = tyText
		case "integer", "int", "int4":
			ty = tyInt4
		case "bigint", "int8":
			ty = tyInt8
		case "boolean", "bool":
			ty = tyBool
		default:
			return nil, unsupported("cast to %q", t)
		}
		if p.is("[", "]") {
			ty = ty.array()
		}
		x = &exCast{x, ty}
	}
	return x, err
}

func (p *parser) atom() (expr, error) {
	t := p.peek()
	switch t.kind {
	case tNumber:
		p.i++
		n, err := strconv.ParseInt(t.text, 10, 64)
		if err != nil {
			return nil, &Error{Code: "22003", Message: "integer out of range"}
		}
		return &exLit{n}, nil
	case tString:
		p.i++
		return &exLit{t.text}, nil
	case tParam:
		p.i++
		n, err := strconv.Atoi(t.text)
		if err != nil || n < 1 || n > 65535 {
			return nil, &Error{Code: "42P02", Message: "there is no parameter $" + t.text}
		}
		return &exParam{n}, nil
	case tPunct:
		if p.is("-") {
			x, err := p.atom()
			return &exBin{"-", &exLit{int64(0)}, x}, err
		}
		if p.is("(") {
			if p.is("select") {
				q, err := p.selectStmt()
				if err != nil {
					return nil, err
				}
				return &exSub{q}, p.must(")")
			}
			x, err := p.expr()
			if err != nil {
				return nil, err
			}
			return x, p.must(")")
		}
	case tIdent:
		if !t.quoted {
			switch t.text {
			case "null":
				p.i++
				return &exLit{nil}, nil
			case "true", "false":
				p.i++
				return &exLit{t.text == "true"}, nil
			case "exists":
				p.i++
				if err := p.must("(", "select"); err != nil {
					return nil, err
				}
				q, err := p.selectStmt()
				if err != nil {
					return nil, err
				}
				return &exExists{q}, p.must(")")
			}
		}
		p.i++
		if p.is("(") {
			f := &exFunc{name: t.text}
			if p.is("*", ")") {
				f.star = true
				return f, nil
			}
			if p.is(")") {
				return f, nil
			}
			for {
				x, err := p.expr()
				if err != nil {
					return nil, err
				}
				f.args = append(f.args, x)
				if !p.is(",") {
					break
				}
			}
			return f, p.must(")")
		}
		if p.is(".") {
			n, err := p.ident()
			return &exCol{n}, err
		}
		return &exCol{t.text}, nil
	}
	return nil, p.syntax()
}
