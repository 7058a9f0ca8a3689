package fakepg

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Tables, transactions at the isolation level read committed, sequences, row
// locks, advisory locks, triggers and notifications.  Everything here is called
// with the server's lock held; waiting gives it up.

type txState int

const (
	txActive txState = iota
	txCommitted
	txAborted
)

type tx struct {
	state     txState
	implicit  bool
	failed    bool
	notes     []note
	waitingOn *tx
}

type note struct{ channel, payload string }

type row struct {
	vals   []any
	by     *tx
	del    *tx
	locker *tx
	next   *row // the version that replaced this one
}

func (r *row) visible(t *tx) bool {
	if r.by.state != txCommitted && r.by != t {
		return false
	}
	return r.del == nil || !(r.del.state == txCommitted || r.del == t)
}

type table struct {
	name     string
	cols     []column
	rows     []*row
	seq      []int64
	triggers []*createTrigger
	locker   *tx
	writers  map[*tx]bool
}

func (t *table) col(n string) int {
	for i, c := range t.cols {
		if c.name == n {
			return i
		}
	}
	return -1
}

type database struct {
	tables    map[string]*table
	functions map[string]string
	advisory  map[int64][]*hold
}

// hold is an advisory lock that a transaction or a session has.
type hold struct {
	by     *tx
	shared bool
}

type result struct {
	cols []selCol
	typs []typ
	rows [][]any
	tag  string
	has  bool // rows are returned
}

func noColumn(n string) error {
	return &Error{Code: "42703", Message: fmt.Sprintf("column %q does not exist", n)}
}

func (d *database) table(n string) (*table, error) {
	if t := d.tables[n]; t != nil {
		return t, nil
	}
	return nil, &Error{Code: "42P01", Message: fmt.Sprintf("relation %q does not exist", n)}
}

// typeOf says of what type an expression is.
func (d *database) typeOf(x expr, t *table) typ {
	switch v := x.(type) {
	case *exCol:
		if t != nil {
			if i := t.col(v.name); i >= 0 {
				return t.cols[i].t
			}
		}
	case *exLit:
		switch v.v.(type) {
		case int64:
			return tyInt4
		case string:
			return tyUnknown
		case bool:
			return tyBool
		}
	case *exBin:
		switch v.op {
		case "+", "-":
			return max(d.typeOf(v.l, t), d.typeOf(v.r, t), tyInt4)
		case "||":
			return tyText
		}
		return tyBool
	case *exNot, *exIsNull, *exAny, *exIn, *exExists:
		return tyBool
	case *exCast:
		return v.t
	case *exSub:
		if len(v.q.cols) == 1 {
			return d.typeOf(v.q.cols[0].x, d.tables[v.q.table])
		}
	case *exFunc:
		if l, ok := advisoryLocks[v.name]; ok {
			if l.try {
				return tyBool
			}
			return tyVoid
		}
		switch v.name {
		case "count":
			return tyInt8
		case "max", "min":
			if len(v.args) == 1 {
				return d.typeOf(v.args[0], t)
			}
		case "coalesce":
			for _, a := range v.args {
				if ty := d.typeOf(a, t); ty != tyUnknown {
					if ty == tyInt4 {
						for _, b := range v.args {
							if d.typeOf(b, t) == tyInt8 {
								return tyInt8
							}
						}
					}
					return ty
				}
			}
		case "pg_notify", "pg_sleep", "pg_advisory_unlock_all":
			return tyVoid
		case "pg_advisory_unlock", "pg_advisory_unlock_shared":
			return tyBool
		case "hashtext", "length":
			return tyInt4
		case "row_to_json", "lower", "upper", "version", "current_schema":
			return tyText
		}
	}
	return tyUnknown
}

// infer gives the parameters of a statement their types.
func (d *database) infer(st any) ([]typ, error) {
	var out []typ
	set := func(x expr, want typ) {
		p, ok := x.(*exParam)
		if !ok {
			return
		}
		for len(out) < p.n {
			out = append(out, tyUnknown)
		}
		if out[p.n-1] == tyUnknown {
			out[p.n-1] = want
		}
	}
	var walk func(x expr, t *table, want typ)
	sel := func(q *selectStmt, walk func(x expr, t *table, want typ)) {
		t := d.tables[q.table]
		for _, c := range q.cols {
			walk(c.x, t, tyText)
		}
		if q.where != nil {
			walk(q.where, t, tyBool)
		}
		for _, g := range q.group {
			walk(g, t, tyUnknown)
		}
		for _, o := range q.order {
			walk(o.x, t, tyUnknown)
		}
		if q.limit != nil {
			walk(q.limit, t, tyInt8)
		}
		if q.offset != nil {
			walk(q.offset, t, tyInt8)
		}
	}
	walk = func(x expr, t *table, want typ) {
		set(x, want)
		switch v := x.(type) {
		case *exBin:
			if v.op == "and" || v.op == "or" {
				walk(v.l, t, tyBool)
				walk(v.r, t, tyBool)
				return
			}
			lt, rt := d.typeOf(v.l, t), d.typeOf(v.r, t)
			walk(v.l, t, rt)
			walk(v.r, t, lt)
		case *exNot:
			walk(v.x, t, tyBool)
		case *exIsNull:
			walk(v.x, t, tyText)
		case *exAny:
			walk(v.l, t, tyUnknown)
			walk(v.r, t, d.typeOf(v.l, t).array())
		case *exIn:
			lt := d.typeOf(v.l, t)
			walk(v.l, t, tyUnknown)
			for _, a := range v.list {
				walk(a, t, lt)
			}
		case *exCast:
			walk(v.x, t, v.t)
		case *exSub:
			sel(v.q, walk)
		case *exExists:
			sel(v.q, walk)
		case *exFunc:
			want := tyText
			if _, ok := advisoryLocks[v.name]; ok || strings.HasPrefix(v.name, "pg_advisory_unlock") {
				want = tyInt8
				if len(v.args) == 2 {
					want = tyInt4
				}
			}
			switch v.name {
			case "coalesce":
				want = d.typeOf(v, t)
			}
			for _, a := range v.args {
				walk(a, t, want)
			}
		}
	}
	switch v := st.(type) {
	case *selectStmt:
		sel(v, walk)
	case *insertStmt:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		cols, err := t.insertCols(v)
		if err != nil {
			return nil, err
		}
		for _, r := range v.rows {
			for i, x := range r {
				if i < len(cols) {
					walk(x, nil, t.cols[cols[i]].t)
				}
			}
		}
	case *deleteStmt:
		if v.where != nil {
			walk(v.where, d.tables[v.table], tyBool)
		}
	case *updateStmt:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		for i, x := range v.vals {
			if k := t.col(v.cols[i]); k >= 0 {
				walk(x, t, t.cols[k].t)
			}
		}
		if v.where != nil {
			walk(v.where, t, tyBool)
		}
	}
	for i, ty := range out {
		if ty == tyUnknown {
			out[i] = tyText
		}
	}
	return out, nil
}

// describe gives the columns a statement returns.
func (d *database) describe(st any) ([]selCol, []typ, bool, error) {
	var cols []selCol
	var t *table
	var err error
	switch v := st.(type) {
	case *selectStmt:
		if v.table != "" {
			if t, err = d.table(v.table); err != nil {
				return nil, nil, false, err
			}
		}
		cols = v.cols
		if v.star {
			for _, c := range t.cols {
				cols = append(cols, selCol{&exCol{c.name}, c.name})
			}
		}
	case *insertStmt:
		cols, t = v.returning, d.tables[v.table]
	case *deleteStmt:
		cols, t = v.returning, d.tables[v.table]
	case *updateStmt:
		cols, t = v.returning, d.tables[v.table]
	}
	if len(cols) == 0 {
		return nil, nil, false, nil
	}
	var typs []typ
	for _, c := range cols {
		if err := d.checkCols(c.x, t); err != nil {
			return nil, nil, false, err
		}
		typs = append(typs, d.typeOf(c.x, t))
	}
	return cols, typs, true, nil
}

func (d *database) checkCols(x expr, t *table) error {
	if c, ok := x.(*exCol); ok && (t == nil || t.col(c.name) < 0) {
		return noColumn(c.name)
	}
	return nil
}

func (t *table) insertCols(v *insertStmt) ([]int, error) {
	var out []int
	if len(v.cols) == 0 {
		for i := range t.cols {
			out = append(out, i)
		}
		return out, nil
	}
	for _, c := range v.cols {
		i := t.col(c)
		if i < 0 {
			return nil, noColumn(c)
		}
		out = append(out, i)
	}
	return out, nil
}

// convert reads the text of a parameter.
func convert(s string, t typ) (any, error) {
	if strings.IndexByte(s, 0) >= 0 || !utf8.ValidString(s) {
		return nil, &Error{Code: "22021", Message: `invalid byte sequence for encoding "UTF8"`}
	}
	switch t {
	case tyInt4, tyInt8:
		n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)
		if err != nil {
			if strings.Contains(err.Error(), "range") {
				return nil, &Error{Code: "22003", Message: fmt.Sprintf("value %q is out of range", s)}
			}
			return nil, &Error{Code: "22P02", Message: fmt.Sprintf("invalid input syntax for integer: %q", s)}
		}
		return fit(n, t)
	case tyBool:
		switch strings.ToLower(s) {
		case "t", "true", "1", "on", "yes":
			return true, nil
		case "f", "false", "0", "off", "no":
			return false, nil
		}
		return nil, &Error{Code: "22P02", Message: "invalid input syntax for type boolean"}
	case tyTextArray, tyInt8Array:
		parts, err := array(s)
		if err != nil || t == tyTextArray {
			return parts, err
		}
		var out []any
		for _, p := range parts {
			n, err := convert(p.(string), tyInt8)
			if err != nil {
				return nil, err
			}
			out = append(out, n)
		}
		return out, nil
	}
	return s, nil
}

func fit(n int64, t typ) (any, error) {
	if t == tyInt4 && (n > math.MaxInt32 || n < math.MinInt32) {
		return nil, &Error{Code: "22003", Message: fmt.Sprintf(`value "%d" is out of range for type integer`, n)}
	}
	return n, nil
}

func array(s string) ([]any, error) {
	bad := &Error{Code: "22P02", Message: fmt.Sprintf("malformed array literal: %q", s)}
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, bad
	}
	s = s[1 : len(s)-1]
	out := []any{}
	if s == "" {
		return out, nil
	}
	for i := 0; ; {
		var b strings.Builder
		if i < len(s) && s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return nil, bad
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' {
					i++
					if i >= len(s) {
						return nil, bad
					}
				}
				b.WriteByte(s[i])
				i++
			}
			out = append(out, b.String())
		} else {
			for i < len(s) && s[i] != ',' {
				b.WriteByte(s[i])
				i++
			}
			if strings.EqualFold(b.String(), "null") {
				out = append(out, nil)
			} else {
				out = append(out, b.String())
			}
		}
		if i >= len(s) {
			return out, nil
		}
		if s[i] != ',' {
			return nil, bad
		}
		i++
	}
}

type scope struct {
	c      *conn
	t      *table
	r      *row
	group  []*row // rows of the group, for aggregates
	agg    bool
	params []any
	newRow *row
}

func compare(a, b any) (int, error) {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1, nil
			case x > y:
				return 1, nil
			}
			return 0, nil
		}
		if y, ok := b.(string); ok {
			n, err := convert(y, tyInt8)
			if err != nil {
				return 0, err
			}
			return compare(x, n)
		}
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), nil
		}
		if _, ok := b.(int64); ok {
			n, err := compare(b, a)
			return -n, err
		}
	case bool:
		if y, ok := b.(bool); ok {
			if x == y {
				return 0, nil
			}
			if y {
				return -1, nil
			}
			return 1, nil
		}
	}
	return 0, &Error{Code: "42883", Message: fmt.Sprintf("operator does not exist for %T and %T", a, b)}
}

func holds(op string, n int) bool {
	switch op {
	case "=":
		return n == 0
	case "<>":
		return n != 0
	case "<":
		return n < 0
	case "<=":
		return n <= 0
	case ">":
		return n > 0
	}
	return n >= 0
}

func (s *scope) eval(x expr) (any, error) {
	switch v := x.(type) {
	case *exLit:
		return v.v, nil
	case *exParam:
		if v.n > len(s.params) {
			return nil, &Error{Code: "42P02", Message: fmt.Sprintf("there is no parameter $%d", v.n)}
		}
		return s.params[v.n-1], nil
	case *exCol:
		if s.newRow != nil && v.name == "new" {
			return s.newRow, nil
		}
		if s.t == nil || s.t.col(v.name) < 0 {
			return nil, noColumn(v.name)
		}
		if s.r == nil {
			return nil, &Error{Code: "42803", Message: fmt.Sprintf("column %q must appear in the GROUP BY clause or be used in an aggregate function", v.name)}
		}
		return s.r.vals[s.t.col(v.name)], nil
	case *exNot:
		a, err := s.eval(v.x)
		if err != nil || a == nil {
			return nil, err
		}
		return a == false, nil
	case *exIsNull:
		a, err := s.eval(v.x)
		return (a == nil) != v.not, err
	case *exBin:
		a, err := s.eval(v.l)
		if err != nil {
			return nil, err
		}
		if v.op == "and" && a == false {
			return false, nil
		}
		if v.op == "or" && a == true {
			return true, nil
		}
		b, err := s.eval(v.r)
		if err != nil {
			return nil, err
		}
		switch v.op {
		case "and":
			if b == false {
				return false, nil
			}
			if a == nil || b == nil {
				return nil, nil
			}
			return true, nil
		case "or":
			if b == true {
				return true, nil
			}
			if a == nil || b == nil {
				return nil, nil
			}
			return false, nil
		}
		if a == nil || b == nil {
			return nil, nil
		}
		switch v.op {
		case "+", "-":
			m, ok1 := a.(int64)
			n, ok2 := b.(int64)
			if !ok1 || !ok2 {
				return nil, unsupported("arithmetic on %T and %T", a, b)
			}
			if v.op == "-" {
				return m - n, nil
			}
			return m + n, nil
		case "||":
			return fmt.Sprint(a) + fmt.Sprint(b), nil
		}
		n, err := compare(a, b)
		return holds(v.op, n), err
	case *exAny:
		a, err := s.eval(v.l)
		if err != nil {
			return nil, err
		}
		b, err := s.eval(v.r)
		if err != nil || a == nil || b == nil {
			return nil, err
		}
		list, ok := b.([]any)
		if !ok {
			return nil, unsupported("ANY of %T", b)
		}
		return s.among(v.op, a, list)
	case *exIn:
		a, err := s.eval(v.l)
		if err != nil || a == nil {
			return nil, err
		}
		var list []any
		for _, x := range v.list {
			b, err := s.eval(x)
			if err != nil {
				return nil, err
			}
			list = append(list, b)
		}
		r, err := s.among("=", a, list)
		if err != nil || r == nil || !v.not {
			return r, err
		}
		return r == false, nil
	case *exCast:
		a, err := s.eval(v.x)
		if err != nil || a == nil {
			return nil, err
		}
		switch y := a.(type) {
		case int64:
			if v.t == tyText {
				return strconv.FormatInt(y, 10), nil
			}
			return fit(y, v.t)
		case string:
			return convert(y, v.t)
		case []any, bool:
			return y, nil
		}
		return nil, unsupported("cast of %T", a)
	case *exSub, *exExists:
		q, exists := (*selectStmt)(nil), false
		if e, ok := v.(*exExists); ok {
			q, exists = e.q, true
		} else {
			q = v.(*exSub).q
		}
		res, err := s.c.selectRows(q, s.params)
		if err != nil {
			return nil, err
		}
		if exists {
			return len(res.rows) > 0, nil
		}
		if len(res.rows) == 0 {
			return nil, nil
		}
		return res.rows[0][0], nil
	case *exFunc:
		return s.call(v)
	}
	return nil, unsupported("expression %T", x)
}

func (s *scope) among(op string, a any, list []any) (any, error) {
	var out any = false
	for _, b := range list {
		if b == nil {
			out = nil
			continue
		}
		n, err := compare(a, b)
		if err != nil {
			return nil, err
		}
		if holds(op, n) {
			return true, nil
		}
	}
	return out, nil
}

func (s *scope) call(v *exFunc) (any, error) {
	switch v.name {
	case "max", "min", "count":
		if !s.agg {
			return nil, &Error{Code: "42803", Message: "aggregate functions are not allowed here"}
		}
		var best any
		n := int64(0)
		for _, r := range s.group {
			if v.star {
				n++
				continue
			}
			in := *s
			in.r, in.agg = r, false
			a, err := in.eval(v.args[0])
			if err != nil {
				return nil, err
			}
			if a == nil {
				continue
			}
			n++
			if best == nil {
				best = a
				continue
			}
			c, err := compare(a, best)
			if err != nil {
				return nil, err
			}
			if c > 0 == (v.name == "max") && c != 0 {
				best = a
			}
		}
		if v.name == "count" {
			return n, nil
		}
		return best, nil
	}
	var args []any
	for _, x := range v.args {
		a, err := s.eval(x)
		if err != nil {
			return nil, err
		}
		args = append(args, a)
	}
	str := func(i int) string {
		if i < len(args) {
			if x, ok := args[i].(string); ok {
				return x
			}
		}
		return ""
	}
	if l, ok := advisoryLocks[v.name]; ok || strings.HasPrefix(v.name, "pg_advisory_unlock") {
		key := int64(0)
		switch {
		case len(args) == 1:
			key, _ = args[0].(int64)
		case len(args) == 2:
			a, _ := args[0].(int64)
			b, _ := args[1].(int64)
			key = a<<32 ^ b ^ 1<<62
		case v.name != "pg_advisory_unlock_all":
			return nil, unsupported("arguments of %s", v.name)
		}
		if ok {
			return s.c.advisoryLock(key, l)
		}
		return s.c.advisoryUnlock(v.name, key)
	}
	switch v.name {
	case "coalesce":
		for _, a := range args {
			if a != nil {
				return a, nil
			}
		}
		return nil, nil
	case "lower":
		return strings.ToLower(str(0)), nil
	case "version":
		return "PostgreSQL 13 (fakepg)", nil
	case "hashtext":
		h := int64(7)
		for _, b := range []byte(str(0)) {
			h = (h*31 + int64(b)) % math.MaxInt32
		}
		return h, nil
	case "pg_notify":
		return nil, s.c.notify(str(0), str(1))
	case "row_to_json":
		r, ok := args[0].(*row)
		if !ok || s.t == nil {
			return nil, unsupported("row_to_json")
		}
		var b strings.Builder
		b.WriteByte('{')
		for i, c := range s.t.cols {
			if i > 0 {
				b.WriteByte(',')
			}
			jsonText(&b, c.name)
			b.WriteByte(':')
			switch x := r.vals[i].(type) {
			case nil:
				b.WriteString("null")
			case string:
				jsonText(&b, x)
			default:
				fmt.Fprint(&b, x)
			}
		}
		b.WriteByte('}')
		return b.String(), nil
	}
	return nil, unsupported("function %q", v.name)
}

// jsonText quotes as PostgreSQL's escape_json does.
func jsonText(b *strings.Builder, s string) {
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '\b':
			b.WriteString(`\b`)
		case '\f':
			b.WriteString(`\f`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		default:
			if c < ' ' {
				fmt.Fprintf(b, `\u%04x`, c)
			} else {
				b.WriteByte(c)
			}
		}
	}
	b.WriteByte('"')
}

// wait blocks while blocker names a transaction that is still active.
func (c *conn) wait(blocker func() *tx) error {
	s := c.s
	for {
		b := blocker()
		if b == nil || b.state != txActive || b == c.tx {
			return nil
		}
		for x := b; x != nil && x.state == txActive; x = x.waitingOn {
			if x == c.tx || x == c.session {
				return &Error{Code: "40P01", Message: "deadlock detected"}
			}
		}
		c.tx.waitingOn, c.session.waitingOn = b, b
		s.waits++
		s.cond.Wait()
		c.tx.waitingOn, c.session.waitingOn = nil, nil
		if c.dead {
			return &Error{Code: "57P01", Message: "terminating connection"}
		}
		if c.cancelled {
			c.cancelled = false
			return &Error{Code: "57014", Message: "canceling statement due to user request"}
		}
	}
}

type advisory struct{ try, shared, session bool }

var advisoryLocks = map[string]advisory{
	"pg_advisory_lock":                 {session: true},
	"pg_advisory_lock_shared":          {session: true, shared: true},
	"pg_advisory_xact_lock":            {},
	"pg_advisory_xact_lock_shared":     {shared: true},
	"pg_try_advisory_lock":             {try: true, session: true},
	"pg_try_advisory_lock_shared":      {try: true, session: true, shared: true},
	"pg_try_advisory_xact_lock":        {try: true},
	"pg_try_advisory_xact_lock_shared": {try: true, shared: true},
}

func (c *conn) advisoryLock(key int64, l advisory) (any, error) {
	holder := func() *tx {
		for _, h := range c.d.advisory[key] {
			if h.by != c.tx && h.by != c.session && h.by.state == txActive && !(l.shared && h.shared) {
				return h.by
			}
		}
		return nil
	}
	if l.try {
		if holder() != nil {
			return false, nil
		}
	} else if err := c.wait(holder); err != nil {
		return nil, err
	}
	by := c.tx
	if l.session {
		by = c.session
	}
	c.d.advisory[key] = append(c.d.advisory[key], &hold{by, l.shared})
	if l.try {
		return true, nil
	}
	return "", nil
}

func (c *conn) advisoryUnlock(name string, key int64) (any, error) {
	defer c.s.cond.Broadcast()
	if name == "pg_advisory_unlock_all" {
		c.d.release(c.session)
		return "", nil
	}
	for i, h := range c.d.advisory[key] {
		if h.by == c.session && h.shared == (name == "pg_advisory_unlock_shared") {
			c.d.advisory[key] = slices.Delete(c.d.advisory[key], i, i+1)
			return true, nil
		}
	}
	return false, nil
}

func (d *database) release(t *tx) {
	for k, hs := range d.advisory {
		if hs = slices.DeleteFunc(hs, func(h *hold) bool { return h.by == t }); len(hs) > 0 {
			d.advisory[k] = hs
		} else {
			delete(d.advisory, k)
		}
	}
}

func (c *conn) notify(channel, payload string) error {
	if len(payload) >= 8000 {
		return &Error{Code: "22023", Message: "payload string too long"}
	}
	n := note{channel, payload}
	if !slices.Contains(c.tx.notes, n) {
		c.tx.notes = append(c.tx.notes, n)
	}
	return nil
}

// finish ends the transaction of a connection.
func (c *conn) finish(commit bool) {
	t := c.tx
	if t == nil {
		return
	}
	c.tx = nil
	t.state = txAborted
	if commit {
		t.state = txCommitted
		for _, n := range t.notes {
			for _, o := range c.s.conns {
				if o.d == c.d && o.listening[n.channel] {
					o.pending = append(o.pending, n)
				}
			}
		}
	}
	c.d.release(t)
	for _, tb := range c.d.tables {
		if tb.writers[t] {
			delete(tb.writers, t)
			tb.rows = slices.DeleteFunc(tb.rows, func(r *row) bool {
				return r.by.state == txAborted
			})
		}
	}
	c.s.cond.Broadcast()
}

func (c *conn) write(t *table) error {
	err := c.wait(func() *tx { return t.locker })
	if err == nil {
		t.writers[c.tx] = true
	}
	return err
}

// visibleRows is the statement's snapshot.
func (c *conn) visibleRows(t *table) []*row {
	var out []*row
	for _, r := range t.rows {
		if r.visible(c.tx) {
			out = append(out, r)
		}
	}
	return out
}

func (c *conn) matching(t *table, where expr, params []any) ([]*row, error) {
	var out []*row
	for _, r := range c.visibleRows(t) {
		ok, err := c.matches(t, r, where, params)
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, r)
		}
	}
	return out, nil
}

func (c *conn) matches(t *table, r *row, where expr, params []any) (bool, error) {
	if where == nil {
		return true, nil
	}
	s := &scope{c: c, t: t, r: r, params: params}
	v, err := s.eval(where)
	return v == true, err
}

// own locks a row against other writers, following it to its newest version;
// nil when it is gone.
func (c *conn) own(t *table, r *row, where expr, params []any) (*row, error) {
	for {
		err := c.wait(func() *tx {
			if r.del != nil && r.del.state == txActive {
				return r.del
			}
			if r.locker != nil && r.locker.state == txActive && r.locker != c.tx {
				return r.locker
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
		if r.del == nil || r.del.state == txAborted {
			return r, nil
		}
		if r.next == nil {
			return nil, nil
		}
		r = r.next
		if ok, err := c.matches(t, r, where, params); !ok || err != nil {
			return nil, err
		}
	}
}

func hasAggregate(x expr) bool {
	switch v := x.(type) {
	case *exFunc:
		if v.name == "max" || v.name == "min" || v.name == "count" {
			return true
		}
		return slices.ContainsFunc(v.args, hasAggregate)
	case *exBin:
		return hasAggregate(v.l) || hasAggregate(v.r)
	case *exCast:
		return hasAggregate(v.x)
	}
	return false
}

func (c *conn) selectRows(q *selectStmt, params []any) (*result, error) {
	cols, typs, has, err := c.d.describe(q)
	if err != nil {
		return nil, err
	}
	res := &result{cols: cols, typs: typs, has: has}
	emit := func(s *scope) ([]any, error) {
		var vals []any
		for _, col := range cols {
			v, err := s.eval(col.x)
			if err != nil {
				return nil, err
			}
			vals = append(vals, v)
		}
		return vals, nil
	}
	if q.table == "" {
		vals, err := emit(&scope{c: c, params: params})
		if err != nil {
			return nil, err
		}
		res.rows, res.tag = append(res.rows, vals), "SELECT 1"
		return res, nil
	}
	t, err := c.d.table(q.table)
	if err != nil {
		return nil, err
	}
	rows, err := c.matching(t, q.where, params)
	if err != nil {
		return nil, err
	}
	if q.lock {
		if err := c.write(t); err != nil {
			return nil, err
		}
		var kept []*row
		for _, r := range rows {
			r, err := c.own(t, r, q.where, params)
			if err != nil {
				return nil, err
			}
			if r != nil {
				r.locker = c.tx
				kept = append(kept, r)
			}
		}
		rows = kept
	}
	type item struct {
		vals, keys []any
	}
	var items []item
	add := func(s *scope) error {
		vals, err := emit(s)
		if err != nil {
			return err
		}
		it := item{vals: vals}
		for _, o := range q.order {
			k, err := s.eval(o.x)
			if err != nil {
				return err
			}
			it.keys = append(it.keys, k)
		}
		items = append(items, it)
		return nil
	}
	agg := len(q.group) > 0 || slices.ContainsFunc(cols, func(c selCol) bool { return hasAggregate(c.x) })
	if agg {
		var keys []string
		groups := map[string][]*row{}
		for _, r := range rows {
			k := ""
			for _, g := range q.group {
				v, err := (&scope{c: c, t: t, r: r, params: params}).eval(g)
				if err != nil {
					return nil, err
				}
				k += fmt.Sprintf("%T %q\x00", v, fmt.Sprint(v))
			}
			if _, ok := groups[k]; !ok {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], r)
		}
		if len(q.group) == 0 {
			keys = []string{""}
		}
		for _, k := range keys {
			s := &scope{c: c, t: t, group: groups[k], agg: true, params: params}
			if len(q.group) > 0 {
				s.r = groups[k][0]
			}
			if err := add(s); err != nil {
				return nil, err
			}
		}
	} else {
		// Without ORDER BY the rows come in an order of the server's choice.
		for i := len(rows) - 1; i >= 0; i-- {
			if err := add(&scope{c: c, t: t, r: rows[i], params: params}); err != nil {
				return nil, err
			}
		}
	}
	var failed error
	if len(q.order) > 0 {
		sort.SliceStable(items, func(a, b int) bool {
			for k, o := range q.order {
				x, y := items[a].keys[k], items[b].keys[k]
				if x == nil || y == nil {
					if (x == nil) != (y == nil) {
						return (y == nil) != o.desc
					}
					continue
				}
				n, err := compare(x, y)
				if err != nil {
					failed = err
				}
				if n != 0 {
					return n < 0 != o.desc
				}
			}
			return false
		})
	}
	if failed != nil {
		return nil, failed
	}
	num := func(x expr) (int, error) {
		v, err := (&scope{c: c, params: params}).eval(x)
		if err != nil {
			return 0, err
		}
		n, _ := v.(int64)
		return int(min(n, math.MaxInt32)), nil
	}
	if q.offset != nil {
		n, err := num(q.offset)
		if err != nil {
			return nil, err
		}
		items = items[min(max(n, 0), len(items)):]
	}
	if q.limit != nil {
		n, err := num(q.limit)
		if err != nil {
			return nil, err
		}
		items = items[:min(max(n, 0), len(items))]
	}
	for _, it := range items {
		res.rows = append(res.rows, it.vals)
	}
	res.tag = fmt.Sprintf("SELECT %d", len(res.rows))
	return res, nil
}

func (c *conn) returning(t *table, rows []*row, params []any, cols []selCol, res *result) error {
	for _, r := range rows {
		var vals []any
		for _, col := range cols {
			v, err := (&scope{c: c, t: t, r: r, params: params}).eval(col.x)
			if err != nil {
				return err
			}
			vals = append(vals, v)
		}
		if len(cols) > 0 {
			res.rows = append(res.rows, vals)
		}
	}
	return nil
}

// put adds a version of a row once no constraint is against it.
func (c *conn) put(t *table, r *row, old *row, ignore bool) (bool, error) {
	for i, col := range t.cols {
		if r.vals[i] == nil {
			if col.notNull {
				return false, &Error{Code: "23502", Message: fmt.Sprintf("null value in column %q violates not-null constraint", col.name)}
			}
			continue
		}
		if col.unique == "" {
			continue
		}
		for {
			var clash *row
			var holder *tx
			for _, o := range t.rows {
				if o == old || o.vals[i] != r.vals[i] || o.by.state == txAborted {
					continue
				}
				if o.del != nil && (o.del.state == txCommitted || o.del == c.tx) {
					continue
				}
				clash = o
				if o.by.state == txActive && o.by != c.tx {
					holder = o.by
				} else if o.del != nil && o.del.state == txActive {
					holder = o.del
				}
				if holder == nil {
					break
				}
			}
			if clash == nil {
				break
			}
			if holder == nil {
				if ignore {
					return false, nil
				}
				return false, &Error{Code: "23505", Message: fmt.Sprintf("duplicate key value violates unique constraint %q", col.unique), Constraint: col.unique}
			}
			if err := c.wait(func() *tx { return holder }); err != nil {
				return false, err
			}
		}
	}
	t.rows = append(t.rows, r)
	return true, nil
}

func (c *conn) execute(st any, params []any) (*result, error) {
	if c.tx != nil && c.tx.failed {
		switch st.(type) {
		case *rollbackStmt, *commitStmt:
		default:
			return nil, &Error{Code: "25P02", Message: "current transaction is aborted, commands ignored until end of transaction block"}
		}
	}
	d := c.d
	switch v := st.(type) {
	case *nothing:
		return &result{tag: v.tag}, nil
	case *selectStmt:
		return c.selectRows(v, params)
	case *insertStmt:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		cols, err := t.insertCols(v)
		if err != nil {
			return nil, err
		}
		if err := c.write(t); err != nil {
			return nil, err
		}
		var done []*row
		for _, xs := range v.rows {
			if len(xs) != len(cols) {
				return nil, &Error{Code: "42601", Message: "INSERT has not as many expressions as target columns"}
			}
			r := &row{vals: make([]any, len(t.cols)), by: c.tx}
			for i, x := range xs {
				val, err := (&scope{c: c, params: params}).eval(x)
				if err != nil {
					return nil, err
				}
				if n, ok := val.(int64); ok {
					if val, err = fit(n, t.cols[cols[i]].t); err != nil {
						return nil, err
					}
				}
				r.vals[cols[i]] = val
			}
			for i, col := range t.cols {
				if col.serial && !slices.Contains(cols, i) {
					t.seq[i]++
					r.vals[i] = t.seq[i]
				}
			}
			ok, err := c.put(t, r, nil, v.ignore)
			if err != nil {
				return nil, err
			}
			if ok {
				done = append(done, r)
			}
		}
		for _, tr := range t.triggers {
			for _, r := range done {
				if err := c.fire(t, tr, r); err != nil {
					return nil, err
				}
			}
		}
		cs, typs, has, err := d.describe(v)
		if err != nil {
			return nil, err
		}
		res := &result{cols: cs, typs: typs, has: has, tag: fmt.Sprintf("INSERT 0 %d", len(done))}
		return res, c.returning(t, done, params, cs, res)
	case *deleteStmt, *updateStmt:
		var name string
		var where expr
		up, updating := v.(*updateStmt)
		if updating {
			name, where = up.table, up.where
		} else {
			name, where = v.(*deleteStmt).table, v.(*deleteStmt).where
		}
		t, err := d.table(name)
		if err != nil {
			return nil, err
		}
		if err := c.write(t); err != nil {
			return nil, err
		}
		rows, err := c.matching(t, where, params)
		if err != nil {
			return nil, err
		}
		var done []*row
		for _, r := range rows {
			r, err := c.own(t, r, where, params)
			if err != nil {
				return nil, err
			}
			if r == nil {
				continue
			}
			if updating {
				nr := &row{vals: slices.Clone(r.vals), by: c.tx}
				for i, x := range up.vals {
					k := t.col(up.cols[i])
					if k < 0 {
						return nil, noColumn(up.cols[i])
					}
					val, err := (&scope{c: c, t: t, r: r, params: params}).eval(x)
					if err != nil {
						return nil, err
					}
					nr.vals[k] = val
				}
				if _, err := c.put(t, nr, r, false); err != nil {
					return nil, err
				}
				r.next = nr
				r.del = c.tx
				r = nr
			} else {
				r.del, r.next = c.tx, nil
			}
			done = append(done, r)
		}
		cs, typs, has, err := d.describe(st)
		if err != nil {
			return nil, err
		}
		res := &result{cols: cs, typs: typs, has: has, tag: fmt.Sprintf("DELETE %d", len(done))}
		if updating {
			res.tag = fmt.Sprintf("UPDATE %d", len(done))
		}
		return res, c.returning(t, done, params, cs, res)
	case *beginStmt:
		if v.strict {
			return nil, unsupported("isolation level")
		}
		c.tx.implicit = false
		return &result{tag: "BEGIN"}, nil
	case *commitStmt:
		tag := "COMMIT"
		if c.tx.failed {
			tag = "ROLLBACK"
		}
		c.finish(!c.tx.failed)
		return &result{tag: tag}, nil
	case *rollbackStmt:
		c.finish(false)
		return &result{tag: "ROLLBACK"}, nil
	case *alterSeq:
		for _, t := range d.tables {
			for i, col := range t.cols {
				if col.serial && v.name == t.name+"_"+col.name+"_seq" {
					t.seq[i] = v.next - 1
					return &result{tag: "ALTER SEQUENCE"}, nil
				}
			}
		}
		return nil, &Error{Code: "42P01", Message: fmt.Sprintf("relation %q does not exist", v.name)}
	case *listenStmt:
		c.listening[v.channel] = true
		return &result{tag: "LISTEN"}, nil
	case *unlistenStmt:
		if v.channel == "" {
			clear(c.listening)
		}
		delete(c.listening, v.channel)
		return &result{tag: "UNLISTEN"}, nil
	case *notifyStmt:
		return &result{tag: "NOTIFY"}, c.notify(v.channel, v.payload)
	case *createTable:
		if d.tables[v.name] != nil {
			if v.ifNotExists {
				return &result{tag: "CREATE TABLE"}, nil
			}
			return nil, &Error{Code: "42P07", Message: fmt.Sprintf("relation %q already exists", v.name)}
		}
		d.tables[v.name] = &table{name: v.name, cols: v.cols, seq: make([]int64, len(v.cols)), writers: map[*tx]bool{}}
		return &result{tag: "CREATE TABLE"}, nil
	case *createFunction:
		d.functions[v.name] = v.body
		return &result{tag: "CREATE FUNCTION"}, nil
	case *dropTrigger:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		t.triggers = slices.DeleteFunc(t.triggers, func(x *createTrigger) bool { return x.name == v.name })
		return &result{tag: "DROP TRIGGER"}, nil
	case *createTrigger:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		if slices.ContainsFunc(t.triggers, func(x *createTrigger) bool { return x.name == v.name }) {
			return nil, &Error{Code: "42710", Message: fmt.Sprintf("trigger %q already exists", v.name)}
		}
		if _, ok := d.functions[v.function]; !ok {
			return nil, &Error{Code: "42883", Message: fmt.Sprintf("function %s() does not exist", v.function)}
		}
		t.triggers = append(t.triggers, v)
		return &result{tag: "CREATE TRIGGER"}, nil
	case *lockTable:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		err = c.wait(func() *tx {
			for w := range t.writers {
				if w != c.tx && w.state == txActive {
					return w
				}
			}
			return t.locker
		})
		if err != nil {
			return nil, err
		}
		t.locker = c.tx
		return &result{tag: "LOCK TABLE"}, nil
	case *truncate:
		t, err := d.table(v.table)
		if err != nil {
			return nil, err
		}
		t.rows = nil
		return &result{tag: "TRUNCATE TABLE"}, nil
	}
	return nil, unsupported("statement %T", st)
}

// fire runs a trigger function made of BEGIN PERFORM f(…); RETURN …; END.
func (c *conn) fire(t *table, tr *createTrigger, r *row) error {
	toks, err := lex(c.d.functions[tr.function])
	if err != nil {
		return err
	}
	p := &parser{toks: toks}
	if !p.is("begin") {
		return unsupported("trigger function")
	}
	for {
		switch {
		case p.is("perform"):
			x, err := p.expr()
			if err != nil {
				return err
			}
			if _, err := (&scope{c: c, t: t, newRow: r}).eval(x); err != nil {
				return err
			}
			if err := p.must(";"); err != nil {
				return err
			}
		case p.is("return", "null", ";"), p.is("return", "new", ";"):
			return nil
		default:
			return unsupported("trigger function")
		}
	}
}
