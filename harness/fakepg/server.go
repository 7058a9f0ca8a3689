// Package fakepg is a stand-in for a PostgreSQL server: the wire protocol, a
// small part of SQL with read-committed transactions, sequences, locks, triggers
// and notifications, all in memory, and faults on request.  It judges nothing
// by the text of a statement: it runs it.
package fakepg

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Act is what a fault does to a statement.
type Act struct {
	Drop  string // "before" or "after" running it, or in the "mid" of its result: the connection is lost
	Err   *Error // the statement fails
	Delay time.Duration
	After time.Duration // before the result is sent
}

// DB is one database of the server, for one case.
type DB struct {
	Name string
	d    *database
	// Hook is told the kind of each statement before it runs.
	Hook func(kind string) Act
	// MaxConns limits the connections, as max_connections does.
	MaxConns int
	refuse   bool

	Unsupported []string
}

type server struct {
	mu    sync.Mutex
	cond  *sync.Cond
	ln    net.Listener
	dbs   map[string]*DB
	conns map[int32]*conn
	next  int32
	waits int

	standard string
}

var (
	once sync.Once
	the  *server
)

// Address is where the server will listen.
var Address = "127.0.0.1:0"

func start() *server {
	once.Do(func() {
		s := &server{dbs: map[string]*DB{}, conns: map[int32]*conn{}}
		s.cond = sync.NewCond(&s.mu)
		ln, err := net.Listen("tcp", Address)
		if err != nil {
			panic(err)
		}
		s.ln = ln
		go s.accept(ln)
		the = s
	})
	return the
}

// Standard serves on port 5432 of some loopback address of its own, and tells it.
func Standard() string {
	s := start()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.standard != "" {
		return s.standard
	}
	for n := os.Getpid(); ; n += 7919 {
		host := fmt.Sprintf("127.%d.%d.%d", 64+n>>16&63, n>>8&255, 1+n%253)
		ln, err := net.Listen("tcp", host+":5432")
		if err != nil {
			if n > 1<<30 {
				panic(err)
			}
			continue
		}
		go s.accept(ln)
		s.standard = host
		return host
	}
}

func (s *server) accept(ln net.Listener) {
	for {
		nc, err := ln.Accept()
		if err != nil {
			return
		}
		go s.serve(nc)
	}
}

// Create makes a database; Port is where the server listens on 127.0.0.1.
func Create(name string) *DB {
	s := start()
	s.mu.Lock()
	defer s.mu.Unlock()
	db := &DB{Name: name, MaxConns: 100, d: &database{tables: map[string]*table{}, functions: map[string]string{}, advisory: map[int64][]*hold{}}}
	s.dbs[name] = db
	return db
}

// Port is where the server listens on 127.0.0.1.
func Port() int { return start().ln.Addr().(*net.TCPAddr).Port }

// Drop removes the database and its connections.
func (db *DB) Drop() {
	db.DropConnections()
	the.mu.Lock()
	delete(the.dbs, db.Name)
	the.mu.Unlock()
}

// DropConnections closes every connection, as a restart of the server does.
func (db *DB) DropConnections() {
	the.mu.Lock()
	for _, c := range the.conns {
		if c.db == db {
			c.kill()
		}
	}
	the.cond.Broadcast()
	the.mu.Unlock()
}

// Refuse makes the server refuse new connections, or not.
func (db *DB) Refuse(on bool) { the.mu.Lock(); db.refuse = on; the.mu.Unlock() }

// State counts the connections, and those that sit in a transaction without
// running a statement.
func (db *DB) State() (conns, inTx int) {
	the.mu.Lock()
	defer the.mu.Unlock()
	for _, c := range the.conns {
		if c.db == db && !c.dead {
			conns++
			if c.tx != nil {
				inTx++
			}
		}
	}
	return
}

// SetHook replaces the hook.
func (db *DB) SetHook(f func(kind string) Act) { the.mu.Lock(); db.Hook = f; the.mu.Unlock() }

// Odd returns the statements the server could not run because it is a stand-in.
func (db *DB) Odd() []string {
	the.mu.Lock()
	defer the.mu.Unlock()
	return append([]string(nil), db.Unsupported...)
}

var odd atomic.Int64

// OddCount counts such statements, of all databases.
func OddCount() int64 { return odd.Load() }

// Rows counts the committed rows of a table.
func (db *DB) Rows(name string) int {
	the.mu.Lock()
	defer the.mu.Unlock()
	n := 0
	if t := db.d.tables[name]; t != nil {
		for _, r := range t.rows {
			if r.visible(nil) {
				n++
			}
		}
	}
	return n
}

type prepared struct {
	sts    []any
	params []typ
}

type portal struct {
	st      *prepared
	vals    []any
	formats []int16
}

type conn struct {
	s         *server
	nc        net.Conn
	r         *bufio.Reader
	w         bytes.Buffer
	db        *DB
	d         *database
	pid, key  int32
	tx        *tx
	session   *tx // holds session-level advisory locks
	dead      bool
	busy      bool
	running   bool
	cancelled bool
	listening map[string]bool
	pending   []note
	stmts     map[string]*prepared
	portals   map[string]*portal
	skip      bool // until Sync
	dropMid   bool
}

// kill is called with the lock held.
func (c *conn) kill() {
	c.dead = true
	c.nc.Close()
}

var errLost = errors.New("connection lost")

func (s *server) serve(nc net.Conn) {
	c := &conn{s: s, session: &tx{}, nc: nc, r: bufio.NewReader(nc), listening: map[string]bool{}, stmts: map[string]*prepared{}, portals: map[string]*portal{}}
	defer nc.Close()
	if !c.startup() {
		return
	}
	go c.notifier()
	defer func() {
		s.mu.Lock()
		c.dead = true
		c.finish(false)
		c.session.state = txAborted
		c.d.release(c.session)
		delete(s.conns, c.pid)
		s.cond.Broadcast()
		s.mu.Unlock()
	}()
	for {
		t, body, err := c.message()
		if err != nil {
			return
		}
		s.mu.Lock()
		for c.busy && !c.dead {
			s.cond.Wait()
		}
		c.busy = true
		s.mu.Unlock()
		err = c.handle(t, body)
		if err == nil && (t == 'Q' || t == 'S' || t == 'H') {
			_, err = nc.Write(c.w.Bytes())
			c.w.Reset()
		}
		s.mu.Lock()
		c.busy = false
		s.cond.Broadcast()
		s.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (c *conn) message() (byte, []byte, error) {
	t, err := c.r.ReadByte()
	if err != nil {
		return 0, nil, err
	}
	b, err := c.packet()
	return t, b, err
}

func (c *conn) packet() ([]byte, error) {
	var n int32
	if err := binary.Read(c.r, binary.BigEndian, &n); err != nil {
		return nil, err
	}
	if n < 4 || n > 1<<28 {
		return nil, errLost
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(c.r, b)
	return b, err
}

func (c *conn) startup() bool {
	for {
		b, err := c.packet()
		if err != nil || len(b) < 4 {
			return false
		}
		switch binary.BigEndian.Uint32(b) {
		case 80877103: // SSL
			if _, err := c.nc.Write([]byte("N")); err != nil {
				return false
			}
			continue
		case 80877102: // cancel
			if len(b) >= 12 {
				pid, key := int32(binary.BigEndian.Uint32(b[4:])), int32(binary.BigEndian.Uint32(b[8:]))
				c.s.mu.Lock()
				if o := c.s.conns[pid]; o != nil && o.key == key && o.running {
					o.cancelled = true
					c.s.cond.Broadcast()
				}
				c.s.mu.Unlock()
			}
			return false
		case 196608:
			parts := strings.Split(string(b[4:]), "\x00")
			opts := map[string]string{}
			for i := 0; i+1 < len(parts); i += 2 {
				opts[parts[i]] = parts[i+1]
			}
			s := c.s
			s.mu.Lock()
			db := s.dbs[opts["database"]]
			var fail *Error
			if db == nil {
				fail = &Error{Code: "3D000", Message: fmt.Sprintf("database %q does not exist", opts["database"])}
			} else if db.refuse {
				fail = &Error{Code: "57P03", Message: "the database system is starting up"}
			} else {
				n := 0
				for _, o := range s.conns {
					if o.db == db {
						n++
					}
				}
				if n >= db.MaxConns {
					fail = &Error{Code: "53300", Message: "sorry, too many clients already"}
				}
			}
			if fail == nil {
				s.next++
				c.pid, c.key, c.db, c.d = s.next, s.next*7919, db, db.d
				s.conns[c.pid] = c
			}
			s.mu.Unlock()
			if fail != nil {
				c.fail(fail, "FATAL")
				_, _ = c.nc.Write(c.w.Bytes())
				return false
			}
			c.msg('R', []byte{0, 0, 0, 0})
			for _, kv := range [][2]string{{"server_version", "13.0"}, {"client_encoding", "UTF8"}, {"server_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"integer_datetimes", "on"}, {"standard_conforming_strings", "on"}} {
				c.msg('S', []byte(kv[0]+"\x00"+kv[1]+"\x00"))
			}
			k := binary.BigEndian.AppendUint32(nil, uint32(c.pid))
			c.msg('K', binary.BigEndian.AppendUint32(k, uint32(c.key)))
			c.msg('Z', []byte{'I'})
			_, err := c.nc.Write(c.w.Bytes())
			c.w.Reset()
			if err != nil {
				s.mu.Lock()
				delete(s.conns, c.pid)
				s.mu.Unlock()
				return false
			}
			return true
		default:
			return false
		}
	}
}

func (c *conn) msg(t byte, b []byte) {
	c.w.WriteByte(t)
	_ = binary.Write(&c.w, binary.BigEndian, int32(len(b)+4))
	c.w.Write(b)
}

func (c *conn) fail(err error, severity string) {
	e, ok := err.(*Error)
	if !ok {
		e = &Error{Code: "XX000", Message: err.Error()}
	}
	if e.Code == "0A000" && c.db != nil {
		c.s.mu.Lock()
		odd.Add(1)
		c.db.Unsupported = append(c.db.Unsupported, e.Message)
		c.s.mu.Unlock()
	}
	s := "S" + severity + "\x00V" + severity + "\x00C" + e.Code + "\x00M" + e.Message + "\x00"
	if e.Constraint != "" {
		s += "n" + e.Constraint + "\x00"
	}
	c.msg('E', []byte(s+"\x00"))
}

func (c *conn) ready() {
	c.s.mu.Lock()
	st := byte('I')
	if c.tx != nil {
		st = 'T'
		if c.tx.failed {
			st = 'E'
		}
	}
	c.s.mu.Unlock()
	c.msg('Z', []byte{st})
}

func kindOf(st any) string {
	switch v := st.(type) {
	case *selectStmt:
		for _, col := range v.cols {
			if f, ok := col.x.(*exFunc); ok && strings.HasPrefix(f.name, "pg_") {
				return "lock"
			}
		}
		return "select"
	case *insertStmt:
		return "insert"
	case *deleteStmt:
		return "delete"
	case *updateStmt:
		return "update"
	case *beginStmt:
		return "begin"
	case *commitStmt:
		return "commit"
	case *rollbackStmt:
		return "rollback"
	case *listenStmt:
		return "listen"
	}
	return "other"
}

// run runs one statement, in a transaction of its own if there is none.
func (c *conn) run(st any, params []any) (*result, error) {
	c.s.mu.Lock()
	hook := c.db.Hook
	c.s.mu.Unlock()
	var act Act
	if hook != nil {
		act = hook(kindOf(st))
	}
	if act.Delay > 0 {
		time.Sleep(act.Delay)
	}
	if act.Drop == "before" {
		return nil, errLost
	}
	if act.After > 0 {
		defer time.Sleep(act.After)
	}
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if c.dead {
		return nil, errLost
	}
	if c.tx == nil {
		c.tx = &tx{implicit: true}
	}
	c.running, c.cancelled = true, false
	var res *result
	var err error
	c.dropMid = act.Drop == "mid"
	if act.Err != nil {
		err = act.Err
		if _, ok := st.(*commitStmt); ok {
			c.finish(false)
		}
	} else {
		res, err = c.execute(st, params)
	}
	c.running = false
	if c.dead {
		return nil, errLost
	}
	if err != nil && c.tx != nil {
		if c.tx.implicit {
			c.finish(false)
		} else {
			c.tx.failed = true
		}
	}
	if act.Drop == "after" {
		if c.tx != nil && c.tx.implicit {
			c.finish(err == nil)
		}
		return nil, errLost
	}
	return res, err
}

// settle commits what ran outside a transaction block.
func (c *conn) settle() {
	c.s.mu.Lock()
	if c.tx != nil && c.tx.implicit {
		c.finish(true)
	}
	c.s.mu.Unlock()
}

func (c *conn) rowDescription(cols []selCol, typs []typ, formats []int16) {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(cols)))
	for i, col := range cols {
		b = append(b, col.name...)
		b = append(b, 0)
		b = binary.BigEndian.AppendUint32(b, 0)
		b = binary.BigEndian.AppendUint16(b, 0)
		b = binary.BigEndian.AppendUint32(b, uint32(typs[i].oid()))
		size := int16(-1)
		switch typs[i] {
		case tyInt4:
			size = 4
		case tyInt8:
			size = 8
		}
		b = binary.BigEndian.AppendUint16(b, uint16(size))
		b = binary.BigEndian.AppendUint32(b, 0xffffffff)
		b = binary.BigEndian.AppendUint16(b, uint16(format(formats, i)))
	}
	c.msg('T', b)
}

func format(formats []int16, i int) int16 {
	switch {
	case len(formats) == 0:
		return 0
	case len(formats) == 1:
		return formats[0]
	case i < len(formats):
		return formats[i]
	}
	return 0
}

func (c *conn) dataRows(res *result, formats []int16) error {
	for i, r := range res.rows {
		if c.dropMid && i == len(res.rows)/2 {
			_, _ = c.nc.Write(c.w.Bytes())
			return errLost
		}
		b := binary.BigEndian.AppendUint16(nil, uint16(len(r)))
		for i, v := range r {
			if v == nil {
				b = binary.BigEndian.AppendUint32(b, 0xffffffff)
				continue
			}
			var f []byte
			bin := format(formats, i) == 1
			switch x := v.(type) {
			case int64:
				switch {
				case bin && res.typs[i] == tyInt4:
					f = binary.BigEndian.AppendUint32(nil, uint32(x))
				case bin:
					f = binary.BigEndian.AppendUint64(nil, uint64(x))
				default:
					f = strconv.AppendInt(nil, x, 10)
				}
			case string:
				f = []byte(x)
			case bool:
				f = []byte("f")
				if x {
					f = []byte("t")
				}
				if bin {
					return unsupported("binary boolean")
				}
			default:
				return unsupported("value %T", v)
			}
			b = binary.BigEndian.AppendUint32(b, uint32(len(f)))
			b = append(b, f...)
		}
		c.msg('D', b)
	}
	return nil
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func u16(b []byte) (int, []byte) {
	if len(b) < 2 {
		return 0, nil
	}
	return int(binary.BigEndian.Uint16(b)), b[2:]
}

func (c *conn) handle(t byte, b []byte) error {
	if c.skip && t != 'S' && t != 'X' {
		return nil
	}
	switch t {
	case 'X':
		return io.EOF
	case 'Q':
		text, _ := cstr(b)
		err := c.simple(text)
		if err != nil {
			if err == errLost {
				return err
			}
			c.fail(err, "ERROR")
		}
		c.ready()
		return nil
	case 'S':
		c.skip = false
		c.settle()
		c.ready()
		return nil
	case 'H':
		return nil
	}
	err := c.extended(t, b)
	if err == errLost {
		return err
	}
	if err != nil {
		c.fail(err, "ERROR")
		c.s.mu.Lock()
		if c.tx != nil && !c.tx.implicit {
			c.tx.failed = true
		} else {
			c.finish(false)
		}
		c.s.mu.Unlock()
		c.skip = true
	}
	return nil
}

func (c *conn) simple(text string) error {
	sts, err := parse(text)
	if err != nil {
		c.s.mu.Lock()
		if c.tx != nil {
			c.tx.failed = true
		}
		c.s.mu.Unlock()
		return err
	}
	if len(sts) == 0 {
		c.msg('I', nil)
		return nil
	}
	for _, st := range sts {
		res, err := c.run(st, nil)
		if err != nil {
			return err
		}
		if res.has {
			c.rowDescription(res.cols, res.typs, nil)
			if err := c.dataRows(res, nil); err != nil {
				return err
			}
		}
		c.msg('C', []byte(res.tag+"\x00"))
	}
	c.settle()
	return nil
}

func (c *conn) extended(t byte, b []byte) error {
	switch t {
	case 'P':
		name, b := cstr(b)
		text, _ := cstr(b)
		sts, err := parse(text)
		if err != nil {
			return err
		}
		if len(sts) > 1 {
			return &Error{Code: "42601", Message: "cannot insert multiple commands into a prepared statement"}
		}
		p := &prepared{sts: sts}
		if len(sts) == 1 {
			c.s.mu.Lock()
			p.params, err = c.d.infer(sts[0])
			if err == nil {
				_, _, _, err = c.d.describe(sts[0])
			}
			if c.tx != nil && c.tx.failed && err == nil {
				err = &Error{Code: "25P02", Message: "current transaction is aborted, commands ignored until end of transaction block"}
			}
			c.s.mu.Unlock()
			if err != nil {
				return err
			}
		}
		c.stmts[name] = p
		c.msg('1', nil)
	case 'D':
		name, _ := cstr(b[1:])
		var p *prepared
		var formats []int16
		if b[0] == 'S' {
			p = c.stmts[name]
		} else if po := c.portals[name]; po != nil {
			p, formats = po.st, po.formats
		}
		if p == nil {
			return &Error{Code: "26000", Message: "prepared statement does not exist"}
		}
		if b[0] == 'S' {
			o := binary.BigEndian.AppendUint16(nil, uint16(len(p.params)))
			for _, ty := range p.params {
				o = binary.BigEndian.AppendUint32(o, uint32(ty.oid()))
			}
			c.msg('t', o)
		}
		if len(p.sts) == 0 {
			c.msg('n', nil)
			return nil
		}
		c.s.mu.Lock()
		cols, typs, has, err := c.d.describe(p.sts[0])
		c.s.mu.Unlock()
		if err != nil {
			return err
		}
		if !has {
			c.msg('n', nil)
			return nil
		}
		c.rowDescription(cols, typs, formats)
	case 'B':
		pname, b := cstr(b)
		sname, b := cstr(b)
		p := c.stmts[sname]
		if p == nil {
			return &Error{Code: "26000", Message: "prepared statement does not exist"}
		}
		nf, b := u16(b)
		var pf []int16
		for i := 0; i < nf; i++ {
			var f int
			f, b = u16(b)
			pf = append(pf, int16(f))
		}
		n, b := u16(b)
		if n != len(p.params) {
			return &Error{Code: "08P01", Message: fmt.Sprintf("bind message supplies %d parameters, but prepared statement requires %d", n, len(p.params))}
		}
		po := &portal{st: p}
		for i := 0; i < n; i++ {
			if len(b) < 4 {
				return &Error{Code: "08P01", Message: "short bind message"}
			}
			l := int32(binary.BigEndian.Uint32(b))
			b = b[4:]
			if l < 0 {
				po.vals = append(po.vals, nil)
				continue
			}
			if format(pf, i) != 0 {
				return unsupported("binary parameter")
			}
			v, err := convert(string(b[:l]), p.params[i])
			if err != nil {
				return err
			}
			po.vals = append(po.vals, v)
			b = b[l:]
		}
		nf, b = u16(b)
		for i := 0; i < nf; i++ {
			var f int
			f, b = u16(b)
			po.formats = append(po.formats, int16(f))
		}
		c.portals[pname] = po
		c.msg('2', nil)
	case 'E':
		name, _ := cstr(b)
		po := c.portals[name]
		if po == nil {
			return &Error{Code: "34000", Message: "portal does not exist"}
		}
		if len(po.st.sts) == 0 {
			c.msg('I', nil)
			return nil
		}
		res, err := c.run(po.st.sts[0], po.vals)
		if err != nil {
			return err
		}
		if err := c.dataRows(res, po.formats); err != nil {
			return err
		}
		c.msg('C', []byte(res.tag+"\x00"))
	case 'C':
		name, _ := cstr(b[1:])
		if b[0] == 'S' {
			delete(c.stmts, name)
		} else {
			delete(c.portals, name)
		}
		c.msg('3', nil)
	default:
		return &Error{Code: "08P01", Message: fmt.Sprintf("message %q", t)}
	}
	return nil
}

// notifier sends notifications while the connection is idle.
func (c *conn) notifier() {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		for !c.dead && (len(c.pending) == 0 || c.busy || c.tx != nil) {
			s.cond.Wait()
		}
		if c.dead {
			return
		}
		notes := c.pending
		c.pending, c.busy = nil, true
		s.mu.Unlock()
		var w bytes.Buffer
		for _, n := range notes {
			b := binary.BigEndian.AppendUint32(nil, uint32(c.pid))
			b = append(b, n.channel...)
			b = append(b, 0)
			b = append(b, n.payload...)
			b = append(b, 0)
			w.WriteByte('A')
			_ = binary.Write(&w, binary.BigEndian, int32(len(b)+4))
			w.Write(b)
		}
		_, _ = c.nc.Write(w.Bytes())
		s.mu.Lock()
		c.busy = false
		s.cond.Broadcast()
	}
}
