package hx

import (
	"bufio"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// PG is a database server that speaks the PostgreSQL protocol over loopback and
// knows the part of SQL that a store of rows by unique keys needs. Transactions
// that write exclude each other; everybody reads what is committed, and its own.
type PG struct {
	Addr  string
	Port  int
	fault func(kind, sql string) PGAct

	mu       sync.Mutex
	cond     *sync.Cond
	ln       net.Listener
	conns    map[*pgConn]bool
	tables   map[string]*pgTable
	writer   *pgTx
	down     bool
	unsup    []string
	lockWait []string
	stmts    map[string]int
	closed   bool
	maxConns int

	// Login, if set, decides about a login (before the server is used)
	Login func(user, db string, is func(pass string) bool) bool
	MD5   bool // how the password is asked for
}

// PGAct is what happens to a statement besides, or instead of, its execution.
type PGAct struct {
	Code  string // error response
	Parse bool   // the error comes when the statement is prepared
	Drop  string // "before" or "after" executing: the connection is cut
	Rows  int    // with Mid: after so many rows
	Mid   string // "error" or "drop" in the middle of the rows
}

type pgCol struct {
	name    string
	typ     string // text, int, bytea, bool
	notNull bool
	max     int
	def     *pgExpr
}

type pgTable struct {
	name string
	cols []pgCol
	uniq [][]int
	idx  []map[string]*pgRow
	rows []*pgRow
}

type pgRow struct {
	v    []interface{}
	xmin *pgTx
	xmax *pgTx
	gone bool
}

type pgTx struct {
	undo   []func()
	onEnd  []func()
	marks  map[string]int
	failed bool
	auto   bool
}

type pgErr struct{ code, msg, constraint string }

func (e *pgErr) Error() string { return e.code + " " + e.msg }

// NewPG starts a server.
func NewPG() (*PG, error) { return NewPGAt("127.0.0.1:0") }

// NewPGAt starts a server at an address.
func NewPGAt(at string) (*PG, error) {
	ln, err := net.Listen("tcp", at)
	if err != nil {
		return nil, err
	}
	p := &PG{Addr: ln.Addr().String(), Port: ln.Addr().(*net.TCPAddr).Port, ln: ln, conns: map[*pgConn]bool{}, tables: map[string]*pgTable{}, stmts: map[string]int{}, maxConns: 100}
	p.cond = sync.NewCond(&p.mu)
	go p.accept()
	return p, nil
}

func (p *PG) accept() {
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		pc := &pgConn{p: p, c: c, r: bufio.NewReader(c), w: bufio.NewWriter(c), prep: map[string]*pgPrep{}, portal: map[string]*pgPortal{}}
		p.mu.Lock()
		p.conns[pc] = true
		p.mu.Unlock()
		go pc.serve()
	}
}

// Close ends the server.
func (p *PG) Close() {
	p.mu.Lock()
	p.closed = true
	p.ln.Close()
	p.cutLocked()
	p.cond.Broadcast()
	p.mu.Unlock()
}

func (p *PG) cutLocked() {
	for c := range p.conns {
		c.c.Close()
	}
}

// Cut closes all connections, as a restart does.
func (p *PG) Cut() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.cutLocked()
}

// SetDown makes the server refuse connections.
func (p *PG) SetDown(down bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.down = down
	if down {
		p.cutLocked()
	}
}

// SetFault sets who decides about faults.
func (p *PG) SetFault(f func(kind, sql string) PGAct) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.fault = f
}

func (p *PG) act(kind, sql string) PGAct {
	p.mu.Lock()
	f := p.fault
	p.stmts[kind]++
	p.mu.Unlock()
	if f == nil {
		return PGAct{}
	}
	return f(kind, sql)
}

// Statements returns how many of each kind were received.
func (p *PG) Statements() map[string]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string]int{}
	for k, v := range p.stmts {
		m[k] = v
	}
	return m
}

// Unsupported returns the statements the server does not know: the harness is
// then not able to decide.
func (p *PG) Unsupported() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.unsup...)
}

// LockWaits returns statements that waited too long for another transaction.
func (p *PG) LockWaits() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.lockWait...)
}

// Rows returns the committed rows of a table, column name -> value.
func (p *PG) Rows(table string) []map[string]interface{} {
	p.mu.Lock()
	defer p.mu.Unlock()
	t := p.tables[table]
	if t == nil {
		return nil
	}
	var out []map[string]interface{}
	for _, r := range t.rows {
		if r.xmin != nil || r.gone {
			continue
		}
		m := map[string]interface{}{}
		for i, c := range t.cols {
			m[c.name] = r.v[i]
		}
		out = append(out, m)
	}
	return out
}

// Open returns the transactions that write and have not ended.
func (p *PG) Open() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.writer != nil
}

// Truncate empties the tables without any statement.
func (p *PG) Truncate(tables ...string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, n := range tables {
		if t := p.tables[n]; t != nil {
			t.rows = nil
			for i := range t.idx {
				t.idx[i] = map[string]*pgRow{}
			}
		}
	}
}

// SetMaxConns limits the connections.
func (p *PG) SetMaxConns(n int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.maxConns = n
}

type pgPrep struct {
	sql   string
	st    *pgStmt
	types []string
}

type pgPortal struct {
	prep *pgPrep
	args []interface{}
	bin  []bool
}

type pgConn struct {
	p      *PG
	c      net.Conn
	r      *bufio.Reader
	w      *bufio.Writer
	prep   map[string]*pgPrep
	portal map[string]*pgPortal
	tx     *pgTx
	skip   bool
}

func (c *pgConn) serve() {
	defer func() {
		c.c.Close()
		c.p.mu.Lock()
		if c.tx != nil {
			c.p.rollback(c.tx)
			c.tx = nil
		}
		delete(c.p.conns, c)
		c.p.mu.Unlock()
	}()
	var n uint32
	start := map[string]string{}
	for {
		if binary.Read(c.r, binary.BigEndian, &n) != nil || n < 8 || n > 1<<16 {
			return
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return
		}
		v := binary.BigEndian.Uint32(b)
		if v == 80877103 { // SSL?
			c.c.Write([]byte{'N'})
			continue
		}
		if v != 196608 {
			return
		}
		for b = b[4:]; len(b) > 0 && b[0] != 0; {
			var k, val string
			k, b = cstr(b)
			val, b = cstr(b)
			start[k] = val
		}
		break
	}
	if c.p.Login != nil && !c.login(start) {
		c.errResp(&pgErr{code: "28P01", msg: "password authentication failed"})
		c.w.Flush()
		return
	}
	a := c.p.act("connect", "")
	c.p.mu.Lock()
	down, many := c.p.down, len(c.p.conns) > c.p.maxConns
	c.p.mu.Unlock()
	if down || a.Drop != "" {
		return
	}
	if many {
		a.Code = "53300"
	}
	if a.Code != "" {
		c.errResp(&pgErr{code: a.Code, msg: "injected"})
		c.w.Flush()
		return
	}
	c.msg('R', u32b(0))
	for k, v := range map[string]string{"server_version": "14.5", "client_encoding": "UTF8", "server_encoding": "UTF8", "DateStyle": "ISO, MDY", "integer_datetimes": "on", "standard_conforming_strings": "on", "TimeZone": "UTC"} {
		c.msg('S', append(append([]byte(k), 0), append([]byte(v), 0)...))
	}
	c.msg('K', append(u32b(1), u32b(2)...))
	c.ready()
	for {
		t, err := c.r.ReadByte()
		if err != nil || binary.Read(c.r, binary.BigEndian, &n) != nil || n < 4 || n > 1<<28 {
			return
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(c.r, b); err != nil {
			return
		}
		if !c.handle(t, b) {
			return
		}
	}
}

// login asks for the password.
func (c *pgConn) login(start map[string]string) bool {
	salt := "salt"
	if c.p.MD5 {
		c.msg('R', append(u32b(5), salt...))
	} else {
		c.msg('R', u32b(3))
	}
	c.w.Flush()
	var n uint32
	if t, err := c.r.ReadByte(); err != nil || t != 'p' || binary.Read(c.r, binary.BigEndian, &n) != nil || n < 5 || n > 1<<16 {
		return false
	}
	b := make([]byte, n-4)
	if _, err := io.ReadFull(c.r, b); err != nil {
		return false
	}
	got, _ := cstr(b)
	return c.p.Login(start["user"], start["database"], func(pass string) bool {
		if c.p.MD5 {
			in := md5.Sum([]byte(pass + start["user"]))
			out := md5.Sum([]byte(hex.EncodeToString(in[:]) + salt))
			pass = "md5" + hex.EncodeToString(out[:])
		}
		return got == pass
	})
}

func u32b(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func u16b(v int) []byte    { return binary.BigEndian.AppendUint16(nil, uint16(v)) }

func (c *pgConn) msg(t byte, b []byte) {
	c.w.WriteByte(t)
	c.w.Write(u32b(uint32(len(b) + 4)))
	c.w.Write(b)
}

func (c *pgConn) ready() {
	s := byte('I')
	if c.tx != nil {
		s = 'T'
		if c.tx.failed {
			s = 'E'
		}
	}
	c.msg('Z', []byte{s})
	c.w.Flush()
}

func (c *pgConn) errResp(e *pgErr) {
	var b []byte
	add := func(k byte, s string) { b = append(append(append(b, k), s...), 0) }
	sev := "ERROR"
	if strings.HasPrefix(e.code, "57") || e.code == "53300" {
		sev = "FATAL"
	}
	add('S', sev)
	add('V', sev)
	add('C', e.code)
	add('M', e.msg)
	if e.constraint != "" {
		add('n', e.constraint)
	}
	c.msg('E', append(b, 0))
}

func cstr(b []byte) (string, []byte) {
	for i, x := range b {
		if x == 0 {
			return string(b[:i]), b[i+1:]
		}
	}
	return string(b), nil
}

// handle processes one message of the client; false ends the connection.
func (c *pgConn) handle(t byte, b []byte) bool {
	if c.skip && t != 'S' && t != 'X' {
		return true
	}
	fail := func(err error) bool {
		e, ok := err.(*pgErr)
		if !ok {
			return false
		}
		c.errResp(e)
		if c.tx != nil && !c.tx.failed {
			c.p.mu.Lock()
			c.p.abort(c.tx)
			c.p.mu.Unlock()
		}
		c.skip = true
		return !strings.HasPrefix(e.code, "57P") || func() bool { c.w.Flush(); return false }()
	}
	switch t {
	case 'X':
		return false
	case 'S':
		c.skip = false
		c.ready()
	case 'H':
		c.w.Flush()
	case 'Q':
		sql, _ := cstr(b)
		sts, err := pgParse(sql)
		if err != nil {
			c.p.unsupported(sql, err)
			err = &pgErr{code: "42601", msg: err.Error()}
		}
		if err == nil && len(sts) == 0 {
			c.msg('I', nil)
		}
		implicit := len(sts) > 1 && c.tx == nil
		if implicit {
			c.tx = &pgTx{marks: map[string]int{}}
		}
		for _, st := range sts {
			if err = c.exec(st, nil, nil, true); err != nil {
				break
			}
		}
		if err == errPGCut {
			return false
		}
		if err != nil {
			ok := fail(err)
			c.skip = false
			if implicit && c.tx != nil {
				c.p.mu.Lock()
				c.p.rollback(c.tx)
				c.p.mu.Unlock()
				c.tx = nil
			}
			if !ok {
				return false
			}
		} else if implicit && c.tx != nil {
			c.p.mu.Lock()
			c.p.commit(c.tx)
			c.p.mu.Unlock()
			c.tx = nil
		}
		c.ready()
	case 'P':
		name, b := cstr(b)
		sql, _ := cstr(b)
		sts, err := pgParse(sql)
		if err != nil || len(sts) > 1 {
			c.p.unsupported(sql, err)
			return fail(&pgErr{code: "42601", msg: fmt.Sprint(err)})
		}
		pr := &pgPrep{sql: sql}
		if len(sts) == 1 {
			pr.st = sts[0]
			c.p.mu.Lock()
			var e error
			pr.types, e = c.p.infer(pr.st)
			c.p.mu.Unlock()
			if e != nil {
				return fail(e)
			}
			if c.tx != nil && c.tx.failed && pr.st.kind != "rollback" && pr.st.kind != "commit" {
				return fail(&pgErr{code: "25P02", msg: "current transaction is aborted, commands ignored until end of transaction block"})
			}
			if a := c.p.act("parse "+pr.st.kind, sql); a.Code != "" {
				return fail(&pgErr{code: a.Code, msg: "injected"})
			} else if a.Drop != "" {
				return false
			}
		}
		c.prep[name] = pr
		c.msg('1', nil)
	case 'D':
		kind := b[0]
		name, _ := cstr(b[1:])
		pr := c.prep[name]
		if kind == 'P' && c.portal[name] != nil {
			pr = c.portal[name].prep
		}
		if pr == nil {
			return fail(&pgErr{code: "26000", msg: "no such statement"})
		}
		if kind == 'S' {
			pb := u16b(len(pr.types))
			for _, t := range pr.types {
				pb = append(pb, u32b(pgOID(t))...)
			}
			c.msg('t', pb)
		}
		if pr.st == nil {
			c.msg('n', nil)
			break
		}
		c.p.mu.Lock()
		cols, err := c.p.describe(pr.st)
		c.p.mu.Unlock()
		if err != nil {
			return fail(err)
		}
		if cols == nil {
			c.msg('n', nil)
		} else {
			c.rowDesc(cols, nil)
		}
	case 'B':
		pname, b := cstr(b)
		sname, b := cstr(b)
		pr := c.prep[sname]
		if pr == nil {
			return fail(&pgErr{code: "26000", msg: "no such statement"})
		}
		nf := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		var fm []uint16
		for i := 0; i < nf; i++ {
			fm = append(fm, binary.BigEndian.Uint16(b))
			b = b[2:]
		}
		na := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		po := &pgPortal{prep: pr}
		for i := 0; i < na; i++ {
			l := int32(binary.BigEndian.Uint32(b))
			b = b[4:]
			if l < 0 {
				po.args = append(po.args, nil)
				continue
			}
			raw := b[:l]
			b = b[l:]
			isBin := len(fm) == 1 && fm[0] == 1 || i < len(fm) && fm[i] == 1
			ty := "text"
			if i < len(pr.types) {
				ty = pr.types[i]
			}
			v, err := pgDecode(ty, raw, isBin)
			if err != nil {
				return fail(err)
			}
			po.args = append(po.args, v)
		}
		nr := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		for i := 0; i < nr; i++ {
			po.bin = append(po.bin, binary.BigEndian.Uint16(b) == 1)
			b = b[2:]
		}
		c.portal[pname] = po
		c.msg('2', nil)
	case 'E':
		name, _ := cstr(b)
		po := c.portal[name]
		if po == nil {
			return fail(&pgErr{code: "34000", msg: "no such portal"})
		}
		if po.prep.st == nil {
			c.msg('I', nil)
			break
		}
		if err := c.exec(po.prep.st, po.args, po.bin, false); err == errPGCut {
			return false
		} else if err != nil {
			return fail(err)
		}
	case 'C':
		name, _ := cstr(b[1:])
		if b[0] == 'S' {
			delete(c.prep, name)
		} else {
			delete(c.portal, name)
		}
		c.msg('3', nil)
	default:
		return false
	}
	return true
}

var errPGCut = fmt.Errorf("cut")

func (p *PG) unsupported(sql string, err error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.unsup) < 10 {
		p.unsup = append(p.unsup, fmt.Sprintf("%s (%v)", sql, err))
	}
}

func pgOID(t string) uint32 {
	switch t {
	case "int":
		return 20
	case "int4":
		return 23
	case "bytea":
		return 17
	case "bool":
		return 16
	}
	return 25
}

func pgDecode(t string, raw []byte, bin bool) (interface{}, error) {
	s := string(raw)
	switch t {
	case "bytea":
		if bin {
			return append([]byte(nil), raw...), nil
		}
		if strings.HasPrefix(s, "\\x") {
			b, err := hex.DecodeString(s[2:])
			if err != nil {
				return nil, &pgErr{code: "22P02", msg: "invalid bytea"}
			}
			return b, nil
		}
		return append([]byte(nil), raw...), nil
	case "int", "int4":
		if bin {
			var v int64
			for _, x := range raw {
				v = v<<8 | int64(x)
			}
			return v, nil
		}
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, &pgErr{code: "22P02", msg: "invalid input syntax for type integer: " + s}
		}
		return v, nil
	case "bool":
		return s == "t" || s == "true" || s == "1", nil
	}
	return s, nil
}

func pgText(v interface{}) []byte {
	switch x := v.(type) {
	case []byte:
		return []byte("\\x" + hex.EncodeToString(x))
	case int64:
		return []byte(strconv.FormatInt(x, 10))
	case bool:
		if x {
			return []byte("t")
		}
		return []byte("f")
	case string:
		return []byte(x)
	}
	return []byte(fmt.Sprint(v))
}

func pgBin(typ string, v interface{}) []byte {
	switch x := v.(type) {
	case []byte:
		return x
	case int64:
		if typ == "int4" {
			return u32b(uint32(x))
		}
		return binary.BigEndian.AppendUint64(nil, uint64(x))
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	}
	return pgText(v)
}

type pgField struct{ name, typ string }

func (c *pgConn) rowDesc(cols []pgField, bin []bool) {
	b := u16b(len(cols))
	for i, f := range cols {
		b = append(append(b, f.name...), 0)
		b = append(b, u32b(0)...)
		b = append(b, u16b(i+1)...)
		b = append(b, u32b(pgOID(f.typ))...)
		b = append(b, 0xff, 0xff)
		b = append(b, u32b(0xffffffff)...)
		b = append(b, 0, 0)
	}
	c.msg('T', b)
}

func (c *pgConn) exec(st *pgStmt, args []interface{}, bin []bool, simple bool) error {
	a := c.p.act(st.kind, st.sql)
	if a.Drop == "before" {
		return errPGCut
	}
	if c.tx != nil && c.tx.failed && st.kind != "rollback" && st.kind != "commit" {
		return &pgErr{code: "25P02", msg: "current transaction is aborted, commands ignored until end of transaction block"}
	}
	if a.Code != "" && a.Mid == "" {
		if st.kind == "commit" && c.tx != nil {
			c.p.mu.Lock()
			c.p.rollback(c.tx)
			c.p.mu.Unlock()
			c.tx = nil
		}
		return &pgErr{code: a.Code, msg: "injected"}
	}
	c.p.mu.Lock()
	tag, cols, rows, err := c.p.run(c, st, args)
	c.p.mu.Unlock()
	if err != nil {
		return err
	}
	if a.Drop == "after" {
		return errPGCut
	}
	if cols != nil {
		if simple {
			c.rowDesc(cols, nil)
		}
		for i, r := range rows {
			if a.Mid != "" && i == a.Rows%len(rows) {
				return c.mid(a)
			}
			b := u16b(len(r))
			for k, v := range r {
				if v == nil {
					b = append(b, 0xff, 0xff, 0xff, 0xff)
					continue
				}
				t := pgText(v)
				if len(bin) == 1 && bin[0] || k < len(bin) && bin[k] {
					t = pgBin(cols[k].typ, v)
				}
				b = append(b, u32b(uint32(len(t)))...)
				b = append(b, t...)
			}
			c.msg('D', b)
		}
		if a.Mid != "" && len(rows) == 0 {
			return c.mid(a)
		}
	}
	c.msg('C', append([]byte(tag), 0))
	return nil
}

func (c *pgConn) mid(a PGAct) error {
	if a.Mid == "drop" {
		c.w.Flush()
		return errPGCut
	}
	return &pgErr{code: a.Code, msg: "injected in the middle"}
}

// ---- transactions (p.mu held)

func (p *PG) lock(tx *pgTx, sql string) error {
	if p.writer == tx {
		return nil
	}
	dead := time.Now().Add(5 * time.Second)
	t := time.AfterFunc(5*time.Second+50*time.Millisecond, func() { p.mu.Lock(); p.cond.Broadcast(); p.mu.Unlock() })
	defer t.Stop()
	for p.writer != nil && !p.closed {
		if time.Now().After(dead) {
			p.lockWait = append(p.lockWait, sql)
			return &pgErr{code: "55P03", msg: "lock timeout"}
		}
		p.cond.Wait()
	}
	p.writer = tx
	return nil
}

func (p *PG) end(tx *pgTx) {
	tx.undo, tx.marks = nil, map[string]int{}
	if p.writer == tx {
		p.writer = nil
		p.cond.Broadcast()
	}
}

func (p *PG) commit(tx *pgTx) {
	for _, f := range tx.onEnd {
		f()
	}
	tx.onEnd = nil
	p.end(tx)
}

func (p *PG) undoTo(tx *pgTx, n int) {
	for i := len(tx.undo) - 1; i >= n; i-- {
		tx.undo[i]()
	}
	tx.undo = tx.undo[:n]
}

func (p *PG) rollback(tx *pgTx) {
	p.undoTo(tx, 0)
	tx.onEnd = nil
	p.end(tx)
}

// abort is what an error does to a transaction: without a savepoint its effects
// and locks are gone at once.
func (p *PG) abort(tx *pgTx) {
	if len(tx.marks) == 0 {
		p.rollback(tx)
	}
	tx.failed = true
}

func (t *pgTable) key(u int, v []interface{}) (string, bool) {
	var sb strings.Builder
	for _, i := range t.uniq[u] {
		if v[i] == nil {
			return "", false
		}
		fmt.Fprintf(&sb, "%T%v\x00", v[i], v[i])
	}
	return sb.String(), true
}

func (t *pgTable) conflict(v []interface{}, except *pgRow) (*pgRow, int) {
	for u := range t.uniq {
		if k, ok := t.key(u, v); ok {
			if r := t.idx[u][k]; r != nil && r != except {
				return r, u
			}
		}
	}
	return nil, 0
}

func (t *pgTable) index(r *pgRow) {
	for u := range t.uniq {
		if k, ok := t.key(u, r.v); ok {
			t.idx[u][k] = r
		}
	}
}

func (t *pgTable) unindex(r *pgRow) {
	for u := range t.uniq {
		if k, ok := t.key(u, r.v); ok && t.idx[u][k] == r {
			delete(t.idx[u], k)
		}
	}
}

func (p *PG) insertRow(tx *pgTx, t *pgTable, v []interface{}) {
	r := &pgRow{v: v, xmin: tx}
	t.rows = append(t.rows, r)
	t.index(r)
	tx.onEnd = append(tx.onEnd, func() {
		if r.xmin == tx {
			r.xmin = nil
		}
	})
	tx.undo = append(tx.undo, func() {
		t.unindex(r)
		r.gone, r.xmin = true, nil
		t.drop(r)
	})
}

func (t *pgTable) drop(r *pgRow) {
	for i := len(t.rows) - 1; i >= 0; i-- {
		if t.rows[i] == r {
			t.rows = append(t.rows[:i:i], t.rows[i+1:]...)
			return
		}
	}
}

func (p *PG) deleteRow(tx *pgTx, t *pgTable, r *pgRow) {
	r.xmax = tx
	t.unindex(r)
	tx.onEnd = append(tx.onEnd, func() {
		if r.xmax == tx {
			r.gone = true
			t.drop(r)
		}
	})
	tx.undo = append(tx.undo, func() {
		r.xmax = nil
		t.index(r)
	})
}

func (t *pgTable) visible(tx *pgTx) []*pgRow {
	var out []*pgRow
	for _, r := range t.rows {
		if r.gone || r.xmin != nil && r.xmin != tx || r.xmax != nil && r.xmax == tx {
			continue
		}
		out = append(out, r)
	}
	return out
}

// ---- statements

type pgStmt struct {
	kind   string // begin commit rollback savepoint rollbackto release create insert select update delete truncate noop
	sql    string
	name   string
	ifNot  bool
	table  *pgTable
	cols   []string
	values [][]*pgExpr
	sel    *pgSelect
	confl  string // "", nothing, update
	target []string
	set    []pgSet
	where  *pgExpr
	ret    []pgItem
	drops  []string
}

type pgSet struct {
	col string
	e   *pgExpr
}

type pgItem struct {
	star bool
	e    *pgExpr
	as   string
}

type pgSelect struct {
	items  []pgItem
	table  string
	where  *pgExpr
	order  []pgOrder
	limit  *pgExpr
	offset *pgExpr
	dist   bool
}

type pgOrder struct {
	e    *pgExpr
	desc bool
}

type pgExpr struct {
	op   string // lit param col func and or not = <> < > <= >= + - * in insel isnull exists sel any
	v    interface{}
	n    int
	name string
	a    []*pgExpr
	sel  *pgSelect
	not  bool
}

type pgTok struct {
	k string // id qid num str par op end
	s string
}

func pgLex(s string) ([]pgTok, error) {
	var out []pgTok
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case ch == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("comment")
			}
			i += j + 2
		case ch == '\'':
			var sb strings.Builder
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("string")
				}
				if s[i] == '\'' {
					if i+1 < len(s) && s[i+1] == '\'' {
						sb.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				sb.WriteByte(s[i])
				i++
			}
			out = append(out, pgTok{"str", sb.String()})
		case ch == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return nil, fmt.Errorf("identifier")
			}
			out = append(out, pgTok{"qid", s[i+1 : i+1+j]})
			i += j + 2
		case ch == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, pgTok{"par", s[i+1 : j]})
			i = j
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.') {
				j++
			}
			out = append(out, pgTok{"num", s[i:j]})
			i = j
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, pgTok{"id", strings.ToLower(s[i:j])})
			i = j
		default:
			op := string(ch)
			if i+1 < len(s) {
				if two := s[i : i+2]; two == "<=" || two == ">=" || two == "<>" || two == "!=" || two == "::" {
					op = two
				}
			}
			if !strings.Contains("( ) , ; . * = < > <= >= <> != + - :: [ ]", op) {
				return nil, fmt.Errorf("character %q", ch)
			}
			out = append(out, pgTok{"op", op})
			i += len(op)
		}
	}
	return append(out, pgTok{k: "end"}), nil
}

type pgParser struct {
	t []pgTok
	i int
}

type pgSyntax string

func pgParse(sql string) (sts []*pgStmt, err error) {
	t, err := pgLex(sql)
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(pgSyntax); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(e)
		}
	}()
	p := &pgParser{t: t}
	for {
		for p.op(";") {
		}
		if p.t[p.i].k == "end" {
			return sts, nil
		}
		from := p.i
		st := p.stmt()
		_ = from
		st.sql = sql
		sts = append(sts, st)
		if !p.op(";") && p.t[p.i].k != "end" {
			p.fail("expected end of statement")
		}
	}
}

func (p *pgParser) fail(s string) {
	panic(pgSyntax(fmt.Sprintf("%s at token %d %q", s, p.i, p.t[p.i].s)))
}

func (p *pgParser) op(s string) bool {
	if p.t[p.i].k == "op" && p.t[p.i].s == s {
		p.i++
		return true
	}
	return false
}

func (p *pgParser) need(s string) {
	if !p.op(s) {
		p.fail("expected " + s)
	}
}

func (p *pgParser) kw(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) || p.t[p.i+k].k != "id" || p.t[p.i+k].s != w {
			return false
		}
	}
	p.i += len(words)
	return true
}

func (p *pgParser) needKw(words ...string) {
	if !p.kw(words...) {
		p.fail("expected " + strings.Join(words, " "))
	}
}

func (p *pgParser) ident() string {
	if k := p.t[p.i].k; k == "id" || k == "qid" {
		p.i++
		return p.t[p.i-1].s
	}
	p.fail("expected a name")
	return ""
}

// tname is a table name, without its schema unless that matters.
func (p *pgParser) tname() string {
	n := p.ident()
	if p.op(".") {
		m := p.ident()
		if n == "information_schema" || n == "pg_catalog" {
			return n + "." + m
		}
		return m
	}
	return n
}

func (p *pgParser) names() []string {
	var out []string
	p.need("(")
	for {
		out = append(out, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.need(")")
	return out
}

func (p *pgParser) skipStmt() {
	for p.t[p.i].k != "end" && !(p.t[p.i].k == "op" && p.t[p.i].s == ";") {
		p.i++
	}
}

func (p *pgParser) stmt() *pgStmt {
	st := &pgStmt{}
	switch {
	case p.kw("begin"), p.kw("start", "transaction"):
		st.kind = "begin"
		p.skipStmt()
	case p.kw("commit"), p.kw("end"):
		st.kind = "commit"
		p.skipStmt()
	case p.kw("rollback"), p.kw("abort"):
		st.kind = "rollback"
		if p.kw("to") {
			p.kw("savepoint")
			st.kind, st.name = "rollbackto", p.ident()
		}
		p.skipStmt()
	case p.kw("savepoint"):
		st.kind, st.name = "savepoint", p.ident()
	case p.kw("release"):
		p.kw("savepoint")
		st.kind, st.name = "release", p.ident()
	case p.kw("set"), p.kw("lock"), p.kw("analyze"), p.kw("comment"), p.kw("deallocate"), p.kw("discard"), p.kw("vacuum"):
		st.kind = "noop"
		p.skipStmt()
	case p.kw("create", "table"):
		st.kind = "create"
		st.ifNot = p.kw("if", "not", "exists")
		st.table = p.create()
	case p.kw("create", "index"), p.kw("create", "unique", "index"):
		uniq := p.t[p.i-2].s == "unique"
		st.kind = "noop"
		p.kw("concurrently")
		p.kw("if", "not", "exists")
		if !p.kw("on") {
			p.ident()
			p.needKw("on")
		}
		st.name = p.tname()
		if p.kw("using") {
			p.ident()
		}
		st.cols = p.indexCols()
		if uniq {
			st.kind = "uniqueindex"
		}
		p.skipStmt()
	case p.kw("drop", "table"):
		st.kind = "drop"
		p.kw("if", "exists")
		for {
			st.drops = append(st.drops, p.tname())
			if !p.op(",") {
				break
			}
		}
		p.skipStmt()
	case p.kw("truncate"):
		p.kw("table")
		st.kind, st.name = "truncate", p.tname()
		p.skipStmt()
	case p.kw("insert", "into"):
		st.kind = "insert"
		st.name = p.tname()
		if p.kw("as") {
			p.ident()
		}
		if p.t[p.i].k == "op" && p.t[p.i].s == "(" && !(p.t[p.i+1].k == "id" && p.t[p.i+1].s == "select") {
			st.cols = p.names()
		}
		if p.kw("values") {
			for {
				p.need("(")
				var row []*pgExpr
				for {
					row = append(row, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.need(")")
				st.values = append(st.values, row)
				if !p.op(",") {
					break
				}
			}
		} else {
			par := p.op("(")
			p.needKw("select")
			st.sel = p.sel()
			if par {
				p.need(")")
			}
		}
		if p.kw("on", "conflict") {
			if p.kw("on", "constraint") {
				st.target = []string{"#" + p.ident()}
			} else if p.t[p.i].s == "(" {
				st.target = p.names()
			}
			p.needKw("do")
			if p.kw("nothing") {
				st.confl = "nothing"
			} else {
				p.needKw("update")
				p.needKw("set")
				st.confl = "update"
				st.set = p.sets()
				if p.kw("where") {
					st.where = p.expr()
				}
			}
		}
		if p.kw("returning") {
			st.ret = p.items()
		}
	case p.kw("update"):
		st.kind, st.name = "update", p.tname()
		p.needKw("set")
		st.set = p.sets()
		if p.kw("where") {
			st.where = p.expr()
		}
		if p.kw("returning") {
			st.ret = p.items()
		}
	case p.kw("delete", "from"):
		st.kind, st.name = "delete", p.tname()
		if p.kw("where") {
			st.where = p.expr()
		}
		if p.kw("returning") {
			st.ret = p.items()
		}
	case p.kw("select"):
		st.kind = "select"
		st.sel = p.sel()
	default:
		p.fail("statement")
	}
	return st
}

func (p *pgParser) indexCols() []string {
	var out []string
	p.need("(")
	for {
		out = append(out, p.ident())
		_ = p.kw("asc") || p.kw("desc")
		if !p.op(",") {
			break
		}
	}
	p.need(")")
	return out
}

func (p *pgParser) sets() []pgSet {
	var out []pgSet
	for {
		c := p.ident()
		p.need("=")
		out = append(out, pgSet{c, p.expr()})
		if !p.op(",") {
			return out
		}
	}
}

func (p *pgParser) create() *pgTable {
	t := &pgTable{name: p.tname()}
	p.need("(")
	var keys [][]string
	for {
		switch {
		case p.kw("primary", "key"), p.kw("unique"):
			keys = append(keys, p.names())
		case p.kw("constraint"):
			p.ident()
			if !p.kw("unique") && !p.kw("primary", "key") {
				p.fail("constraint")
			}
			keys = append(keys, p.names())
		default:
			c := pgCol{name: p.ident()}
			switch ty := p.ident(); ty {
			case "varchar", "text", "char", "character", "uuid":
				c.typ = "text"
				p.kw("varying")
			case "int", "integer", "int4", "serial":
				c.typ, c.max = "int4", 1<<31-1
			case "bigint", "int8", "bigserial":
				c.typ = "int"
			case "smallint":
				c.typ, c.max = "int4", 1<<15-1
			case "bytea":
				c.typ = "bytea"
			case "boolean", "bool":
				c.typ = "bool"
			case "timestamp", "timestamptz":
				c.typ = "text"
				_ = p.kw("with", "time", "zone") || p.kw("without", "time", "zone")
			default:
				p.fail("type " + ty)
			}
			if p.op("(") {
				n, _ := strconv.Atoi(p.t[p.i].s)
				c.max = n
				p.i++
				p.need(")")
			}
			for {
				switch {
				case p.kw("primary", "key"):
					keys = append([][]string{{c.name}}, keys...)
					c.notNull = true
				case p.kw("unique"):
					keys = append(keys, []string{c.name})
				case p.kw("not", "null"):
					c.notNull = true
				case p.kw("null"):
				case p.kw("default"):
					c.def = p.add()
				default:
					goto done
				}
			}
		done:
			t.cols = append(t.cols, c)
		}
		if !p.op(",") {
			break
		}
	}
	p.need(")")
	for _, k := range keys {
		t.unique(k)
	}
	return t
}

func (t *pgTable) unique(cols []string) {
	var ix []int
	for _, n := range cols {
		for i, c := range t.cols {
			if c.name == n {
				ix = append(ix, i)
			}
		}
	}
	t.uniq = append(t.uniq, ix)
	m := map[string]*pgRow{}
	t.idx = append(t.idx, m)
	for _, r := range t.rows {
		if k, ok := t.key(len(t.uniq)-1, r.v); ok {
			m[k] = r
		}
	}
}

func (p *pgParser) items() []pgItem {
	var out []pgItem
	for {
		if p.op("*") {
			out = append(out, pgItem{star: true})
		} else if (p.t[p.i].k == "id" || p.t[p.i].k == "qid") && p.t[p.i+1].s == "." && p.t[p.i+2].s == "*" {
			p.i += 3
			out = append(out, pgItem{star: true})
		} else {
			it := pgItem{e: p.expr()}
			if p.kw("as") {
				it.as = p.ident()
			} else if k := p.t[p.i]; k.k == "qid" || k.k == "id" && !pgReserved[k.s] {
				it.as = p.ident()
			}
			out = append(out, it)
		}
		if !p.op(",") {
			return out
		}
	}
}

var pgReserved = map[string]bool{"from": true, "where": true, "order": true, "limit": true, "offset": true, "for": true, "on": true, "returning": true, "union": true, "group": true, "having": true, "join": true, "inner": true, "left": true, "and": true, "or": true, "not": true, "in": true, "is": true, "between": true, "asc": true, "desc": true, "as": true, "fetch": true}

func (p *pgParser) sel() *pgSelect {
	s := &pgSelect{}
	s.dist = p.kw("distinct")
	s.items = p.items()
	if p.kw("from") {
		s.table = p.tname()
		if p.kw("as") {
			p.ident()
		} else if k := p.t[p.i]; k.k == "id" && !pgReserved[k.s] {
			p.ident()
		}
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("order", "by") {
		for {
			o := pgOrder{e: p.expr()}
			if p.kw("desc") {
				o.desc = true
			} else {
				p.kw("asc")
			}
			if p.kw("nulls") {
				_ = p.kw("last") || p.kw("first")
			}
			s.order = append(s.order, o)
			if !p.op(",") {
				break
			}
		}
	}
	for {
		if p.kw("limit") {
			if !p.kw("all") {
				s.limit = p.add()
			}
		} else if p.kw("offset") {
			s.offset = p.add()
			_ = p.kw("rows") || p.kw("row")
		} else if p.kw("fetch") {
			_ = p.kw("first") || p.kw("next")
			s.limit = &pgExpr{op: "lit", v: int64(1)}
			if p.t[p.i].k == "num" {
				s.limit = p.add()
			}
			_ = p.kw("rows") || p.kw("row")
			p.needKw("only")
		} else if p.kw("for") {
			p.i++
			p.kw("key")
			p.kw("share")
			p.kw("nowait")
			p.kw("skip", "locked")
		} else {
			return s
		}
	}
}

func (p *pgParser) expr() *pgExpr {
	a := p.and()
	for p.kw("or") {
		a = &pgExpr{op: "or", a: []*pgExpr{a, p.and()}}
	}
	return a
}

func (p *pgParser) and() *pgExpr {
	a := p.not()
	for p.kw("and") {
		a = &pgExpr{op: "and", a: []*pgExpr{a, p.not()}}
	}
	return a
}

func (p *pgParser) not() *pgExpr {
	if p.kw("not") {
		return &pgExpr{op: "not", a: []*pgExpr{p.not()}}
	}
	return p.cmp()
}

func (p *pgParser) cmp() *pgExpr {
	a := p.add()
	for _, o := range []string{"=", "<>", "!=", "<=", ">=", "<", ">"} {
		if p.op(o) {
			if o == "!=" {
				o = "<>"
			}
			if o == "=" && p.kw("any") {
				p.need("(")
				e := &pgExpr{op: "any", a: []*pgExpr{a, p.expr()}}
				p.need(")")
				return e
			}
			return &pgExpr{op: o, a: []*pgExpr{a, p.add()}}
		}
	}
	not := false
	if p.t[p.i].s == "not" && (p.t[p.i+1].s == "in" || p.t[p.i+1].s == "between") {
		p.i++
		not = true
	}
	if p.kw("in") {
		p.need("(")
		if p.kw("select") {
			e := &pgExpr{op: "insel", a: []*pgExpr{a}, sel: p.sel(), not: not}
			p.need(")")
			return e
		}
		e := &pgExpr{op: "in", a: []*pgExpr{a}, not: not}
		for {
			e.a = append(e.a, p.expr())
			if !p.op(",") {
				break
			}
		}
		p.need(")")
		return e
	}
	if p.kw("between") {
		lo := p.add()
		p.needKw("and")
		hi := p.add()
		e := &pgExpr{op: "and", a: []*pgExpr{{op: ">=", a: []*pgExpr{a, lo}}, {op: "<=", a: []*pgExpr{a, hi}}}}
		if not {
			return &pgExpr{op: "not", a: []*pgExpr{e}}
		}
		return e
	}
	if p.kw("is") {
		e := &pgExpr{op: "isnull", a: []*pgExpr{a}, not: p.kw("not")}
		if p.kw("distinct", "from") {
			b := p.add()
			o := "distinct"
			return &pgExpr{op: o, a: []*pgExpr{a, b}, not: e.not}
		}
		p.needKw("null")
		return e
	}
	return a
}

func (p *pgParser) add() *pgExpr {
	a := p.primary()
	for {
		switch {
		case p.op("+"):
			a = &pgExpr{op: "+", a: []*pgExpr{a, p.primary()}}
		case p.op("-"):
			a = &pgExpr{op: "-", a: []*pgExpr{a, p.primary()}}
		default:
			return a
		}
	}
}

func (p *pgParser) primary() *pgExpr {
	e := p.atom()
	for p.op("::") {
		ty := p.ident()
		if p.op("[") {
			p.need("]")
		}
		if p.op("(") {
			p.i++
			p.need(")")
		}
		_ = ty
	}
	return e
}

func (p *pgParser) atom() *pgExpr {
	t := p.t[p.i]
	switch {
	case t.k == "num":
		p.i++
		v, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("number")
		}
		return &pgExpr{op: "lit", v: v}
	case t.k == "str":
		p.i++
		return &pgExpr{op: "lit", v: t.s}
	case t.k == "par":
		p.i++
		n, _ := strconv.Atoi(t.s)
		return &pgExpr{op: "param", n: n - 1}
	case p.op("-"):
		return &pgExpr{op: "-", a: []*pgExpr{{op: "lit", v: int64(0)}, p.atom()}}
	case p.op("("):
		if p.kw("select") {
			e := &pgExpr{op: "sel", sel: p.sel()}
			p.need(")")
			return e
		}
		e := p.expr()
		p.need(")")
		return e
	case p.kw("true"):
		return &pgExpr{op: "lit", v: true}
	case p.kw("false"):
		return &pgExpr{op: "lit", v: false}
	case p.kw("null"):
		return &pgExpr{op: "lit"}
	case p.kw("exists"):
		p.need("(")
		p.needKw("select")
		e := &pgExpr{op: "exists", sel: p.sel()}
		p.need(")")
		return e
	case t.k == "id" || t.k == "qid":
		n := p.ident()
		if t.k == "id" && p.op("(") {
			e := &pgExpr{op: "func", name: n}
			if p.op("*") {
				p.need(")")
				return e
			}
			if p.op(")") {
				return e
			}
			p.kw("distinct")
			for {
				e.a = append(e.a, p.expr())
				if n == "cast" && p.kw("as") {
					p.ident()
					if p.op("(") {
						p.i++
						p.need(")")
					}
					p.need(")")
					return e.a[0]
				}
				if !p.op(",") {
					break
				}
			}
			p.need(")")
			return e
		}
		e := &pgExpr{op: "col", name: n}
		if p.op(".") {
			e.name = p.ident()
			if n == "excluded" {
				e.op = "excl"
			}
		}
		return e
	}
	p.fail("expression")
	return nil
}

// ---- evaluation (p.mu held)

type pgCtx struct {
	p    *PG
	tx   *pgTx
	args []interface{}
	t    *pgTable
	row  []interface{}
	excl []interface{}
	agg  []*pgRow // rows of an aggregate
	out  *pgCtx
	sub  *pgCtx                      // of the last subquery
	corr bool                        // refers to the rows of an outer query
	memo map[*pgExpr][][]interface{} // subqueries that do not depend on the row
}

func undefTable(n string) error {
	return &pgErr{code: "42P01", msg: "relation \"" + n + "\" does not exist"}
}

func (t *pgTable) col(n string) int {
	for i, c := range t.cols {
		if c.name == n {
			return i
		}
	}
	return -1
}

func (x *pgCtx) eval(e *pgExpr) (interface{}, error) {
	switch e.op {
	case "lit":
		return e.v, nil
	case "param":
		if e.n < 0 || e.n >= len(x.args) {
			return nil, &pgErr{code: "42P02", msg: "there is no parameter"}
		}
		return x.args[e.n], nil
	case "col":
		for y := x; y != nil; y = y.out {
			if y.t != nil {
				if i := y.t.col(e.name); i >= 0 {
					if y.row == nil {
						return nil, &pgErr{code: "42803", msg: "column must be aggregated"}
					}
					for z := x; z != y; z = z.out {
						z.corr = true
					}
					return y.row[i], nil
				}
			}
		}
		return nil, &pgErr{code: "42703", msg: "column \"" + e.name + "\" does not exist"}
	case "excl":
		i := x.t.col(e.name)
		if i < 0 || x.excl == nil {
			return nil, &pgErr{code: "42703", msg: "excluded." + e.name}
		}
		return x.excl[i], nil
	case "and", "or":
		a, err := x.eval(e.a[0])
		if err != nil {
			return nil, err
		}
		b, err := x.eval(e.a[1])
		if err != nil {
			return nil, err
		}
		if e.op == "and" {
			if a == false || b == false {
				return false, nil
			}
			if a == nil || b == nil {
				return nil, nil
			}
			return true, nil
		}
		if a == true || b == true {
			return true, nil
		}
		if a == nil || b == nil {
			return nil, nil
		}
		return false, nil
	case "not":
		a, err := x.eval(e.a[0])
		if err != nil || a == nil {
			return nil, err
		}
		return a != true, nil
	case "isnull":
		a, err := x.eval(e.a[0])
		return (a == nil) != e.not, err
	case "=", "<>", "<", ">", "<=", ">=", "distinct":
		a, err := x.eval(e.a[0])
		if err != nil {
			return nil, err
		}
		b, err := x.eval(e.a[1])
		if err != nil {
			return nil, err
		}
		if e.op == "distinct" {
			same := a == nil && b == nil || a != nil && b != nil && pgCmp(a, b) == 0
			return same == e.not, nil
		}
		if a == nil || b == nil {
			return nil, nil
		}
		c := pgCmp(a, b)
		switch e.op {
		case "=":
			return c == 0, nil
		case "<>":
			return c != 0, nil
		case "<":
			return c < 0, nil
		case ">":
			return c > 0, nil
		case "<=":
			return c <= 0, nil
		}
		return c >= 0, nil
	case "+", "-":
		a, err := x.eval(e.a[0])
		if err != nil {
			return nil, err
		}
		b, err := x.eval(e.a[1])
		if err != nil || a == nil || b == nil {
			return nil, err
		}
		i, j := pgInt(a), pgInt(b)
		if e.op == "-" {
			j = -j
		}
		return i + j, nil
	case "in":
		a, err := x.eval(e.a[0])
		if err != nil {
			return nil, err
		}
		for _, o := range e.a[1:] {
			b, err := x.eval(o)
			if err != nil {
				return nil, err
			}
			if a != nil && b != nil && pgCmp(a, b) == 0 {
				return !e.not, nil
			}
		}
		return e.not, nil
	case "any":
		a, err := x.eval(e.a[0])
		if err != nil {
			return nil, err
		}
		l, err := x.eval(e.a[1])
		if err != nil || a == nil || l == nil {
			return nil, err
		}
		for _, s := range strings.Split(strings.Trim(fmt.Sprint(l), "{}"), ",") {
			if pgCmp(a, strings.Trim(s, "\"")) == 0 {
				return true, nil
			}
		}
		return false, nil
	case "insel", "exists", "sel":
		rows, ok := x.memo[e]
		if !ok {
			var err error
			if _, rows, err = x.p.query(x.tx, e.sel, x.args, x); err != nil {
				return nil, err
			}
			if !x.sub.corr {
				if x.memo == nil {
					x.memo = map[*pgExpr][][]interface{}{}
				}
				x.memo[e] = rows
			}
		}
		switch e.op {
		case "exists":
			return len(rows) > 0, nil
		case "sel":
			if len(rows) == 0 {
				return nil, nil
			}
			return rows[0][0], nil
		}
		a, err := x.eval(e.a[0])
		if err != nil || a == nil {
			return nil, err
		}
		for _, r := range rows {
			if r[0] != nil && pgCmp(a, r[0]) == 0 {
				return !e.not, nil
			}
		}
		return e.not, nil
	case "func":
		return x.call(e)
	}
	return nil, &pgErr{code: "42601", msg: "expression " + e.op}
}

func pgAgg(e *pgExpr) bool {
	if e == nil {
		return false
	}
	if e.op == "func" && (e.name == "max" || e.name == "min" || e.name == "count" || e.name == "sum") {
		return true
	}
	for _, a := range e.a {
		if pgAgg(a) {
			return true
		}
	}
	return false
}

func (x *pgCtx) call(e *pgExpr) (interface{}, error) {
	switch e.name {
	case "current_database":
		return "fake", nil
	case "current_schema":
		return "public", nil
	case "pg_advisory_lock", "pg_advisory_xact_lock":
		return "", nil
	case "pg_advisory_unlock", "pg_try_advisory_lock":
		return true, nil
	case "version":
		return "PostgreSQL 14.5", nil
	case "now":
		return "2022-01-01 00:00:00", nil
	case "coalesce", "greatest", "least":
		var best interface{}
		for _, a := range e.a {
			v, err := x.eval(a)
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			if e.name == "coalesce" {
				return v, nil
			}
			if best == nil || e.name == "greatest" && pgCmp(v, best) > 0 || e.name == "least" && pgCmp(v, best) < 0 {
				best = v
			}
		}
		return best, nil
	case "length", "octet_length":
		v, err := x.eval(e.a[0])
		if err != nil || v == nil {
			return nil, err
		}
		if b, ok := v.([]byte); ok {
			return int64(len(b)), nil
		}
		return int64(len(fmt.Sprint(v))), nil
	case "max", "min", "count", "sum":
		var best interface{}
		n := int64(0)
		for _, r := range x.agg {
			y := *x
			y.row = r.v
			if len(e.a) == 0 {
				n++
				continue
			}
			v, err := y.eval(e.a[0])
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			n++
			switch {
			case e.name == "sum":
				s := pgInt(v)
				if best != nil {
					s += pgInt(best)
				}
				best = s
			case best == nil || e.name == "max" && pgCmp(v, best) > 0 || e.name == "min" && pgCmp(v, best) < 0:
				best = v
			}
		}
		if e.name == "count" {
			return n, nil
		}
		return best, nil
	}
	x.p.unsup = append(x.p.unsup, "function "+e.name)
	return nil, &pgErr{code: "42883", msg: "function " + e.name}
}

func pgInt(v interface{}) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case string:
		n, _ := strconv.ParseInt(x, 10, 64)
		return n
	}
	return 0
}

func pgCmp(a, b interface{}) int {
	if i, ok := a.(int64); ok {
		j := pgInt(b)
		switch {
		case i < j:
			return -1
		case i > j:
			return 1
		}
		return 0
	}
	if _, ok := b.(int64); ok {
		return -pgCmp(b, a)
	}
	return strings.Compare(pgStr(a), pgStr(b))
}

func pgStr(v interface{}) string {
	switch x := v.(type) {
	case []byte:
		return string(x)
	case string:
		return x
	}
	return fmt.Sprint(v)
}

func (p *PG) source(tx *pgTx, name string) (*pgTable, []*pgRow, error) {
	if name == "information_schema.tables" || name == "pg_catalog.pg_tables" {
		t := &pgTable{name: name, cols: []pgCol{{name: "table_schema", typ: "text"}, {name: "table_name", typ: "text"}}}
		var rows []*pgRow
		for n := range p.tables {
			rows = append(rows, &pgRow{v: []interface{}{"public", n}})
		}
		return t, rows, nil
	}
	t := p.tables[name]
	if t == nil {
		return nil, nil, undefTable(name)
	}
	return t, t.visible(tx), nil
}

func (p *PG) query(tx *pgTx, s *pgSelect, args []interface{}, outer *pgCtx) ([]pgField, [][]interface{}, error) {
	x := &pgCtx{p: p, tx: tx, args: args, out: outer}
	if outer != nil {
		outer.sub = x
	}
	rows := []*pgRow{{}}
	if s.table != "" {
		t, rs, err := p.source(tx, s.table)
		if err != nil {
			return nil, nil, err
		}
		x.t, rows = t, rs
	}
	if s.where != nil {
		var keep []*pgRow
		for _, r := range rows {
			x.row = r.v
			v, err := x.eval(s.where)
			if err != nil {
				return nil, nil, err
			}
			if v == true {
				keep = append(keep, r)
			}
		}
		rows = keep
	}
	fields, err := p.fields(s.items, x.t)
	if err != nil {
		return nil, nil, err
	}
	agg := false
	for _, it := range s.items {
		agg = agg || pgAgg(it.e)
	}
	var out [][]interface{}
	if agg {
		x.agg, x.row = rows, nil
		var r []interface{}
		for _, it := range s.items {
			v, err := x.eval(it.e)
			if err != nil {
				return nil, nil, err
			}
			r = append(r, v)
		}
		return fields, [][]interface{}{r}, nil
	}
	if len(s.order) > 0 {
		type kr struct {
			k []interface{}
			r *pgRow
		}
		var ks []kr
		for _, r := range rows {
			x.row = r.v
			var k []interface{}
			for _, o := range s.order {
				v, err := x.eval(o.e)
				if err != nil {
					return nil, nil, err
				}
				k = append(k, v)
			}
			ks = append(ks, kr{k, r})
		}
		sort.SliceStable(ks, func(i, j int) bool {
			for n, o := range s.order {
				c := 0
				a, b := ks[i].k[n], ks[j].k[n]
				switch {
				case a == nil && b == nil:
				case a == nil:
					c = 1
				case b == nil:
					c = -1
				default:
					c = pgCmp(a, b)
				}
				if o.desc {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
		rows = nil
		for _, k := range ks {
			rows = append(rows, k.r)
		}
	}
	for _, r := range rows {
		x.row = r.v
		var o []interface{}
		for _, it := range s.items {
			if it.star {
				o = append(o, r.v...)
				continue
			}
			v, err := x.eval(it.e)
			if err != nil {
				return nil, nil, err
			}
			o = append(o, v)
		}
		out = append(out, o)
	}
	if s.dist {
		seen := map[string]bool{}
		var u [][]interface{}
		for _, o := range out {
			if k := fmt.Sprint(o); !seen[k] {
				seen[k] = true
				u = append(u, o)
			}
		}
		out = u
	}
	for k, e := range []*pgExpr{s.offset, s.limit} {
		if e == nil {
			continue
		}
		v, err := x.eval(e)
		if err != nil {
			return nil, nil, err
		}
		n := int(pgInt(v))
		if n > len(out) {
			n = len(out)
		}
		if k == 0 {
			out = out[n:]
		} else {
			out = out[:n]
		}
	}
	return fields, out, nil
}

func (p *PG) fields(items []pgItem, t *pgTable) ([]pgField, error) {
	out := []pgField{}
	for _, it := range items {
		if it.star {
			if t == nil {
				return nil, &pgErr{code: "42601", msg: "SELECT * with no tables"}
			}
			for _, c := range t.cols {
				out = append(out, pgField{c.name, c.typ})
			}
			continue
		}
		f := pgField{it.as, p.typeOf(it.e, t)}
		if f.name == "" {
			switch it.e.op {
			case "col", "func":
				f.name = it.e.name
			case "exists":
				f.name = "exists"
			default:
				f.name = "?column?"
			}
		}
		out = append(out, f)
	}
	return out, nil
}

func (p *PG) typeOf(e *pgExpr, t *pgTable) string {
	switch e.op {
	case "col", "excl":
		if t != nil {
			if i := t.col(e.name); i >= 0 {
				return t.cols[i].typ
			}
		}
	case "lit":
		switch e.v.(type) {
		case int64:
			return "int4"
		case bool:
			return "bool"
		}
	case "func":
		switch e.name {
		case "count", "sum", "length", "octet_length":
			return "int"
		case "pg_advisory_unlock", "pg_try_advisory_lock":
			return "bool"
		case "max", "min", "coalesce", "greatest", "least":
			for _, a := range e.a {
				if ty := p.typeOf(a, t); ty != "text" {
					return ty
				}
			}
		}
	case "+", "-":
		return "int"
	case "sel":
		st := p.tables[e.sel.table]
		if len(e.sel.items) > 0 && e.sel.items[0].e != nil {
			return p.typeOf(e.sel.items[0].e, st)
		}
	case "exists", "and", "or", "not", "=", "<>", "<", ">", "<=", ">=", "in", "insel", "isnull", "distinct", "any":
		return "bool"
	}
	return "text"
}

// infer finds the types of the parameters.
func (p *PG) infer(st *pgStmt) ([]string, error) {
	var types []string
	set := func(n int, t string) {
		for len(types) <= n {
			types = append(types, "")
		}
		if types[n] == "" {
			types[n] = t
		}
	}
	var walk func(e *pgExpr, t *pgTable)
	var walkSel func(s *pgSelect)
	walk = func(e *pgExpr, t *pgTable) {
		if e == nil {
			return
		}
		if e.op == "param" {
			set(e.n, "")
		}
		switch e.op {
		case "=", "<>", "<", ">", "<=", ">=", "in", "distinct", "+", "-":
			for _, a := range e.a {
				for _, b := range e.a {
					if a.op == "param" && b.op != "param" {
						if ty := p.typeOf(b, t); ty != "text" || b.op == "col" {
							set(a.n, ty)
						}
					}
				}
			}
		case "any":
			if e.a[1].op == "param" {
				set(e.a[1].n, "text")
			}
		}
		for _, a := range e.a {
			walk(a, t)
		}
		if e.sel != nil {
			walkSel(e.sel)
		}
	}
	walkSel = func(s *pgSelect) {
		t := p.tables[s.table]
		for _, it := range s.items {
			walk(it.e, t)
		}
		walk(s.where, t)
		for _, l := range []*pgExpr{s.limit, s.offset} {
			if l != nil && l.op == "param" {
				set(l.n, "int")
			}
		}
	}
	t := p.tables[st.name]
	switch st.kind {
	case "insert", "update", "delete":
		if t == nil {
			return nil, undefTable(st.name)
		}
		ix, err := t.targets(st.cols)
		if err != nil {
			return nil, err
		}
		put := func(i int, e *pgExpr) {
			if e != nil && e.op == "param" && i < len(ix) {
				set(e.n, t.cols[ix[i]].typ)
			}
			walk(e, t)
		}
		for _, r := range st.values {
			for i, e := range r {
				put(i, e)
			}
		}
		if st.sel != nil {
			for i, it := range st.sel.items {
				put(i, it.e)
			}
		}
		for _, s := range st.set {
			if i := t.col(s.col); i >= 0 && s.e.op == "param" {
				set(s.e.n, t.cols[i].typ)
			}
			walk(s.e, t)
		}
		walk(st.where, t)
	}
	if st.sel != nil {
		walkSel(st.sel)
	}
	for i := range types {
		if types[i] == "" {
			types[i] = "text"
		}
	}
	return types, nil
}

func (t *pgTable) targets(cols []string) ([]int, error) {
	var ix []int
	if len(cols) == 0 {
		for i := range t.cols {
			ix = append(ix, i)
		}
		return ix, nil
	}
	for _, n := range cols {
		i := t.col(n)
		if i < 0 {
			return nil, &pgErr{code: "42703", msg: "column \"" + n + "\" of relation \"" + t.name + "\" does not exist"}
		}
		ix = append(ix, i)
	}
	return ix, nil
}

func (p *PG) describe(st *pgStmt) ([]pgField, error) {
	switch st.kind {
	case "select":
		var t *pgTable
		if st.sel.table != "" {
			var err error
			if t, _, err = p.source(nil, st.sel.table); err != nil {
				return nil, err
			}
		}
		return p.fields(st.sel.items, t)
	case "insert", "update", "delete":
		if st.ret != nil {
			return p.fields(st.ret, p.tables[st.name])
		}
	}
	return nil, nil
}

func (t *pgTable) check(v []interface{}) error {
	for i, c := range t.cols {
		if v[i] == nil {
			if c.notNull {
				return &pgErr{code: "23502", msg: "null value in column \"" + c.name + "\""}
			}
			continue
		}
		switch c.typ {
		case "text":
			s := pgStr(v[i])
			if c.max > 0 && len(s) > c.max {
				return &pgErr{code: "22001", msg: "value too long"}
			}
			v[i] = s
		case "int4", "int":
			n, ok := v[i].(int64)
			if !ok {
				m, err := strconv.ParseInt(pgStr(v[i]), 10, 64)
				if err != nil {
					return &pgErr{code: "22P02", msg: "invalid integer"}
				}
				n = m
			}
			if c.max > 0 && (n > int64(c.max) || n < -int64(c.max)-1) {
				return &pgErr{code: "22003", msg: "integer out of range"}
			}
			v[i] = n
		case "bytea":
			if s, ok := v[i].(string); ok {
				b, err := pgDecode("bytea", []byte(s), false)
				if err != nil {
					return err
				}
				v[i] = b
			}
		case "bool":
			if s, ok := v[i].(string); ok {
				v[i] = s == "t" || s == "true"
			}
		}
	}
	return nil
}

// run executes a statement.
func (p *PG) run(c *pgConn, st *pgStmt, args []interface{}) (tag string, cols []pgField, rows [][]interface{}, err error) {
	switch st.kind {
	case "begin":
		if c.tx == nil {
			c.tx = &pgTx{marks: map[string]int{}}
		}
		return "BEGIN", nil, nil, nil
	case "commit":
		if c.tx != nil {
			tx := c.tx
			c.tx = nil
			if tx.failed {
				p.rollback(tx)
				return "ROLLBACK", nil, nil, nil
			}
			p.commit(tx)
		}
		return "COMMIT", nil, nil, nil
	case "rollback":
		if c.tx != nil {
			p.rollback(c.tx)
			c.tx = nil
		}
		return "ROLLBACK", nil, nil, nil
	case "savepoint":
		if c.tx == nil {
			return "", nil, nil, &pgErr{code: "25P01", msg: "no transaction"}
		}
		c.tx.marks[st.name] = len(c.tx.undo)
		return "SAVEPOINT", nil, nil, nil
	case "release":
		if c.tx != nil {
			delete(c.tx.marks, st.name)
		}
		return "RELEASE", nil, nil, nil
	case "rollbackto":
		if c.tx == nil {
			return "", nil, nil, &pgErr{code: "25P01", msg: "no transaction"}
		}
		n, ok := c.tx.marks[st.name]
		if !ok {
			return "", nil, nil, &pgErr{code: "3B001", msg: "savepoint does not exist"}
		}
		p.undoTo(c.tx, n)
		c.tx.failed = false
		return "ROLLBACK", nil, nil, nil
	case "noop":
		return "SET", nil, nil, nil
	case "select":
		cols, rows, err = p.query(c.tx, st.sel, args, nil)
		return fmt.Sprintf("SELECT %d", len(rows)), cols, rows, err
	case "create":
		if p.tables[st.table.name] != nil {
			if st.ifNot {
				return "CREATE TABLE", nil, nil, nil
			}
			return "", nil, nil, &pgErr{code: "42P07", msg: "relation already exists"}
		}
		t := *st.table
		p.tables[t.name] = &t
		return "CREATE TABLE", nil, nil, nil
	case "uniqueindex":
		t := p.tables[st.name]
		if t == nil {
			return "", nil, nil, undefTable(st.name)
		}
		t.unique(st.cols)
		return "CREATE INDEX", nil, nil, nil
	case "drop":
		for _, n := range st.drops {
			delete(p.tables, n)
		}
		return "DROP TABLE", nil, nil, nil
	}
	// a statement that writes
	t := p.tables[st.name]
	if t == nil {
		return "", nil, nil, undefTable(st.name)
	}
	tx := c.tx
	auto := tx == nil
	if auto {
		tx = &pgTx{marks: map[string]int{}}
	}
	if err = p.lock(tx, st.sql); err != nil {
		return "", nil, nil, err
	}
	mark := len(tx.undo)
	n, ret, err := p.write(tx, t, st, args)
	if err != nil {
		p.undoTo(tx, mark)
		if auto {
			p.rollback(tx)
		}
		return "", nil, nil, err
	}
	if auto {
		p.commit(tx)
	}
	if st.ret != nil {
		cols, _ = p.fields(st.ret, t)
		x := &pgCtx{p: p, tx: c.tx, args: args, t: t}
		rows = [][]interface{}{}
		for _, r := range ret {
			x.row = r
			var o []interface{}
			for _, it := range st.ret {
				if it.star {
					o = append(o, r...)
					continue
				}
				v, e := x.eval(it.e)
				if e != nil {
					return "", nil, nil, e
				}
				o = append(o, v)
			}
			rows = append(rows, o)
		}
	}
	switch st.kind {
	case "insert":
		tag = fmt.Sprintf("INSERT 0 %d", n)
	case "update":
		tag = fmt.Sprintf("UPDATE %d", n)
	case "delete":
		tag = fmt.Sprintf("DELETE %d", n)
	default:
		tag = "TRUNCATE TABLE"
	}
	return tag, cols, rows, nil
}

func (p *PG) write(tx *pgTx, t *pgTable, st *pgStmt, args []interface{}) (n int, ret [][]interface{}, err error) {
	x := &pgCtx{p: p, tx: tx, args: args, t: t}
	match := func(e *pgExpr) (bool, error) {
		if e == nil {
			return true, nil
		}
		v, err := x.eval(e)
		return v == true, err
	}
	update := func(r *pgRow) error {
		x.row = r.v
		nv := append([]interface{}(nil), r.v...)
		for _, s := range st.set {
			i := t.col(s.col)
			if i < 0 {
				return &pgErr{code: "42703", msg: "column " + s.col}
			}
			v, err := x.eval(s.e)
			if err != nil {
				return err
			}
			nv[i] = v
		}
		if err := t.check(nv); err != nil {
			return err
		}
		if o, u := t.conflict(nv, r); o != nil {
			return t.dup(u)
		}
		p.deleteRow(tx, t, r)
		p.insertRow(tx, t, nv)
		n++
		ret = append(ret, nv)
		return nil
	}
	switch st.kind {
	case "truncate", "delete", "update":
		for _, r := range t.visible(tx) {
			x.row = r.v
			ok, err := match(st.where)
			if err != nil {
				return 0, nil, err
			}
			if !ok {
				continue
			}
			if st.kind == "update" {
				if err := update(r); err != nil {
					return 0, nil, err
				}
				continue
			}
			p.deleteRow(tx, t, r)
			n++
			ret = append(ret, r.v)
		}
		return n, ret, nil
	}
	ix, err := t.targets(st.cols)
	if err != nil {
		return 0, nil, err
	}
	var vals [][]interface{}
	if st.sel != nil {
		if _, vals, err = p.query(tx, st.sel, args, nil); err != nil {
			return 0, nil, err
		}
	}
	for _, r := range st.values {
		var v []interface{}
		for _, e := range r {
			if e.op == "col" && e.name == "default" {
				v = append(v, nil)
				continue
			}
			y := *x
			y.t = nil
			o, err := y.eval(e)
			if err != nil {
				return 0, nil, err
			}
			v = append(v, o)
		}
		vals = append(vals, v)
	}
	for _, v := range vals {
		if len(v) > len(ix) {
			return 0, nil, &pgErr{code: "42601", msg: "INSERT has more expressions than target columns"}
		}
		nv := make([]interface{}, len(t.cols))
		for i, c := range t.cols {
			if c.def != nil {
				nv[i], _ = (&pgCtx{p: p, tx: tx}).eval(c.def)
			}
		}
		for i := range v {
			nv[ix[i]] = v[i]
		}
		if err := t.check(nv); err != nil {
			return 0, nil, err
		}
		o, u := t.conflict(nv, nil)
		if o == nil {
			p.insertRow(tx, t, nv)
			n++
			ret = append(ret, nv)
			continue
		}
		if st.confl == "" || len(st.target) > 0 && !t.isTarget(st.target, u) {
			return 0, nil, t.dup(u)
		}
		if st.confl == "nothing" {
			continue
		}
		x.excl, x.row = nv, o.v
		ok, err := match(st.where)
		if err != nil {
			return 0, nil, err
		}
		if ok {
			if err := update(o); err != nil {
				return 0, nil, err
			}
		}
		x.excl = nil
	}
	return n, ret, nil
}

func (t *pgTable) conname(u int) string {
	if u == 0 {
		return t.name + "_pkey"
	}
	s := t.name
	for _, i := range t.uniq[u] {
		s += "_" + t.cols[i].name
	}
	return s + "_key"
}

func (t *pgTable) dup(u int) error {
	return &pgErr{code: "23505", msg: "duplicate key value violates unique constraint \"" + t.conname(u) + "\"", constraint: t.conname(u)}
}

func (t *pgTable) isTarget(target []string, u int) bool {
	if strings.HasPrefix(target[0], "#") {
		return target[0][1:] == t.conname(u)
	}
	if len(target) != len(t.uniq[u]) {
		return false
	}
	for _, n := range target {
		in := false
		for _, i := range t.uniq[u] {
			in = in || t.cols[i].name == n
		}
		if !in {
			return false
		}
	}
	return true
}
