package zzverifsim

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"regexp"
	"strconv"
)

// A MySQL 8 server speaking the real wire protocol over a simulated connection.

type myConn struct {
	w     *World
	c     *simConn
	seq   byte
	caps  uint32
	db    string
	stmts map[uint32]*myStmt
	next  uint32
	dead  bool
}

type myStmt struct {
	text   string
	nparam int
}

func (m *myConn) readPacket() ([]byte, error) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(m.c, h[:]); err != nil {
			return nil, err
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.c, b); err != nil {
			return nil, err
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out, nil
		}
	}
}

// pkt frames one packet.
func (m *myConn) pkt(b []byte) []byte {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), m.seq}
	m.seq++
	return append(h, b...)
}

func (m *myConn) write(b []byte) { m.c.Write(b) }

func nativeHash(scramble []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	a := sha1.Sum([]byte(pw))
	b := sha1.Sum(a[:])
	h := sha1.New()
	h.Write(scramble)
	h.Write(b[:])
	x := h.Sum(nil)
	for i := range x {
		x[i] ^= a[i]
	}
	return x
}

func sha2Hash(scramble []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	a := sha256.Sum256([]byte(pw))
	b := sha256.Sum256(a[:])
	h := sha256.New()
	h.Write(b[:])
	h.Write(scramble)
	x := h.Sum(nil)
	for i := range x {
		x[i] ^= a[i]
	}
	return x
}

func (m *myConn) okPkt(more bool) []byte {
	st := uint16(2)
	if more {
		st |= 8
	}
	return m.pkt([]byte{0, 0, 0, byte(st), byte(st >> 8), 0, 0})
}

func (m *myConn) eofPkt(more bool) []byte {
	st := uint16(2)
	if more {
		st |= 8
	}
	return m.pkt([]byte{0xfe, 0, 0, byte(st), byte(st >> 8)})
}

func (m *myConn) errPkt(e *dbError) []byte {
	b := []byte{0xff, byte(e.MyNo), byte(e.MyNo >> 8), '#'}
	code := e.Code
	if len(code) != 5 {
		code = "HY000"
	}
	b = append(b, code...)
	return m.pkt(append(b, e.Msg...))
}

func lenencStr(b []byte, s string) []byte { return append(lenencInt(b, uint64(len(s))), s...) }
func lenencInt(b []byte, n uint64) []byte {
	switch {
	case n < 251:
		return append(b, byte(n))
	case n < 1<<16:
		return append(b, 0xfc, byte(n), byte(n>>8))
	case n < 1<<24:
		return append(b, 0xfd, byte(n), byte(n>>8), byte(n>>16))
	}
	b = append(b, 0xfe)
	return binary.LittleEndian.AppendUint64(b, n)
}

func myText(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatInt(bool2int(x), 10)
	}
	return fmt.Sprint(v)
}

func (m *myConn) colDef(name string) []byte {
	var b []byte
	b = lenencStr(b, "def")
	b = lenencStr(b, "")
	b = lenencStr(b, "")
	b = lenencStr(b, "")
	b = lenencStr(b, name)
	b = lenencStr(b, name)
	b = append(b, 0x0c, 45, 0, 0, 4, 0, 0, 253, 0, 0, 0, 0, 0)
	return m.pkt(b)
}

// resultset builds the packets of a result; binary selects the prepared-statement row format.
func (m *myConn) resultset(r *dbResult, binaryRows, errMid, more bool) []byte {
	if r.cols == nil {
		return m.okPkt(more)
	}
	var out []byte
	out = append(out, m.pkt(lenencInt(nil, uint64(len(r.cols))))...)
	for _, c := range r.cols {
		out = append(out, m.colDef(c)...)
	}
	out = append(out, m.eofPkt(false)...)
	for i, row := range r.rows {
		if errMid && i >= (len(r.rows)+1)/2 {
			break
		}
		var b []byte
		if binaryRows {
			nb := make([]byte, (len(row)+9)/8)
			var vals []byte
			for k, v := range row {
				if v == nil {
					nb[(k+2)/8] |= 1 << uint((k+2)%8)
				} else {
					vals = lenencStr(vals, myText(v))
				}
			}
			b = append(b, 0)
			b = append(b, nb...)
			b = append(b, vals...)
		} else {
			for _, v := range row {
				if v == nil {
					b = append(b, 0xfb)
				} else {
					b = lenencStr(b, myText(v))
				}
			}
		}
		out = append(out, m.pkt(b)...)
	}
	if errMid {
		return append(out, m.errPkt(&dbError{Code: "70100", MyNo: 1317, Msg: "injected: Query execution was interrupted"})...)
	}
	return append(out, m.eofPkt(more)...)
}

func (w *World) serveMySQL(c *simConn) {
	m := &myConn{w: w, c: c, stmts: map[uint32]*myStmt{}}
	defer func() {
		if !c.wclosed {
			c.Close()
		}
	}()
	if !m.handshake() {
		return
	}
	for !m.dead && !w.frozen {
		p, err := m.readPacket()
		if err != nil || len(p) == 0 {
			return
		}
		switch p[0] {
		case 1: // QUIT
			return
		case 2: // INIT_DB
			m.db = string(p[1:])
			m.write(m.okPkt(false))
		case 14: // PING
			m.write(m.okPkt(false))
		case 3:
			m.query(string(p[1:]))
		case 22:
			m.prepare(string(p[1:]))
		case 23:
			m.execute(p)
		case 25: // STMT_CLOSE
		default:
			m.write(m.errPkt(&dbError{Code: "08S01", MyNo: 1047, Msg: "Unknown command"}))
		}
	}
}

func (m *myConn) handshake() bool {
	w, spec := m.w, m.w.db.spec
	nth, dec := w.admit("handshake", "")
	if dec.resetBefore {
		m.c.abort()
		return false
	}
	r := NewRng(w.sc.Seed, 0x5c4a, uint64(m.c.id))
	sc := make([]byte, 20)
	for i := range sc {
		sc[i] = byte(33 + r.N(90))
	}
	plugin := "mysql_native_password"
	if spec.Auth == "sha2" {
		plugin = "caching_sha2_password"
	}
	caps := uint32(0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000)
	var b bytes.Buffer
	if dec.err != nil { // e.g. Too many connections
		e := *dec.err
		e.MyNo, e.Code = 1040, "08004"
		b.WriteByte(0xff)
		binary.Write(&b, binary.LittleEndian, uint16(e.MyNo))
		b.WriteString("injected: Too many connections")
		m.write(m.pkt(b.Bytes()))
		m.c.Close()
		return false
	}
	b.WriteByte(10)
	b.WriteString("8.0.31-sim\x00")
	binary.Write(&b, binary.LittleEndian, uint32(m.c.id))
	b.Write(sc[:8])
	b.WriteByte(0)
	binary.Write(&b, binary.LittleEndian, uint16(caps))
	b.WriteByte(45)
	binary.Write(&b, binary.LittleEndian, uint16(2))
	binary.Write(&b, binary.LittleEndian, uint16(caps>>16))
	b.WriteByte(21)
	b.Write(make([]byte, 10))
	b.Write(sc[8:])
	b.WriteByte(0)
	b.WriteString(plugin + "\x00")
	greeting := m.pkt(b.Bytes())
	if dec.cutAt >= 0 {
		if dec.cutAt < len(greeting) {
			greeting = greeting[:dec.cutAt]
		}
		m.write(greeting)
		m.c.abort()
		return false
	}
	m.write(greeting)
	p, err := m.readPacket()
	if err != nil || len(p) < 33 {
		return false
	}
	m.caps = binary.LittleEndian.Uint32(p)
	q := p[32:]
	cut := func() string {
		i := bytes.IndexByte(q, 0)
		if i < 0 {
			s := string(q)
			q = nil
			return s
		}
		s := string(q[:i])
		q = q[i+1:]
		return s
	}
	user := cut()
	var auth []byte
	if len(q) > 0 {
		n := int(q[0])
		if n > len(q)-1 {
			return false
		}
		auth = q[1 : 1+n]
		q = q[1+n:]
	}
	if m.caps&8 != 0 {
		m.db = cut()
	}
	var want []byte
	if plugin == "mysql_native_password" {
		want = nativeHash(sc, spec.Password)
	} else {
		want = sha2Hash(sc, spec.Password)
		if spec.Password == "" && len(auth) == 1 && auth[0] == 0 {
			auth = nil
		}
	}
	ci := &w.conns[m.c.ci]
	ci.User, ci.DB = user, m.db
	ok := user == spec.User && bytes.Equal(auth, want)
	ci.AuthOK = ok
	w.log(Event{Kind: "login", Text: user + "\x00" + m.db, Ok: ok})
	w.done("handshake", nth, ok, user+"@"+m.db)
	if !ok {
		m.write(m.errPkt(&dbError{Code: "28000", MyNo: 1045, Msg: "Access denied for user '" + user + "'@'10.0.0.1' (using password: YES)"}))
		m.c.Close()
		return false
	}
	found := m.db == "" || m.db == spec.DBName
	for _, t := range spec.Tables {
		found = found || t.Schema == m.db
	}
	if !found {
		m.write(m.errPkt(&dbError{Code: "42000", MyNo: 1049, Msg: "Unknown database '" + m.db + "'"}))
		m.c.Close()
		return false
	}
	if plugin == "caching_sha2_password" && spec.Password != "" {
		m.write(m.pkt([]byte{1, 3}))
	}
	m.write(m.okPkt(false))
	return true
}

// deliver sends a reply, subject to the decided fault; it reports whether all of it went out.
func (m *myConn) deliver(out []byte, dec decision) bool {
	switch {
	case dec.resetAfter:
		m.c.abort()
		m.dead = true
		return false
	case dec.cutAt >= 0 && dec.cutAt < len(out):
		m.write(out[:dec.cutAt])
		m.c.abort()
		m.dead = true
		return false
	}
	m.write(out)
	if dec.idleClose || dec.err != nil && dec.err.Fatal {
		m.c.finNow()
		m.dead = true
	}
	return true
}

// one runs a single statement and builds its reply.
func (m *myConn) one(stmt string, params []any, bin, more bool) (ok bool) {
	w := m.w
	cl := w.db.classify(stmt)
	nth, dec := w.admit(cl, stmt)
	if dec.resetBefore {
		w.done(cl, nth, false, "reset")
		m.c.abort()
		m.dead = true
		return false
	}
	if dec.err != nil {
		w.done(cl, nth, false, dec.err.Msg)
		m.deliver(m.errPkt(dec.err), dec)
		return false
	}
	res, e := w.db.run(cl, stmt, params, m.db)
	if w.frozen {
		return false
	}
	if e != nil {
		w.done(cl, nth, false, e.Msg)
		m.deliver(m.errPkt(e), dec)
		return false
	}
	var out []byte
	if dec.noRows && res.cols != nil {
		res.rows = nil
	}
	if dec.errMid && res.cols == nil {
		// a statement without rows fails after having been executed only if its reply is lost
		dec.errMid = false
		dec.resetAfter = true
	}
	out = m.resultset(res, bin, dec.errMid, more)
	full := m.deliver(out, dec)
	if full && !dec.errMid && res.own != nil {
		res.own.confirmed = true
	}
	w.done(cl, nth, full && !dec.errMid && !dec.noRows, "")
	return full && !dec.errMid
}

var execComment = regexp.MustCompile(`(?s)/\*!\d*(.*?)\*/`)

func (m *myConn) query(text string) {
	text = execComment.ReplaceAllString(text, " $1 ")
	sts := splitStatements(text, true)
	if len(sts) == 0 {
		m.write(m.errPkt(&dbError{Code: "42000", MyNo: 1065, Msg: "Query was empty"}))
		return
	}
	if len(sts) == 1 {
		sts[0] = text
	}
	if len(sts) > 1 && m.caps&0x10000 == 0 {
		m.w.log(Event{Kind: "req", Class: "multi-refused", Text: text})
		m.write(m.errPkt(&dbError{Code: "42000", MyNo: 1064, Msg: "You have an error in your SQL syntax"}))
		return
	}
	for i, s := range sts {
		if !m.one(s, nil, false, i+1 < len(sts)) || m.dead {
			return
		}
	}
}

func (m *myConn) prepare(text string) {
	w := m.w
	nth, dec := w.admit("prepare", text)
	if dec.resetBefore || dec.resetAfter {
		m.c.abort()
		m.dead = true
		return
	}
	if dec.err != nil {
		w.done("prepare", nth, false, dec.err.Msg)
		m.deliver(m.errPkt(dec.err), dec)
		return
	}
	if len(splitStatements(text, true)) != 1 {
		m.write(m.errPkt(&dbError{Code: "42000", MyNo: 1064, Msg: "You have an error in your SQL syntax"}))
		return
	}
	ts, err := sqlTokens(text, true)
	if err != nil {
		m.write(m.errPkt(&dbError{Code: "42000", MyNo: 1064, Msg: "You have an error in your SQL syntax"}))
		return
	}
	np := 0
	for _, t := range ts {
		if t.k == "param" {
			np++
		}
	}
	ncol := 0
	if s, _, err := parseSelect(text, true); err == nil {
		ncol = len(s.items)
	}
	m.next++
	m.stmts[m.next] = &myStmt{text, np}
	b := []byte{0}
	b = binary.LittleEndian.AppendUint32(b, m.next)
	b = append(b, byte(ncol), byte(ncol>>8), byte(np), byte(np>>8), 0, 0, 0)
	out := m.pkt(b)
	for i := 0; i < np; i++ {
		out = append(out, m.colDef("?")...)
	}
	if np > 0 {
		out = append(out, m.eofPkt(false)...)
	}
	for i := 0; i < ncol; i++ {
		out = append(out, m.colDef(fmt.Sprint("c", i))...)
	}
	if ncol > 0 {
		out = append(out, m.eofPkt(false)...)
	}
	w.done("prepare", nth, m.deliver(out, dec), "")
}

func (m *myConn) execute(p []byte) {
	if len(p) < 10 {
		return
	}
	st := m.stmts[binary.LittleEndian.Uint32(p[1:])]
	if st == nil {
		m.write(m.errPkt(&dbError{Code: "HY000", MyNo: 1243, Msg: "Unknown prepared statement handler"}))
		return
	}
	var params []any
	q := p[10:]
	if st.nparam > 0 {
		nb := (st.nparam + 7) / 8
		nulls := q[:nb]
		q = q[nb:]
		if q[0] != 1 {
			m.w.note("mysql: rebinding without types")
			return
		}
		types := q[1 : 1+2*st.nparam]
		q = q[1+2*st.nparam:]
		for i := 0; i < st.nparam; i++ {
			if nulls[i/8]&(1<<uint(i%8)) != 0 {
				params = append(params, nil)
				continue
			}
			switch types[2*i] {
			case 8:
				params = append(params, int64(binary.LittleEndian.Uint64(q)))
				q = q[8:]
			default:
				n, used := readLenenc(q)
				q = q[used:]
				params = append(params, string(q[:n]))
				q = q[n:]
			}
		}
	}
	m.one(st.text, params, true, false)
}

func readLenenc(b []byte) (n, used int) {
	switch b[0] {
	case 0xfc:
		return int(b[1]) | int(b[2])<<8, 3
	case 0xfd:
		return int(b[1]) | int(b[2])<<8 | int(b[3])<<16, 4
	case 0xfe:
		return int(binary.LittleEndian.Uint64(b[1:])), 9
	}
	return int(b[0]), 1
}
