package zzverifsim

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// A PostgreSQL server speaking protocol 3.0 over a simulated connection.

type pgConn struct {
	w      *World
	c      *simConn
	path   string
	stmts  map[string]string
	portal map[string]*pgPortal
	out    []byte
	skip   bool // after an error in the extended protocol, until Sync
	dead   bool
}

type pgPortal struct {
	text   string
	params []any
}

func (p *pgConn) readMsg() (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(p.c, h[:]); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	b := make([]byte, n)
	_, err := io.ReadFull(p.c, b)
	return h[0], b, err
}

func pgMsg(t byte, b []byte) []byte {
	out := []byte{t}
	out = binary.BigEndian.AppendUint32(out, uint32(len(b)+4))
	return append(out, b...)
}

func (p *pgConn) ready() []byte { return pgMsg('Z', []byte{'I'}) }

func pgErr(e *dbError) []byte {
	var b []byte
	sev := "ERROR"
	if e.Fatal {
		sev = "FATAL"
	}
	for _, f := range []struct {
		k byte
		v string
	}{{'S', sev}, {'V', sev}, {'C', e.Code}, {'M', e.Msg}} {
		b = append(b, f.k)
		b = append(b, f.v...)
		b = append(b, 0)
	}
	return pgMsg('E', append(b, 0))
}

func pgText(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "t"
		}
		return "f"
	case []string:
		var y []any
		for _, e := range x {
			y = append(y, e)
		}
		return pgText(y)
	case []any:
		var s []string
		for _, e := range x {
			if e == nil {
				s = append(s, "NULL")
				continue
			}
			t := pgText(e)
			if t == "" || strings.ContainsAny(t, `{}",\ `+"\t\n") || strings.EqualFold(t, "null") {
				t = `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(t) + `"`
			}
			s = append(s, t)
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprint(v)
}

func pgOid(t string) uint32 {
	switch t {
	case "bool":
		return 16
	case "text[]":
		return 1009
	}
	return 25
}

func pgRowDesc(r *dbResult) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(r.cols)))
	for i, c := range r.cols {
		b = append(b, c...)
		b = append(b, 0)
		b = append(b, 0, 0, 0, 0, 0, 0)
		t := "text"
		if i < len(r.typs) {
			t = r.typs[i]
		}
		b = binary.BigEndian.AppendUint32(b, pgOid(t))
		b = append(b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
	}
	return pgMsg('T', b)
}

func pgRow(row []any) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
	for _, v := range row {
		if v == nil {
			b = append(b, 0xff, 0xff, 0xff, 0xff)
			continue
		}
		s := pgText(v)
		b = binary.BigEndian.AppendUint32(b, uint32(len(s)))
		b = append(b, s...)
	}
	return pgMsg('D', b)
}

func (w *World) servePG(c *simConn) {
	p := &pgConn{w: w, c: c, stmts: map[string]string{}, portal: map[string]*pgPortal{}}
	defer func() {
		if !c.wclosed {
			c.Close()
		}
	}()
	if !p.startup() {
		return
	}
	for !p.dead && !w.frozen {
		t, b, err := p.readMsg()
		if err != nil {
			return
		}
		if p.skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			p.simple(strings.TrimSuffix(string(b), "\x00"))
		case 'P':
			name, q := cstr(b)
			text, q := cstr(q)
			_ = q
			nth, dec := w.admit("prepare", text)
			if dec.resetBefore || dec.resetAfter {
				p.c.abort()
				return
			}
			if dec.err == nil && len(splitStatements(text, false)) > 1 {
				dec.err = &dbError{Code: "42601", Msg: "cannot insert multiple commands into a prepared statement"}
			}
			w.done("prepare", nth, dec.err == nil, "")
			if dec.err != nil {
				p.fail(dec)
				continue
			}
			p.stmts[name] = text
			p.out = append(p.out, pgMsg('1', nil)...)
		case 'D':
			kind := b[0]
			name, _ := cstr(b[1:])
			text := p.stmts[name]
			if kind == 'P' {
				text = p.portal[name].text
			}
			sel, np, err := parseSelect(text, false)
			if kind == 'S' {
				ts, _ := sqlTokens(text, false)
				for _, t := range ts {
					if t.k == "param" {
						if k, _ := strconv.Atoi(t.s); k > np {
							np = k
						}
					}
				}
				d := binary.BigEndian.AppendUint16(nil, uint16(np))
				for i := 0; i < np; i++ {
					d = binary.BigEndian.AppendUint32(d, 25)
				}
				p.out = append(p.out, pgMsg('t', d)...)
			}
			if err != nil {
				p.out = append(p.out, pgMsg('n', nil)...)
				continue
			}
			r := &dbResult{}
			for i, it := range sel.items {
				n := it.as
				if n == "" {
					n = fmt.Sprint("c", i)
				}
				r.cols = append(r.cols, n)
				r.typs = append(r.typs, resultType(it.e))
			}
			p.out = append(p.out, pgRowDesc(r)...)
		case 'B':
			portal, q := cstr(b)
			name, q := cstr(q)
			nf := int(binary.BigEndian.Uint16(q))
			q = q[2+2*nf:]
			np := int(binary.BigEndian.Uint16(q))
			q = q[2:]
			var params []any
			for i := 0; i < np; i++ {
				n := int32(binary.BigEndian.Uint32(q))
				q = q[4:]
				if n < 0 {
					params = append(params, nil)
					continue
				}
				params = append(params, string(q[:n]))
				q = q[n:]
			}
			p.portal[portal] = &pgPortal{p.stmts[name], params}
			p.out = append(p.out, pgMsg('2', nil)...)
		case 'E':
			name, _ := cstr(b)
			po := p.portal[name]
			if po == nil {
				w.note("pg: execute of unknown portal")
				return
			}
			p.one(po.text, po.params, false)
			if p.dead {
				return
			}
		case 'C':
			p.out = append(p.out, pgMsg('3', nil)...)
		case 'S':
			p.skip = false
			p.out = append(p.out, p.ready()...)
			p.flush(decision{cutAt: -1})
		case 'H':
			p.flush(decision{cutAt: -1})
		case 'p':
		default:
			w.note(fmt.Sprintf("pg: unexpected message %q", t))
			return
		}
	}
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func (p *pgConn) fail(dec decision) {
	p.out = append(p.out, pgErr(dec.err)...)
	p.skip = true
	if dec.err.Fatal {
		p.flush(decision{cutAt: -1})
		p.c.finNow()
		p.dead = true
	}
}

// flush sends what is buffered; it reports whether everything went out.
func (p *pgConn) flush(dec decision) bool {
	out := p.out
	p.out = nil
	switch {
	case dec.resetAfter:
		p.c.abort()
		p.dead = true
		return false
	case dec.cutAt >= 0 && dec.cutAt < len(out):
		p.c.Write(out[:dec.cutAt])
		p.c.abort()
		p.dead = true
		return false
	}
	p.c.Write(out)
	if dec.idleClose {
		p.c.finNow()
		p.dead = true
	}
	return true
}

// one runs a statement and appends its reply (without ReadyForQuery in the extended protocol).
func (p *pgConn) one(stmt string, params []any, simple bool) bool {
	w := p.w
	cl := w.db.classify(stmt)
	nth, dec := w.admit(cl, stmt)
	if dec.resetBefore {
		w.done(cl, nth, false, "reset")
		p.c.abort()
		p.dead = true
		return false
	}
	if dec.err != nil {
		w.done(cl, nth, false, dec.err.Msg)
		p.fail(dec)
		return false
	}
	res, e := w.db.run(cl, stmt, params, p.path)
	if w.frozen {
		return false
	}
	if e != nil {
		w.done(cl, nth, false, e.Msg)
		dec.err = e
		p.fail(dec)
		return false
	}
	if dec.errMid && res.cols == nil {
		dec.errMid = false
		dec.resetAfter = true
	}
	if res.cols != nil {
		if simple {
			p.out = append(p.out, pgRowDesc(res)...)
		}
		for i, row := range res.rows {
			if dec.errMid && i >= (len(res.rows)+1)/2 {
				break
			}
			p.out = append(p.out, pgRow(row)...)
		}
	}
	if dec.errMid {
		w.done(cl, nth, false, "error after some rows")
		dec.err = &dbError{Code: "57014", Msg: "injected: canceling statement due to user request"}
		p.fail(dec)
		return false
	}
	p.out = append(p.out, pgMsg('C', append([]byte(res.tag), 0))...)
	full := true
	if dec.resetAfter || dec.cutAt >= 0 || dec.idleClose {
		if simple || dec.idleClose {
			p.out = append(p.out, p.ready()...)
		}
		full = p.flush(dec)
		if !p.dead {
			p.out = nil
		}
	}
	if full && res.own != nil {
		res.own.confirmed = true
	}
	w.done(cl, nth, full, "")
	return full
}

func (p *pgConn) simple(text string) {
	sts := splitStatements(text, false)
	if len(sts) == 1 {
		sts[0] = text
	}
	if len(sts) == 0 {
		p.out = append(p.out, pgMsg('I', nil)...)
	}
	sentReady := false
	for i, s := range sts {
		// a fault that cuts or closes applies to the whole exchange of the last statement
		before := len(p.out)
		_ = before
		if !p.one(s, nil, true) {
			break
		}
		if p.dead {
			return
		}
		sentReady = p.out == nil && i == len(sts)-1
	}
	if p.dead {
		return
	}
	p.skip = false
	if sentReady {
		return
	}
	p.out = append(p.out, p.ready()...)
	p.flush(decision{cutAt: -1})
}

func (p *pgConn) startup() bool {
	w, spec := p.w, p.w.db.spec
	nth, dec := w.admit("handshake", "")
	if dec.resetBefore {
		p.c.abort()
		return false
	}
	var h [4]byte
	if _, err := io.ReadFull(p.c, h[:]); err != nil {
		return false
	}
	n := int(binary.BigEndian.Uint32(h[:])) - 4
	if n < 4 || n > 10000 {
		return false
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(p.c, b); err != nil {
		return false
	}
	if v := binary.BigEndian.Uint32(b); v != 196608 {
		w.note(fmt.Sprintf("pg: startup code %d", v))
		return false
	}
	kv := map[string]string{}
	q := b[4:]
	for len(q) > 1 {
		var k, v string
		k, q = cstr(q)
		v, q = cstr(q)
		kv[k] = v
	}
	p.path = "public"
	if s, ok := kv["search_path"]; ok && s != "" {
		p.path = s
	}
	ci := &w.conns[p.c.ci]
	ci.User, ci.DB = kv["user"], kv["database"]
	deny := func(code, msg string) bool {
		w.done("handshake", nth, false, msg)
		p.c.Write(pgErr(&dbError{Code: code, Msg: msg, Fatal: true}))
		p.c.Close()
		return false
	}
	if dec.err != nil {
		return deny("53300", "injected: sorry, too many clients already")
	}
	ok := kv["user"] == spec.User
	gone := false
	read := func() string {
		t, b, err := p.readMsg()
		gone = err != nil
		if err != nil || t != 'p' {
			return "\x00bad"
		}
		s, _ := cstr(b)
		return s
	}
	switch spec.Auth {
	case "clear":
		p.c.Write(pgMsg('R', []byte{0, 0, 0, 3}))
		ok = read() == spec.Password && ok
	case "md5":
		r := NewRng(w.sc.Seed, 0x3d5, uint64(p.c.id))
		salt := binary.BigEndian.AppendUint32(nil, uint32(r.U64()))
		p.c.Write(pgMsg('R', append([]byte{0, 0, 0, 5}, salt...)))
		in := md5.Sum([]byte(spec.Password + kv["user"]))
		outer := md5.Sum(append([]byte(hex.EncodeToString(in[:])), salt...))
		ok = read() == "md5"+hex.EncodeToString(outer[:]) && ok
	}
	ci.AuthOK = ok
	if !gone {
		w.log(Event{Kind: "login", Text: kv["user"] + "\x00" + kv["database"], Ok: ok})
	}
	if !ok {
		return deny("28P01", "password authentication failed for user \""+kv["user"]+"\"")
	}
	if kv["database"] != spec.DBName {
		return deny("3D000", "database \""+kv["database"]+"\" does not exist")
	}
	w.done("handshake", nth, true, kv["user"]+"@"+kv["database"])
	var out []byte
	out = append(out, pgMsg('R', []byte{0, 0, 0, 0})...)
	for _, s := range [][2]string{{"server_version", "14.6"}, {"client_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}} {
		out = append(out, pgMsg('S', []byte(s[0]+"\x00"+s[1]+"\x00"))...)
	}
	out = append(out, pgMsg('K', []byte{0, 0, 0, 9, 0, 0, 0, 9})...)
	out = append(out, p.ready()...)
	if dec.cutAt >= 0 || dec.resetAfter {
		p.out = out
		p.flush(dec)
		return false
	}
	p.c.Write(out)
	return true
}
