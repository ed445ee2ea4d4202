package zzverifsim

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// A small SQL engine: enough to answer catalogue queries (joins, WHERE, ORDER BY, sub-selects
// in ARRAY(), the functions the catalogues need) from relations of the simulated database.

type tok struct {
	k string // id qid str num op param eof
	s string
}

func sqlTokens(src string, mysql bool) ([]tok, error) {
	var out []tok
	i := 0
	n := len(src)
	for i < n {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f':
			i++
		case c == '-' && i+1 < n && src[i+1] == '-', c == '#' && mysql:
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && src[i+1] == '*':
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += j + 4
		case c == '\'' || (c == '"' && mysql) || c == '"' || c == '`':
			kind := "qid"
			if c == '\'' || (c == '"' && mysql) {
				kind = "str"
			}
			var b strings.Builder
			j := i + 1
			closed := false
			for j < n {
				if src[j] == c {
					if j+1 < n && src[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					closed = true
					j++
					break
				}
				if src[j] == '\\' && mysql && kind == "str" && j+1 < n {
					b.WriteByte(src[j+1])
					j += 2
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated quoted text")
			}
			out = append(out, tok{kind, b.String()})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < n && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			out = append(out, tok{"num", src[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < n && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] >= 0x80) {
				j++
			}
			out = append(out, tok{"id", src[i:j]})
			i = j
		case c == '?' && mysql:
			out = append(out, tok{"param", ""})
			i++
		case c == '$' && !mysql && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9':
			j := i + 1
			for j < n && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"param", src[i+1 : j]})
			i = j
		default:
			for _, op := range []string{"<=", ">=", "<>", "!=", "::", "||"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{"op", op})
					i += 2
					goto next
				}
			}
			out = append(out, tok{"op", string(c)})
			i++
		next:
		}
	}
	return append(out, tok{"eof", ""}), nil
}

// splitStatements splits at top-level semicolons, dropping empty statements.
func splitStatements(src string, mysql bool) []string {
	var out []string
	start, i, n := 0, 0, len(src)
	flush := func(end int) {
		s := src[start:end]
		if t, err := sqlTokens(s, mysql); err != nil || len(t) > 1 {
			out = append(out, s)
		}
	}
	for i < n {
		c := src[i]
		switch {
		case c == '-' && i+1 < n && src[i+1] == '-' || c == '#' && mysql:
			for i < n && src[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < n && src[i+1] == '*':
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				i = n
			} else {
				i += j + 4
			}
		case c == '\'' || c == '"' || c == '`':
			i++
			for i < n && src[i] != c {
				if src[i] == '\\' && mysql && c != '`' {
					i++
				}
				i++
			}
			i++
		case c == ';':
			flush(i)
			i++
			start = i
		default:
			i++
		}
	}
	if start < n {
		flush(n)
	}
	return out
}

type rel struct {
	cols []string
	rows [][]any
}

type sqlSource interface {
	relation(schema, name string) *rel
	call(fn string, args []any) (any, bool)
}

type sqlParser struct {
	t     []tok
	p     int
	nparm int
	pg    bool
}

type sexpr struct {
	k    string // col lit param bin not in isnull func any arr cast exists
	s    string // column / operator / function
	q    string // qualifier
	v    any
	n    int
	neg  bool
	args []*sexpr
	sub  *sselect
}

type sfrom struct {
	schema, name, alias string
	fn                  *sexpr
	sub                 *sselect
	left                bool
	on                  *sexpr
}

type sitem struct {
	e  *sexpr
	as string
}

type sorder struct {
	e    *sexpr
	desc bool
}

type sselect struct {
	distinct bool
	items    []sitem
	from     []sfrom
	where    *sexpr
	order    []sorder
}

type sqlErr struct{ msg string }

func (e sqlErr) Error() string { return e.msg }

func (p *sqlParser) fail(f string, a ...any) { panic(sqlErr{fmt.Sprintf(f, a...)}) }
func (p *sqlParser) peek() tok               { return p.t[p.p] }
func (p *sqlParser) next() tok               { t := p.t[p.p]; p.p++; return t }
func (p *sqlParser) isKw(k string) bool {
	t := p.peek()
	return t.k == "id" && strings.EqualFold(t.s, k)
}
func (p *sqlParser) kw(k string) bool {
	if p.isKw(k) {
		p.p++
		return true
	}
	return false
}
func (p *sqlParser) op(o string) bool {
	t := p.peek()
	if t.k == "op" && t.s == o {
		p.p++
		return true
	}
	return false
}
func (p *sqlParser) wantKw(k string) {
	if !p.kw(k) {
		p.fail("syntax error at or near %q, expected %s", p.peek().s, k)
	}
}
func (p *sqlParser) wantOp(o string) {
	if !p.op(o) {
		p.fail("syntax error at or near %q, expected %s", p.peek().s, o)
	}
}
func (p *sqlParser) ident() string {
	t := p.next()
	if t.k == "qid" {
		return t.s
	}
	if t.k == "id" {
		if p.pg {
			return strings.ToLower(t.s)
		}
		return t.s
	}
	p.fail("syntax error at or near %q", t.s)
	return ""
}

var sqlReserved = map[string]bool{"from": true, "where": true, "order": true, "group": true, "inner": true, "left": true, "right": true, "join": true, "on": true, "as": true, "and": true, "or": true, "limit": true, "asc": true, "desc": true, "in": true, "is": true, "not": true, "cross": true, "having": true, "union": true, "outer": true}

func (p *sqlParser) aliasOpt() string {
	if p.kw("as") {
		return p.ident()
	}
	t := p.peek()
	if t.k == "qid" || t.k == "id" && !sqlReserved[strings.ToLower(t.s)] {
		return p.ident()
	}
	return ""
}

func (p *sqlParser) selectStmt() *sselect {
	p.wantKw("select")
	s := &sselect{}
	if p.kw("distinct") {
		s.distinct = true
	}
	for {
		e := p.expr()
		s.items = append(s.items, sitem{e, p.aliasOpt()})
		if !p.op(",") {
			break
		}
	}
	if p.kw("from") {
		s.from = append(s.from, p.fromItem())
		for {
			if p.op(",") {
				s.from = append(s.from, p.fromItem())
				continue
			}
			left := false
			switch {
			case p.kw("inner"):
				p.wantKw("join")
			case p.kw("cross"):
				p.wantKw("join")
			case p.kw("left"):
				p.kw("outer")
				p.wantKw("join")
				left = true
			case p.kw("join"):
			default:
				goto done
			}
			f := p.fromItem()
			f.left = left
			if p.kw("on") {
				f.on = p.expr()
			}
			s.from = append(s.from, f)
		}
	}
done:
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("order") {
		p.wantKw("by")
		for {
			e := p.expr()
			d := false
			if p.kw("desc") {
				d = true
			} else {
				p.kw("asc")
			}
			s.order = append(s.order, sorder{e, d})
			if !p.op(",") {
				break
			}
		}
	}
	return s
}

func (p *sqlParser) fromItem() sfrom {
	var f sfrom
	p.kw("lateral")
	if p.op("(") {
		f.sub = p.selectStmt()
		p.wantOp(")")
		f.alias = p.aliasOpt()
		return f
	}
	f.name = p.ident()
	if p.op(".") {
		f.schema = f.name
		f.name = p.ident()
	}
	if p.peek().k == "op" && p.peek().s == "(" {
		p.p++
		e := &sexpr{k: "func", s: strings.ToLower(f.name)}
		if !p.op(")") {
			for {
				e.args = append(e.args, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
		}
		f.fn = e
	}
	f.alias = p.aliasOpt()
	if f.alias == "" {
		f.alias = f.name
	}
	return f
}

func (p *sqlParser) expr() *sexpr { return p.orExpr() }
func (p *sqlParser) orExpr() *sexpr {
	l := p.andExpr()
	for p.kw("or") {
		l = &sexpr{k: "bin", s: "or", args: []*sexpr{l, p.andExpr()}}
	}
	return l
}
func (p *sqlParser) andExpr() *sexpr {
	l := p.notExpr()
	for p.kw("and") {
		l = &sexpr{k: "bin", s: "and", args: []*sexpr{l, p.notExpr()}}
	}
	return l
}
func (p *sqlParser) notExpr() *sexpr {
	if p.kw("not") {
		return &sexpr{k: "not", args: []*sexpr{p.notExpr()}}
	}
	return p.cmpExpr()
}
func (p *sqlParser) cmpExpr() *sexpr {
	l := p.addExpr()
	for {
		t := p.peek()
		if t.k == "op" && strings.Contains(" = <> != < > <= >= ", " "+t.s+" ") {
			p.p++
			if p.kw("any") || p.kw("some") {
				p.wantOp("(")
				e := p.expr()
				p.wantOp(")")
				l = &sexpr{k: "any", s: t.s, args: []*sexpr{l, e}}
				continue
			}
			l = &sexpr{k: "bin", s: t.s, args: []*sexpr{l, p.addExpr()}}
			continue
		}
		if p.kw("is") {
			neg := p.kw("not")
			switch {
			case p.kw("null"):
				l = &sexpr{k: "isnull", neg: neg, args: []*sexpr{l}}
			case p.kw("true"):
				l = &sexpr{k: "istrue", neg: neg, args: []*sexpr{l}}
			default:
				p.fail("unsupported IS")
			}
			continue
		}
		neg := false
		save := p.p
		if p.kw("not") {
			neg = true
		}
		if p.kw("in") {
			p.wantOp("(")
			e := &sexpr{k: "in", neg: neg, args: []*sexpr{l}}
			if p.op(")") {
				p.fail("syntax error near \")\": empty IN list")
			}
			for {
				e.args = append(e.args, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
			l = e
			continue
		}
		if p.kw("between") {
			a := p.addExpr()
			p.wantKw("and")
			b := p.addExpr()
			l = &sexpr{k: "bin", s: "and", args: []*sexpr{{k: "bin", s: ">=", args: []*sexpr{l, a}}, {k: "bin", s: "<=", args: []*sexpr{l, b}}}}
			if neg {
				l = &sexpr{k: "not", args: []*sexpr{l}}
			}
			continue
		}
		p.p = save
		return l
	}
}
func (p *sqlParser) addExpr() *sexpr {
	l := p.primary()
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "+" || t.s == "-" || t.s == "||") {
			p.p++
			l = &sexpr{k: "bin", s: t.s, args: []*sexpr{l, p.primary()}}
			continue
		}
		if t.k == "op" && t.s == "::" {
			p.p++
			l = &sexpr{k: "cast", s: p.ident(), args: []*sexpr{l}}
			if p.op("[") {
				p.wantOp("]")
			}
			continue
		}
		return l
	}
}
func (p *sqlParser) primary() *sexpr {
	t := p.next()
	switch t.k {
	case "str":
		return &sexpr{k: "lit", v: t.s}
	case "num":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			p.fail("bad number %q", t.s)
		}
		return &sexpr{k: "lit", v: n}
	case "param":
		if t.s != "" {
			n, _ := strconv.Atoi(t.s)
			if n > p.nparm {
				p.nparm = n
			}
			return &sexpr{k: "param", n: n - 1}
		}
		p.nparm++
		return &sexpr{k: "param", n: p.nparm - 1}
	case "op":
		switch t.s {
		case "(":
			if p.isKw("select") {
				s := p.selectStmt()
				p.wantOp(")")
				return &sexpr{k: "scalar", sub: s}
			}
			e := p.expr()
			p.wantOp(")")
			return e
		case "*":
			return &sexpr{k: "star"}
		case "-":
			return &sexpr{k: "bin", s: "-", args: []*sexpr{{k: "lit", v: int64(0)}, p.primary()}}
		}
	case "id", "qid":
		if t.k == "id" {
			switch strings.ToLower(t.s) {
			case "true":
				return &sexpr{k: "lit", v: true}
			case "false":
				return &sexpr{k: "lit", v: false}
			case "null":
				return &sexpr{k: "lit"}
			case "array":
				if p.op("(") {
					s := p.selectStmt()
					p.wantOp(")")
					return &sexpr{k: "arr", sub: s}
				}
			case "select", "from", "where":
				p.fail("syntax error at or near %q", t.s)
			}
		}
		p.p--
		name := p.ident()
		if p.op("(") {
			e := &sexpr{k: "func", s: strings.ToLower(name)}
			if !p.op(")") {
				for {
					e.args = append(e.args, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.wantOp(")")
			}
			return e
		}
		q := ""
		for p.op(".") {
			if p.op("*") {
				return &sexpr{k: "star", q: name}
			}
			q = name
			name = p.ident()
		}
		return &sexpr{k: "col", q: q, s: name}
	}
	p.fail("syntax error at or near %q", t.s)
	return nil
}

// parseSelect parses one SELECT; the returned count is its number of parameters.
func parseSelect(src string, mysql bool) (s *sselect, nparm int, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	ts, err := sqlTokens(src, mysql)
	if err != nil {
		return nil, 0, err
	}
	p := &sqlParser{t: ts, pg: !mysql}
	s = p.selectStmt()
	p.op(";")
	if p.peek().k != "eof" {
		p.fail("syntax error at or near %q", p.peek().s)
	}
	return s, p.nparm, nil
}

type binding struct {
	alias string
	cols  []string
	row   []any // nil = outer-join null row
}

type env struct {
	b      []binding
	outer  *env
	params []any
	src    sqlSource
	pg     bool
}

func (e *env) lookup(q, name string) any {
	for x := e; x != nil; x = x.outer {
		for i := range x.b {
			b := &x.b[i]
			if q != "" && !strings.EqualFold(b.alias, q) {
				continue
			}
			for j, c := range b.cols {
				if strings.EqualFold(c, name) {
					if b.row == nil {
						return nil
					}
					return b.row[j]
				}
			}
		}
	}
	panic(sqlErr{fmt.Sprintf("column %q does not exist", strings.Trim(q+"."+name, "."))})
}

func truth(v any) bool { b, ok := v.(bool); return ok && b }

func cmpVals(a, b any) (int, bool) {
	if a == nil || b == nil {
		return 0, false
	}
	switch x := a.(type) {
	case int64:
		switch y := b.(type) {
		case int64:
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		case string:
			if n, err := strconv.ParseInt(y, 10, 64); err == nil {
				return cmpVals(x, n)
			}
		case bool:
			return cmpVals(x, bool2int(y))
		}
	case string:
		switch y := b.(type) {
		case string:
			return strings.Compare(x, y), true
		case int64:
			c, ok := cmpVals(b, a)
			return -c, ok
		case bool:
			return strings.Compare(x, map[bool]string{true: "t", false: "f"}[y]), true
		}
	case bool:
		switch y := b.(type) {
		case bool:
			return int(bool2int(x) - bool2int(y)), true
		default:
			c, ok := cmpVals(b, a)
			return -c, ok
		}
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b)), true
}

func bool2int(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func cmpOp(op string, a, b any) any {
	c, ok := cmpVals(a, b)
	if !ok {
		return nil
	}
	switch op {
	case "=":
		return c == 0
	case "<>", "!=":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	case ">=":
		return c >= 0
	}
	return nil
}

func (e *env) eval(x *sexpr) any {
	switch x.k {
	case "lit":
		return x.v
	case "param":
		if x.n >= len(e.params) {
			panic(sqlErr{"missing parameter"})
		}
		return e.params[x.n]
	case "col":
		return e.lookup(x.q, x.s)
	case "cast":
		return e.eval(x.args[0])
	case "not":
		v := e.eval(x.args[0])
		if v == nil {
			return nil
		}
		return !truth(v)
	case "isnull":
		return (e.eval(x.args[0]) == nil) != x.neg
	case "istrue":
		return truth(e.eval(x.args[0])) != x.neg
	case "in":
		v := e.eval(x.args[0])
		for _, a := range x.args[1:] {
			if truth(cmpOp("=", v, e.eval(a))) {
				return !x.neg
			}
		}
		return x.neg
	case "any":
		v := e.eval(x.args[0])
		switch l := e.eval(x.args[1]).(type) {
		case nil:
			return nil
		case []int64:
			for _, y := range l {
				if truth(cmpOp(x.s, v, y)) {
					return true
				}
			}
			return false
		case []string:
			for _, y := range l {
				if truth(cmpOp(x.s, v, y)) {
					return true
				}
			}
			return false
		}
		panic(sqlErr{"op ANY requires array on right side"})
	case "bin":
		if x.s == "and" {
			return truth(e.eval(x.args[0])) && truth(e.eval(x.args[1]))
		}
		if x.s == "or" {
			return truth(e.eval(x.args[0])) || truth(e.eval(x.args[1]))
		}
		a, b := e.eval(x.args[0]), e.eval(x.args[1])
		switch x.s {
		case "+", "-":
			if a == nil || b == nil {
				return nil
			}
			i, ok1 := a.(int64)
			j, ok2 := b.(int64)
			if !ok1 || !ok2 {
				panic(sqlErr{"operator does not exist"})
			}
			if x.s == "+" {
				return i + j
			}
			return i - j
		case "||":
			return fmt.Sprint(a) + fmt.Sprint(b)
		}
		return cmpOp(x.s, a, b)
	case "arr":
		r := runSelect(x.sub, e, e.params, e.src, e.pg)
		out := []string{}
		for _, row := range r.rows {
			if row[0] == nil {
				continue
			}
			out = append(out, fmt.Sprint(row[0]))
		}
		return out
	case "scalar":
		r := runSelect(x.sub, e, e.params, e.src, e.pg)
		if len(r.rows) == 0 {
			return nil
		}
		return r.rows[0][0]
	case "func":
		if x.s == "coalesce" || x.s == "ifnull" {
			for _, a := range x.args {
				if v := e.eval(a); v != nil {
					return v
				}
			}
			return nil
		}
		var args []any
		for _, a := range x.args {
			args = append(args, e.eval(a))
		}
		switch x.s {
		case "lower", "upper":
			s, _ := args[0].(string)
			if x.s == "lower" {
				return strings.ToLower(s)
			}
			return strings.ToUpper(s)
		}
		if v, ok := e.src.call(x.s, args); ok {
			return v
		}
		panic(sqlErr{"function " + x.s + " does not exist"})
	}
	panic(sqlErr{"unsupported expression " + x.k})
}

func runSelect(s *sselect, outer *env, params []any, src sqlSource, pg bool) *rel {
	base := &env{outer: outer, params: params, src: src, pg: pg}
	envs := [][]binding{{}}
	for _, f := range s.from {
		var next [][]binding
		for _, bs := range envs {
			e := &env{b: bs, outer: outer, params: params, src: src, pg: pg}
			var r *rel
			switch {
			case f.sub != nil:
				r = runSelect(f.sub, e, params, src, pg)
			case f.fn != nil:
				var args []any
				for _, a := range f.fn.args {
					args = append(args, e.eval(a))
				}
				r = &rel{cols: []string{f.alias}}
				switch f.fn.s {
				case "generate_subscripts":
					l, _ := args[0].([]int64)
					for i := range l {
						r.rows = append(r.rows, []any{int64(i)})
					}
				case "unnest":
					l, _ := args[0].([]int64)
					for _, v := range l {
						r.rows = append(r.rows, []any{v})
					}
				default:
					panic(sqlErr{"function " + f.fn.s + " does not exist"})
				}
			default:
				r = src.relation(f.schema, f.name)
				if r == nil {
					panic(sqlErr{fmt.Sprintf("relation %q does not exist", strings.Trim(f.schema+"."+f.name, "."))})
				}
			}
			matched := false
			for _, row := range r.rows {
				nb := append(append([]binding{}, bs...), binding{f.alias, r.cols, row})
				if f.on != nil {
					ne := &env{b: nb, outer: outer, params: params, src: src, pg: pg}
					if !truth(ne.eval(f.on)) {
						continue
					}
				}
				matched = true
				next = append(next, nb)
			}
			if !matched && f.left {
				next = append(next, append(append([]binding{}, bs...), binding{f.alias, r.cols, nil}))
			}
		}
		envs = next
	}
	_ = base
	out := &rel{}
	type orow struct {
		vals []any
		keys []any
	}
	var rows []orow
	for i, bs := range envs {
		e := &env{b: bs, outer: outer, params: params, src: src, pg: pg}
		if s.where != nil && !truth(e.eval(s.where)) {
			continue
		}
		var o orow
		for k, it := range s.items {
			if it.e.k == "star" {
				panic(sqlErr{"SELECT * is not supported by the simulated catalogue"})
			}
			o.vals = append(o.vals, e.eval(it.e))
			_ = k
		}
		for _, ob := range s.order {
			x := ob.e
			if x.k == "lit" {
				if n, ok := x.v.(int64); ok && n >= 1 && int(n) <= len(o.vals) {
					o.keys = append(o.keys, o.vals[n-1])
					continue
				}
			}
			if x.k == "col" && x.q == "" {
				found := false
				for k, it := range s.items {
					if it.as != "" && strings.EqualFold(it.as, x.s) {
						o.keys = append(o.keys, o.vals[k])
						found = true
						break
					}
				}
				if found {
					continue
				}
			}
			o.keys = append(o.keys, e.eval(x))
		}
		rows = append(rows, o)
		_ = i
	}
	sort.SliceStable(rows, func(i, j int) bool {
		for k := range s.order {
			c, ok := cmpVals(rows[i].keys[k], rows[j].keys[k])
			if !ok || c == 0 {
				continue
			}
			if s.order[k].desc {
				return c > 0
			}
			return c < 0
		}
		return false
	})
	for _, it := range s.items {
		n := it.as
		if n == "" {
			n = it.e.s
		}
		out.cols = append(out.cols, n)
	}
	seen := map[string]bool{}
	for _, r := range rows {
		if s.distinct {
			k := fmt.Sprint(r.vals)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out.rows = append(out.rows, r.vals)
	}
	return out
}

func execSelect(s *sselect, params []any, src sqlSource, mysql bool) (r *rel, err error) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(sqlErr); ok {
				err = e
				return
			}
			panic(x)
		}
	}()
	return runSelect(s, nil, params, src, !mysql), nil
}

// resultTypes guesses wire types from expressions: "bool", "text[]" or "text".
func resultType(x *sexpr) string {
	switch x.k {
	case "arr":
		return "text[]"
	case "lit":
		switch x.v.(type) {
		case bool:
			return "bool"
		case int64:
			return "int"
		}
	case "col":
		switch strings.ToLower(x.s) {
		case "indisprimary", "indisunique":
			return "bool"
		case "attnum", "oid", "ordinal_position", "seq_in_index", "non_unique":
			return "int"
		}
	case "bin":
		switch x.s {
		case "+", "-":
			return "int"
		case "||":
			return "text"
		}
		return "bool"
	case "not", "isnull", "istrue", "in", "any":
		return "bool"
	case "func":
		if x.s == "coalesce" || x.s == "ifnull" {
			return resultType(x.args[0])
		}
	case "scalar":
		return resultType(x.sub.items[0].e)
	}
	return "text"
}
