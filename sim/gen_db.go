package zzverifsim

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// ---- schemas

var tablePool = []string{"users", "todos", "tasks", "orders", "items", "tags", "order_details", "customer_addresses"}
var colPool = []string{"name", "email", "status", "title", "description", "created_at", "updated_at", "is_admin", "kind", "price", "qty",
	"user_id", "task_id", "order_id", "parent_id", "a_rather_long_column_name_1", "a_rather_long_column_name_2", "x", "y2", "_z"}

type dbOpts struct {
	cmd       string
	maxTabs   int
	maxCols   int  // columns of one table used by the query
	wide      bool // one table has many columns, all of which may be selected by name
	odd       bool // odd identifiers
	decoys    bool
	existing  bool
	subq      bool
	rich      bool // many expression forms
	using     bool // JOIN ... USING: candidates are then not predicted
	ambiguous bool
	specials  bool // texts with awkward characters
	tls       bool // Hasura may be behind https
}

type qgen struct {
	r       *Rng
	o       dbOpts
	my      bool
	schema  string
	tabs    []TableSpec
	qualify bool                // tables are named with their schema
	used    map[string][]string // usable columns per table
	cond    map[string]map[string]bool
	ref     map[string]map[string]bool
	known   bool
	lits    []string
	seq     int
	deep    int // further levels of subqueries
	many    int // further subqueries in WHERE
}

// Every table gets its own, globally unique set of column names with some probability; otherwise
// names are shared between tables so that attribution matters.
func genSchema(r *Rng, o dbOpts, schema string) []TableSpec {
	names := append([]string(nil), tablePool...)
	shuffle(r, names)
	n := r.Range(1, o.maxTabs)
	var out []TableSpec
	for i := 0; i < n; i++ {
		t := TableSpec{Schema: schema, Name: names[i]}
		if o.odd && r.P(10) && o.cmd != "hasura" { // gr refuses other than word characters in Hasura's table names
			if o.cmd == "mysql" {
				t.Name = pick(r, "user-data", "my table", "order")
			} else {
				t.Name = pick(r, "user-data", "my table", "order", "UserData")
			}
			for _, p := range out {
				if p.Name == t.Name {
					t.Name += "2"
				}
			}
		}
		cols := append([]string(nil), colPool...)
		shuffle(r, cols)
		k := r.Range(2, 7)
		if o.wide {
			k = r.Range(7, 12)
		}
		switch r.N(6) {
		case 0: // composite primary key
			t.Cols = append(t.Cols, ColSpec{Name: "pk1", PK: true}, ColSpec{Name: "pk2", PK: true})
			for k := 3; k < 6 && r.P(35); k++ {
				t.Cols = append(t.Cols, ColSpec{Name: fmt.Sprintf("pk%d", k), PK: true})
			}
		case 1: // no primary key
			t.Cols = append(t.Cols, ColSpec{Name: "code"})
		default:
			t.Cols = append(t.Cols, ColSpec{Name: "id", PK: true})
		}
		for j := 0; j < k; j++ {
			t.Cols = append(t.Cols, ColSpec{Name: cols[j]})
		}
		if o.odd && r.P(25) {
			nm := pick(r, "weird-col", "sp ace", "order", "é", "isAdmin", "userID")
			if o.cmd != "mysql" {
				nm = pick(r, "weird-col", "sp ace", "order", "isAdmin", "é")
			}
			if o.cmd != "mysql" && r.P(30) { // differs from another column only in case
				nm = strings.ToUpper(t.Cols[r.N(len(t.Cols))].Name)
				if nm == strings.ToLower(nm) {
					nm = "isAdmin"
				}
			}
			t.Cols = append(t.Cols, ColSpec{Name: nm})
		}
		if r.P(30) {
			shuffle(r, t.Cols)
		}
		if o.cmd != "mysql" && r.P(20) {
			t.Cols = append(t.Cols, ColSpec{Name: "gone", Dropped: true})
		}
		out = append(out, t)
	}
	return out
}

func (g *qgen) q(name string) string {
	need := !plainIdent.MatchString(name) || pgKeywords[name]
	if need || g.r.P(20) {
		if g.my {
			return "`" + name + "`"
		}
		return `"` + name + `"`
	}
	return name
}

// tq names a table in a FROM clause, sometimes with its schema.
func (g *qgen) tq(t *TableSpec) string {
	if g.qualify && g.r.P(70) {
		return g.q(t.Schema) + "." + g.q(t.Name)
	}
	return g.q(t.Name)
}

type inst struct {
	t     *TableSpec
	alias string
}

func (i inst) ref() string {
	if i.alias != "" {
		return i.alias
	}
	return i.t.Name
}

type scopeG struct {
	own    []inst
	outer  []inst
	hidden []inst // of outer queries, but their name now means an own table
}

func (g *qgen) usable(t *TableSpec) []string { return g.used[t.Name] }

func (g *qgen) colText(sc *scopeG, in inst, c string) string {
	n := 0
	inOwn := false
	for _, x := range sc.own {
		inOwn = inOwn || x == in
	}
	for k, l := range [][]inst{sc.own, sc.outer, sc.hidden} {
		for _, x := range l {
			for _, tc := range x.t.Cols {
				if tc.Name == c && (k == 0 || !inOwn) { // an own column hides those of outer queries
					n++
				}
			}
			if x.ref() == c {
				n++
			}
		}
	}
	t := c
	if g.my && g.r.P(4) && plainIdent.MatchString(c) { // MySQL ignores the case of column names
		t = strings.ToUpper(c)
	}
	if n == 1 && g.r.P(40) {
		return g.q(t)
	}
	return g.q(in.ref()) + "." + g.q(t)
}

func (g *qgen) mark(m map[string]map[string]bool, t, c string) {
	if m[t] == nil {
		m[t] = map[string]bool{}
	}
	m[t][c] = true
}

// col picks a column of the scope's own tables and records how it is used.
func (g *qgen) col(sc *scopeG, cond bool) string {
	in := sc.own[g.r.N(len(sc.own))]
	return g.colOf(sc, in, cond)
}

func (g *qgen) colOf(sc *scopeG, in inst, cond bool) string {
	u := g.usable(in.t)
	c := u[g.r.N(len(u))]
	if cond {
		g.mark(g.cond, in.t.Name, c)
	} else {
		g.mark(g.ref, in.t.Name, c)
	}
	return g.colText(sc, in, c)
}

// operand is a column or a subquery giving one value.
func (g *qgen) operand(sc *scopeG, cond bool, depth int) string {
	if depth == 0 || !g.o.subq || g.my || len(sc.outer) > 0 || !g.r.P(5) {
		return g.col(sc, cond)
	}
	s, f := g.inner(sc)
	sel := g.colOf(s, s.own[0], false)
	return "(SELECT " + sel + " FROM " + f + " WHERE " + g.pred(s, 0) + pick(g.r, "", " LIMIT 1") + ")"
}

func (g *qgen) lit() string {
	if len(g.lits) > 0 && g.r.P(60) {
		return g.lits[g.r.N(len(g.lits))]
	}
	return pick(g.r, "1", "42", "'abc'", "'it''s'", "NULL", "-3", "1.5", "'%x_'", "'2022-01-01'", "'a  b'", "'-- x'", "'A b;c'")
}

func (g *qgen) pred(sc *scopeG, depth int) string {
	r := g.r
	c := func() string { return g.operand(sc, true, depth) }
	if len(sc.outer) > 0 && r.P(40) {
		in := sc.outer[r.N(len(sc.outer))]
		return c() + " = " + g.colOf(sc, in, true)
	}
	if g.o.subq && !g.my && depth > 0 && r.P(8) {
		return g.subPred(sc)
	}
	n := 6
	if g.o.rich {
		n = 24
	}
	switch r.N(n) {
	case 0, 1:
		return c() + pick(r, " = ", " > ", " <= ", " <> ") + g.lit()
	case 2:
		return c() + " IN (" + g.lit() + ", 2)"
	case 3:
		return c() + " BETWEEN 1 AND 10"
	case 4:
		return c() + pick(r, " IS NULL", " IS NOT NULL")
	case 5:
		return c() + " LIKE 'a%'"
	case 6:
		return "NOT (" + c() + " = " + g.lit() + ")"
	case 7:
		return "lower(" + c() + ") = 'x'"
	case 8:
		return c() + " + 1 > " + c()
	case 9:
		return "COALESCE(" + c() + ", 0) = 1"
	case 10:
		if r.P(40) {
			if r.P(50) {
				return "CASE " + c() + " WHEN " + c() + " THEN 2 ELSE 0 END = 1"
			}
			return "CASE " + c() + " WHEN 1 THEN 2 ELSE " + c() + " END = 1"
		}
		return "CASE WHEN " + c() + " = 1 THEN " + c() + " ELSE 0 END = 1"
	case 11:
		if g.my {
			return "CAST(" + c() + " AS CHAR) = '1'"
		}
		return c() + "::text = '1'"
	case 12:
		return "(" + c() + ", " + c() + ") = (1, 2)"
	case 13:
		if depth > 0 {
			return "(" + g.pred(sc, depth-1) + " OR " + g.pred(sc, depth-1) + ")"
		}
		return c() + " = 0"
	case 14:
		if g.o.subq && !g.my && depth > 0 {
			return g.subPred(sc)
		}
		return c() + " NOT IN (1, 2)"
	case 15, 16:
		return c() + " = " + c()
	case 17:
		return "NULLIF(" + c() + ", 1) = " + c()
	case 18:
		return "- " + c() + " < 0"
	case 19:
		return c() + " BETWEEN " + c() + " AND " + c()
	default:
		if g.my {
			switch r.N(20) {
			case 8:
				return c() + pick(r, " DIV 2 = 1", " MOD 3 = 0", " IS UNKNOWN", " & 4 = 4", " ^ 1 = 2")
			case 9:
				return "(" + c() + " = 1 XOR " + c() + " = 2)"
			case 10:
				return c() + pick(r, " RLIKE ", " LIKE ", " NOT LIKE ") + c()
			case 11:
				return "BINARY " + c() + " = 'x'"
			case 12:
				return "CONVERT(" + c() + pick(r, " USING utf8mb4", ", CHAR") + ") = 'x'"
			case 13:
				return "DATE_ADD(" + c() + ", INTERVAL " + c() + " DAY) > NOW()"
			case 14:
				return "TIMESTAMPDIFF(DAY, " + c() + ", " + c() + ") > 1"
			case 15:
				return c() + " IN (1, " + c() + ")"
			case 16:
				return "GREATEST(" + c() + ", " + c() + ") > 1"
			case 17:
				return "JSON_EXTRACT(" + c() + ", '$.x') = 1"
			case 18:
				return c() + " LIKE " + c() + " ESCAPE '|'"
			case 19:
				return "! " + c()
			case 0:
				return c() + " COLLATE utf8mb4_bin = 'x'"
			case 1:
				return "IF(" + c() + " = 1, " + c() + ", 0) = 1"
			case 2:
				return c() + " REGEXP '^x'"
			case 3:
				return c() + pick(r, " IS TRUE", " IS NOT FALSE")
			case 4:
				return "EXTRACT(YEAR FROM " + c() + ") = 2022"
			case 5:
				return "TRIM(LEADING 'x' FROM " + c() + ") = 'y'"
			case 6:
				return c() + " <=> 1 AND " + c() + " > NOW() - INTERVAL 1 DAY"
			default:
				return "MATCH (" + c() + ") AGAINST ('x')"
			}
		}
		switch r.N(22) {
		case 6:
			return c() + pick(r, " ILIKE 'x%'", " SIMILAR TO 'x'", " NOT ILIKE 'y'", " !~ 'y'", " ~* 'z'")
		case 7:
			return c() + pick(r, "->>'k' = '1'", "->'a' = '{}'", " @> '{\"a\":1}'", " ? 'x'")
		case 8:
			return c() + " AT TIME ZONE 'UTC' > now()"
		case 9:
			return c() + " > now() - interval '1 day'"
		case 10:
			return c() + pick(r, " % 2 = 0", " & 1 = 1", " << 2 = 4", " # 1 = 3")
		case 11:
			return c() + " || " + c() + " = 'xy'"
		case 12:
			return "ROW(" + c() + ", " + c() + ") = ROW(1, 2)"
		case 13:
			return "SUBSTRING(" + c() + " FROM 1 FOR 2) = 'x'"
		case 14:
			return pick(r, "GREATEST(", "LEAST(") + c() + ", " + c() + ") = 1"
		case 15:
			return "POSITION('x' IN " + c() + ") = 1"
		case 16:
			return "OVERLAY(" + c() + " PLACING 'x' FROM 1) = 'y'"
		case 17:
			return "NOT " + c()
		case 18:
			return c() + " NOT BETWEEN " + c() + " AND 7"
		case 19:
			return c() + " IN (1, " + c() + ")"
		case 20:
			return c() + pick(r, " = ALL(ARRAY[", " = SOME(ARRAY[") + c() + ", 2])"
		case 21:
			return "CAST(" + c() + " AS integer) = 1"
		case 0:
			return c() + ` COLLATE "C" = 'x'`
		case 1:
			return c() + " IS DISTINCT FROM " + c()
		case 2:
			return c() + " = ANY(ARRAY[" + c() + ", 1])"
		case 3:
			return c() + " ~ '^x'"
		case 4:
			return c() + pick(r, " IS TRUE", " IS NOT FALSE")
		default:
			return "EXTRACT(YEAR FROM " + c() + ") = 2022"
		}
	}
}

func (g *qgen) inner(sc *scopeG) (*scopeG, string) {
	r := g.r
	t := &g.tabs[r.N(len(g.tabs))]
	g.seq++
	alias := fmt.Sprintf("s%d", g.seq*100+r.N(100))
	s := &scopeG{}
	all := append(append([]inst{}, sc.own...), sc.outer...)
	if len(all) > 0 && r.P(25) { // a name of the outer query means another table inside
		alias = all[r.N(len(all))].ref()
		if r.P(50) {
			alias = t.Name
		}
	}
	s.own = []inst{{t, alias}}
	s.hidden = append(s.hidden, sc.hidden...)
	for _, x := range all {
		if x.ref() == alias {
			s.hidden = append(s.hidden, x)
		} else {
			s.outer = append(s.outer, x)
		}
	}
	if alias == t.Name {
		return s, g.tq(t)
	}
	return s, g.tq(t) + pick(r, " ", " AS ") + g.q(alias)
}

func (g *qgen) subPred(sc *scopeG) string {
	s, from := g.inner(sc)
	w := g.pred(s, 0)
	if g.deep > 0 || len(sc.outer) == 0 && g.r.P(45) { // one more level
		g.deep--
		w += pick(g.r, " AND ", " OR ") + g.subPred(s)
	}
	if g.r.P(50) {
		return pick(g.r, "EXISTS", "NOT EXISTS") + " (SELECT 1 FROM " + from + " WHERE " + w + ")"
	}
	l := g.col(sc, true)
	return l + " IN (SELECT " + g.colOf(s, s.own[0], false) + " FROM " + from + " WHERE " + w + ")"
}

func (g *qgen) where(sc *scopeG, n int) string {
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, g.pred(sc, 1))
	}
	for ; n > 0 && g.many > 0; g.many-- {
		ps = append(ps, g.subPred(sc))
	}
	if len(ps) == 0 {
		return ""
	}
	s := ps[0]
	for _, p := range ps[1:] {
		s += pick(g.r, " AND ", " AND ", " OR ") + p
	}
	return " WHERE " + s
}

// derived builds "(SELECT ...) AS d": outer references resolve to the inner columns.
type derivedCol struct {
	name, table string
	cols        []string
}

func (g *qgen) build() string {
	r := g.r
	sc := &scopeG{}
	nt := r.Range(1, len(g.tabs))
	perm := make([]int, len(g.tabs))
	for i := range perm {
		perm[i] = i
	}
	shuffle(r, perm)
	for i := 0; i < nt; i++ {
		t := &g.tabs[perm[i]]
		al := ""
		if r.P(50) {
			al = fmt.Sprintf("%s%d", pick(r, "t", "a", "U"), i)
			if g.my {
				al = strings.ToLower(al)
			}
			if r.P(8) { // named like another table
				al = g.tabs[r.N(len(g.tabs))].Name
				for _, x := range sc.own {
					if x.ref() == al {
						al = ""
					}
				}
				for k := i + 1; k < nt; k++ {
					if g.tabs[perm[k]].Name == al {
						al = ""
					}
				}
				if !plainIdent.MatchString(al) || pgKeywords[al] {
					al = ""
				}
			}
		}
		sc.own = append(sc.own, inst{t, al})
	}
	if r.P(10) { // self join
		sc.own = append(sc.own, inst{sc.own[0].t, "self1"})
	}
	from := ""
	for i, in := range sc.own {
		tt := g.tq(in.t)
		if in.alias != "" {
			if plainIdent.MatchString(in.alias) {
				tt += pick(r, " ", " AS ") + in.alias
			} else {
				tt += ` AS "` + in.alias + `"`
			}
		}
		if i == 0 {
			from = tt
			continue
		}
		vis := &scopeG{own: sc.own[:i+1]}
		switch r.N(5) {
		case 0:
			if from == "" || strings.Contains(from, "JOIN") {
				from += " CROSS JOIN " + tt
			} else {
				from += ", " + tt
			}
		default:
			j := sc.own[r.N(i)]
			on := g.colOfJoin(sc, vis, j) + " = " + g.colOfJoin(sc, vis, in)
			if r.P(25) {
				on += " AND " + g.colOfJoin(sc, vis, in) + " > 5"
			}
			if strings.Contains(from, "JOIN") && !strings.Contains(from, ", ") && r.P(15) {
				from = "(" + from + ")"
			}
			kinds := []string{" JOIN ", " INNER JOIN ", " LEFT JOIN ", " LEFT OUTER JOIN ", " RIGHT JOIN ", " RIGHT OUTER JOIN "}
			if g.my {
				kinds = append(kinds, " STRAIGHT_JOIN ")
			} else {
				kinds = append(kinds, " FULL JOIN ", " FULL OUTER JOIN ")
			}
			from += kinds[r.N(len(kinds))] + tt + " ON " + on
		}
	}
	// derived tables and laterals (PostgreSQL and Hasura)
	var dcols []derivedCol
	if g.o.subq && !g.my && r.P(10) { // every column of a table, by way of a star
		s, f := g.inner(&scopeG{})
		inn := s.own[0]
		star := g.q(inn.ref()) + ".*"
		if r.P(40) {
			star = "*"
		} else if r.P(40) {
			t2, al := &g.tabs[r.N(len(g.tabs))], "sj"
			s.own = append(s.own, inst{t2, al})
			f += " JOIN " + g.tq(t2) + " AS " + al + " ON " + g.colQ(s, inn, true) + " = " + g.colQ(s, s.own[1], true)
		}
		w := ""
		if r.P(50) {
			w = " WHERE " + g.pred(s, 0)
		}
		d := "SELECT " + star + " FROM " + f + w
		if r.P(25) {
			d = "SELECT " + pick(r, "*", "ds.*") + " FROM (" + d + ") AS ds"
		}
		dd := inst{inn.t, "dstar"}
		vis := &scopeG{own: append(append([]inst{}, sc.own...), dd)}
		from += " LEFT JOIN (" + d + ") AS dstar ON " + g.colQ(vis, dd, true) + " = " + g.colQ(vis, sc.own[r.N(len(sc.own))], true)
		sc.own = append(sc.own, dd)
	} else if g.o.subq && !g.my && r.P(35) {
		s, f := g.inner(&scopeG{})
		var items []string
		lateral := r.P(50)
		inn := s.own[0]
		u := g.usable(inn.t)
		for k := 0; k < r.Range(1, 2); k++ {
			c := u[r.N(len(u))]
			nm := fmt.Sprintf("d_%d", k)
			d := derivedCol{nm, inn.t.Name, []string{c}}
			text := g.q(inn.alias) + "." + g.q(c)
			if r.P(30) { // made from several columns
				c2 := u[r.N(len(u))]
				d.cols = append(d.cols, c2)
				text = "COALESCE(" + text + ", " + g.q(inn.alias) + "." + g.q(c2) + ")"
			}
			for _, c := range d.cols {
				g.mark(g.ref, d.table, c)
			}
			dcols = append(dcols, d)
			items = append(items, text+" AS "+nm)
		}
		w := ""
		if lateral {
			s.outer = sc.own
			if r.P(45) { // the way Hasura nests relationships
				s2, f2 := g.inner(s)
				f += " LEFT OUTER JOIN LATERAL (SELECT " + g.colQ(s2, s2.own[0], false) + " AS e_0 FROM " + f2 + " WHERE "
				if len(s2.outer) > 0 && r.P(50) {
					f += g.colQ(s2, s2.own[0], true) + " = " + g.colQ(s2, s2.outer[r.N(len(s2.outer))], true)
				} else {
					f += g.pred(s2, 0)
				}
				f += ") AS ee ON ('true')"
			}
			w = " WHERE " + g.pred(s, 0)
		} else if r.P(70) {
			w = " WHERE " + g.pred(s, 0)
		}
		d := "(SELECT " + strings.Join(items, ", ") + " FROM " + f + w + ")"
		if lateral {
			from += " LEFT OUTER JOIN LATERAL " + d + ` AS dd ON ('true')`
		} else {
			from += " LEFT JOIN " + d + " AS dd ON dd." + dcols[0].name + " = " + g.colQ(sc, sc.own[0], true)
			for _, c := range dcols[0].cols {
				g.mark(g.cond, dcols[0].table, c)
			}
		}
	}
	// select list
	var items []string
	star := r.P(25)
	if star {
		if r.P(50) {
			items = append(items, "*")
		} else {
			items = append(items, g.q(sc.own[r.N(len(sc.own))].ref())+".*")
		}
	}
	agg := !star && r.P(25)
	n := r.Range(0, 3)
	if len(items) == 0 && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		switch {
		case agg && r.P(50):
			switch r.N(3) {
			case 0:
				items = append(items, "COUNT(*)")
			case 1:
				items = append(items, "MAX("+g.col(sc, false)+")")
			default:
				items = append(items, "SUM("+g.col(sc, false)+") AS total"+fmt.Sprint(i))
			}
		case r.P(10):
			items = append(items, "1")
		case g.o.rich && r.P(15):
			items = append(items, "COALESCE("+g.operand(sc, false, 1)+", 0) AS c"+fmt.Sprint(i))
		case g.o.rich && r.P(10):
			it := "SUM(" + g.col(sc, false) + ") OVER ("
			if r.P(50) {
				it += "PARTITION BY " + g.operand(sc, false, 1) + " "
			}
			it += "ORDER BY " + g.operand(sc, false, 1) + pick(r, "", " DESC", " ROWS 1 PRECEDING", " ROWS UNBOUNDED PRECEDING", " ROWS BETWEEN 1 PRECEDING AND CURRENT ROW", " ROWS BETWEEN UNBOUNDED PRECEDING AND UNBOUNDED FOLLOWING") + ")"
			items = append(items, it+" AS rs"+fmt.Sprint(i))
		case g.o.rich && g.my && r.P(4):
			items = append(items, "@v"+fmt.Sprint(i)+" := "+g.operand(sc, false, 1))
		case g.o.rich && r.P(15):
			items = append(items, "ROW_NUMBER() OVER (PARTITION BY "+g.col(sc, false)+" ORDER BY "+g.col(sc, false)+" DESC) AS rn"+fmt.Sprint(i))
		case g.o.rich && agg && r.P(40):
			switch {
			case r.P(40):
				items = append(items, "COUNT(DISTINCT "+g.col(sc, false)+") AS cd"+fmt.Sprint(i))
			case g.my:
				items = append(items, "GROUP_CONCAT("+g.col(sc, false)+" ORDER BY "+g.col(sc, false)+") AS gc"+fmt.Sprint(i))
			default:
				if r.P(50) {
					items = append(items, "array_agg("+g.col(sc, false)+" ORDER BY "+g.operand(sc, false, 1)+") AS ag"+fmt.Sprint(i))
					break
				}
				items = append(items, "COUNT("+g.operand(sc, false, 1)+") FILTER (WHERE "+g.operand(sc, false, 1)+" > 1) AS cf"+fmt.Sprint(i))
			}
		case g.o.subq && !g.my && r.P(15):
			s, f := g.inner(sc)
			items = append(items, "(SELECT COUNT(*) FROM "+f+" WHERE "+g.pred(s, 0)+") AS cnt"+fmt.Sprint(i))
		default:
			it := g.col(sc, false)
			if r.P(25) {
				it += " AS out" + fmt.Sprint(i)
			}
			items = append(items, it)
		}
	}
	if g.o.wide && !agg {
		in := sc.own[r.N(len(sc.own))]
		for _, c := range in.t.Cols {
			if !c.Dropped && r.P(95) {
				g.mark(g.ref, in.t.Name, c.Name)
				items = append(items, g.colText(sc, in, c.Name))
			}
		}
	}
	distinct := pick(r, "", "", "", "DISTINCT ")
	if distinct != "" && !g.my && g.o.rich && r.P(50) {
		distinct = "DISTINCT ON (" + g.col(sc, false) + ") "
	}
	q := "SELECT " + distinct + strings.Join(items, ", ") + " FROM " + from
	nw := r.Range(0, 3)
	w := g.where(sc, nw)
	if len(dcols) > 0 && r.P(40) {
		d := dcols[r.N(len(dcols))]
		for _, c := range d.cols {
			g.mark(g.cond, d.table, c)
		}
		p := "dd." + d.name + " = 1"
		if w == "" {
			w = " WHERE " + p
		} else {
			w += " AND " + p
		}
	}
	q += w
	if agg || r.P(10) {
		q += " GROUP BY " + g.operand(sc, false, 1)
		if r.P(30) {
			q += ", " + g.col(sc, false)
		}
		if r.P(30) {
			q += " HAVING COUNT(" + g.col(sc, false) + ") > " + pick(r, "1", "0")
			if r.P(30) {
				q += " AND MAX(" + g.col(sc, false) + ") < " + g.operand(sc, false, 1)
			}
		}
	}
	if r.P(30) {
		q += " ORDER BY " + g.operand(sc, false, 1) + pick(r, "", " DESC", " ASC")
		if r.P(30) {
			q += ", " + g.col(sc, false)
		}
	}
	if r.P(30) {
		sub := func(n string) string {
			if g.o.subq && !g.my && r.P(6) {
				s, f := g.inner(&scopeG{})
				return "(SELECT COUNT(*) FROM " + f + " WHERE " + g.pred(s, 0) + ")"
			}
			return n
		}
		q += " LIMIT " + sub("10")
		if r.P(30) {
			q += " OFFSET " + sub("5")
		}
	}
	if r.P(8) {
		q += ";"
	}
	if r.P(8) {
		q = pick(r, "  ", "\n", "/* find */ ") + q
	}
	return g.decorate(q)
}

// decorate adds what belongs to the user's text without changing what it means to the tool: hints,
// comments, line breaks, trailing blanks.
func (g *qgen) decorate(q string) string {
	r := g.r
	if r.P(10) {
		h := pick(r, "/* req=17 */ ", "/*  two  blanks */ ")
		if g.my {
			h = pick(r, h, "/*+ MAX_EXECUTION_TIME(100000) */ ", "/*+ NO_MERGE() */ ")
		} else {
			h = pick(r, h, "/*+ SeqScan(a) */ ")
		}
		q = strings.Replace(q, "SELECT ", "SELECT "+h, 1)
	}
	if r.P(10) {
		q = strings.Replace(q, " WHERE ", pick(r, "\n WHERE  ", "\tWHERE ", "\r\n\r\nWHERE ", " -- filter\nWHERE "), 1)
	}
	if r.P(12) {
		e := []string{" ", "\n", " \n ", " -- the end", "\n-- end\n", " /* end */", ";\n", " ; "}
		if strings.HasSuffix(q, ";") {
			e = e[:6]
		}
		q += pick(r, e...)
	}
	return q
}

// buildShared joins tables that share a column and refers to that column by its bare name where the
// database has a unique meaning for it: ORDER BY prefers output columns, USING merges (MySQL).
func (g *qgen) buildShared() string {
	r := g.r
	ts := append([]TableSpec(nil), g.tabs...)
	shuffle(r, ts)
	for i := range ts {
		for j := range ts {
			if i == j {
				continue
			}
			for _, c := range ts[i].Cols {
				if c.Dropped || !plainIdent.MatchString(c.Name) || pgKeywords[c.Name] {
					continue
				}
				for _, d := range ts[j].Cols {
					if d.Dropped || d.Name != c.Name || r.P(30) {
						continue
					}
					n := c.Name
					from := g.q(ts[i].Name) + " AS a1 JOIN " + g.q(ts[j].Name) + " AS b1 ON a1." + n + " = b1." + n
					if r.P(50) {
						from = g.q(ts[i].Name) + " AS a1 LEFT JOIN " + g.q(ts[j].Name) + " AS b1 ON a1." + n + " <> 0"
					}
					if g.my && r.P(50) {
						from = g.q(ts[i].Name) + " AS a1 JOIN " + g.q(ts[j].Name) + " AS b1 USING (" + n + ")"
						switch r.N(3) {
						case 0:
							return "SELECT " + n + " FROM " + from + " WHERE " + n + " = 1"
						case 1:
							return "SELECT a1.* FROM " + from + " WHERE " + n + " > 3 ORDER BY " + n
						default:
							return "SELECT COUNT(*), " + n + " FROM " + from + " GROUP BY " + n
						}
					}
					w := pick(r, "a1", "b1")
					switch r.N(3) {
					case 0:
						return "SELECT " + w + "." + n + " FROM " + from + " ORDER BY " + n
					case 1:
						return "SELECT " + w + "." + n + " FROM " + from + " WHERE a1." + n + " > 1 ORDER BY " + n + " DESC"
					default:
						return "SELECT " + w + "." + n + ", COUNT(*) FROM " + from + " GROUP BY " + w + "." + n + " ORDER BY " + n
					}
				}
			}
		}
	}
	return ""
}

// columns in ON clauses are always qualified (a later table may share the name)
func (g *qgen) colOfJoin(all, vis *scopeG, in inst) string { return g.colQ(all, in, true) }

func (g *qgen) colQ(sc *scopeG, in inst, cond bool) string {
	u := g.usable(in.t)
	c := u[g.r.N(len(u))]
	if cond {
		g.mark(g.cond, in.t.Name, c)
	} else {
		g.mark(g.ref, in.t.Name, c)
	}
	if g.qualify && in.alias == "" && g.r.P(30) {
		return g.q(in.t.Schema) + "." + g.q(in.t.Name) + "." + g.q(c)
	}
	return g.q(in.ref()) + "." + g.q(c)
}

// candidates is the reference definition of what should be suggested for one table.
func candidates(cond, ref []string, pk map[string]bool) [][]string {
	isCond := map[string]bool{}
	for _, c := range cond {
		isCond[c] = true
	}
	var tail []string
	for _, c := range ref {
		if !isCond[c] {
			tail = append(tail, c)
		}
	}
	sort.Strings(tail)
	var out [][]string
	var rec func(cur []string, left []string)
	rec = func(cur, left []string) {
		if len(cur) > 0 {
			out = append(out, append([]string(nil), cur...))
		}
		for i := range left {
			rest := append(append([]string(nil), left[:i]...), left[i+1:]...)
			rec(append(append([]string(nil), cur...), left[i]), rest)
		}
	}
	rec(nil, cond)
	if len(tail) > 0 {
		var full [][]string
		if len(cond) == 0 {
			full = append(full, tail)
		}
		for _, c := range out {
			if len(c) == len(cond) {
				full = append(full, append(append([]string(nil), c...), tail...))
			}
		}
		out = append(out, full...)
	}
	var res [][]string
	for _, c := range out {
		all := true
		for _, x := range c {
			if !pk[x] {
				all = false
			}
		}
		if !all {
			res = append(res, c)
		}
	}
	return res
}

func sortIdx(xs []IdxT) {
	sort.SliceStable(xs, func(a, b int) bool {
		x, y := xs[a], xs[b]
		if x.Table != y.Table {
			return x.Table < y.Table
		}
		if len(x.Cols) != len(y.Cols) {
			return len(x.Cols) < len(y.Cols)
		}
		for i := range x.Cols {
			if x.Cols[i] != y.Cols[i] {
				return x.Cols[i] < y.Cols[i]
			}
		}
		return false
	})
}

func keys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// genQuery makes a query over the tables together with the expected candidates.
func genQuery(r *Rng, o dbOpts, tabs []TableSpec) (string, []IdxT) {
	g := &qgen{r: r, o: o, my: o.cmd == "mysql", tabs: tabs, used: map[string][]string{}, cond: map[string]map[string]bool{}, ref: map[string]map[string]bool{}}
	if o.specials {
		g.lits = specialLits
	}
	if o.subq && !g.my && r.P(6) { // many subqueries
		g.deep, g.many = r.N(7), r.N(7)
	}
	g.qualify = !g.my && r.P(12) && tabs[0].Schema == "public" // others are refused
	for i := range tabs {
		var cs []string
		for _, c := range tabs[i].Cols {
			if !c.Dropped {
				cs = append(cs, c.Name)
			}
		}
		shuffle(r, cs)
		if r.P(25) { // mostly columns of the primary key
			isPK := map[string]bool{}
			for _, c := range tabs[i].Cols {
				isPK[c.Name] = c.PK
			}
			sort.SliceStable(cs, func(a, b int) bool { return isPK[cs[a]] && !isPK[cs[b]] })
		}
		if len(cs) > o.maxCols {
			cs = cs[:o.maxCols]
		}
		g.used[tabs[i].Name] = cs
	}
	q := ""
	if o.using && r.P(50) {
		q = g.buildShared()
	}
	if q == "" {
		q = g.build()
	} else {
		g.known = false
	}
	var exp []IdxT
	for i := range tabs {
		t := &tabs[i]
		fold := func(s string) string {
			if g.my {
				return strings.ToLower(s)
			}
			return s
		}
		pk := map[string]bool{}
		for _, c := range t.Cols {
			if c.PK {
				pk[fold(c.Name)] = true
			}
		}
		foldAll := func(m map[string]bool) []string {
			n := map[string]bool{}
			for c := range m {
				n[fold(c)] = true
			}
			return keys(n)
		}
		for _, c := range candidates(foldAll(g.cond[t.Name]), foldAll(g.ref[t.Name]), pk) {
			exp = append(exp, IdxT{t.Name, c})
		}
	}
	sortIdx(exp)
	if g.my {
		for i := range exp {
			exp[i].Cols = declared(tabs, "", exp[i].Table, exp[i].Cols)
		}
	}
	return q, exp
}

var specialLits = []string{`'</script><b>x'`, `'<!-- c -->'`, "'\u2028x\u2029'", `'日本語 🙂'`, `'a&b<c>d'`, `'"q"'`, `'tab	x'`, `'\\u003c'`, `'{{.gr}}'`, `'%d%s'`, "'`'", `'a=b; c'`}

// ---- whole database scenarios

func genNet(r *Rng) NetSpec {
	n := NetSpec{Seed: r.U64(), MinUs: int64(pick(r, 50, 200, 1000, 5000))}
	n.JitterUs = int64(pick(r, 0, 100, 3000, 20000))
	n.FragPct = pick(r, 0, 0, 20, 60, 95)
	return n
}

func baseScenario(r *Rng, prop, cmd string, seed uint64) *Scenario {
	return &Scenario{Prop: prop, Kind: cmd, Seed: seed, Cmd: cmd, RandSeed: r.U64() | 1, SchedSeed: r.U64() | 1,
		StartUnix: 1660000000 + int64(r.N(80000000)), StartNano: int64(r.N(1000)) * 1e6, TZOff: pick(r, 0, 0, 9*3600, -5*3600, 19800, -34200),
		OutName: "out.html", Net: genNet(r), Env: map[string]string{}, Truth: &Truth{}}
}

func genDB(r *Rng, prop string, seed uint64, o dbOpts) *Scenario {
	sc := baseScenario(r, prop, o.cmd, seed)
	if o.maxTabs == 0 {
		o.maxTabs = 3
	}
	if o.maxCols == 0 {
		o.maxCols = 3
	}
	schema := "public"
	d := &DBSpec{Flavor: "pg", User: "app", Password: pick(r, "", "s3cr3t-pw", "p w"), Shuffle: r.U64(), DBName: "appdb",
		ExecMs: int64(r.Range(1, 300)), DDLMs: int64(r.Range(0, 200)), CatMs: int64(r.N(20)), ResultRows: pick(r, 0, 1, 3, 40, 40, 1, 0, 3, 40, 3, 1, pick(r, 0, 1, 2500, 6000))}
	switch o.cmd {
	case "mysql":
		d.Flavor = "mysql"
		d.Addr = pick(r, "127.0.0.1:3306", "db.internal:3307")
		d.Auth = pick(r, "native", "sha2")
		schema = d.DBName
		sc.Env["DB_USERNAME"], sc.Env["DB_PASSWORD"], sc.Env["DB_DATABASE"] = d.User, d.Password, d.DBName
		if d.Addr != "127.0.0.1:3306" || r.P(50) {
			sc.Env["DB_ADDRESS"] = d.Addr
			if r.P(50) {
				sc.Env["DB_PROTOCOL"] = "tcp"
			}
		}
		if r.P(10) { // the server's own machine
			d.Addr = pick(r, "/var/run/mysqld/mysqld.sock", "/tmp/my sql.sock")
			sc.Env["DB_ADDRESS"], sc.Env["DB_PROTOCOL"] = d.Addr, "unix"
		}
		switch r.N(4) {
		case 0:
			sc.Env["DB_PARAM_TEXT"] = "parseTime=true"
		case 1:
			sc.Env["DB_PARAM_TEXT"] = "multiStatements=true&interpolateParams=true"
		}
	case "postgres":
		d.Auth = pick(r, "md5", "clear", "trust")
		host, port := pick(r, "localhost", "db.internal", "10.1.2.3"), pick(r, "5432", "6543")
		d.Addr = host + ":" + port
		sc.Env["DB_USERNAME"], sc.Env["DB_PASSWORD"], sc.Env["DB_DATABASE"] = d.User, d.Password, d.DBName
		if d.Password == "" {
			d.Auth = "trust"
		}
		if host != "localhost" || r.P(50) {
			sc.Env["DB_HOST"] = host
		}
		if port != "5432" || r.P(50) {
			sc.Env["DB_PORT"] = port
		}
		if r.P(8) { // the server's own machine
			host = pick(r, "/var/run/postgresql", "/tmp/my sockets")
			d.Addr = host + "/.s.PGSQL." + port
			sc.Env["DB_HOST"] = host
		}
		switch r.N(4) {
		case 0:
			sc.Env["DB_SEARCH_PATH"] = "public"
		case 1:
			schema = pick(r, "app", "app", "my_app", "tenant_12", "application")
			sc.Env["DB_SEARCH_PATH"] = schema
			sc.Env["DB_PARAM_TEXT"] = "search_path=" + schema
		}
	case "hasura":
		d.Addr = pick(r, "localhost:8081", "hasura.internal:80")
		d.Secret = "adm1n-S3cret"
		if r.P(30) {
			d.BasePath = pick(r, "/base", "/a/b", "/h%20x")
		}
		scheme, port := "http://", ":80"
		if d.TLS = o.tls && r.P(50); d.TLS {
			d.Addr = pick(r, "localhost:8443", "hasura.internal:443")
			scheme, port = "https://", ":443"
			sc.Env["SSL_CERT_FILE"] = "@SCRATCH@/ca.pem"
		}
		sc.Env["HASURA_URL"] = scheme + strings.TrimSuffix(d.Addr, port) + d.BasePath
		d.BasePath = strings.ReplaceAll(d.BasePath, "%20", " ")
		if r.P(20) {
			sc.Env["HASURA_URL"] += "/"
		}
		sc.Env["HASURA_ADMIN_SECRET"] = d.Secret
	}
	d.Schema = schema
	d.Tables = genSchema(r, o, schema)
	sql, exp := genQuery(r, o, d.Tables)
	sc.Truth.Expect, sc.Truth.Known = exp, true
	if o.cmd == "hasura" {
		d.SQL = sql
		d.Query = "query " + pick(r, "A", "Q1") + " { " + d.Tables[0].Name + "(where: {x: {_eq: \"" + pick(r, "v", "</script>", "日本") + "\"}}) { id } }"
		if r.P(40) {
			d.Query = "query Q($e: String) { " + d.Tables[0].Name + "(where: {email: {_eq: $e}}) { id } }"
			v := map[string]any{"e": pick(r, "a@b.c", "</script>", "日本\"x")}
			if r.P(30) {
				v["n"] = json.Number(pick(r, awkwardNumbers...))
				v["o"] = map[string]any{"k": []any{json.Number(pick(r, awkwardNumbers...)), "z", nil, true}}
			}
			b, _ := json.Marshal(v)
			d.Vars = string(b)
		}
		if r.P(30) {
			d.Query = strings.NewReplacer("{ ", "{\n  ", " }", pick(r, "\n}\n", "\r\n\t}"), "(where", pick(r, "  (where", "\n(where", " # x\n  (where"), "{_eq: \"v\"}", "{_eq: \"v  w\"}").Replace(d.Query)
		}
	} else {
		d.Query = sql
	}
	if o.existing {
		genExisting(r, d, exp)
	}
	if o.decoys {
		genDecoys(r, d, exp)
	}
	if o.cmd == "mysql" {
		d.Plan = genMyPlan(r, r.Range(1, 6), false)
	} else {
		d.Plan = genPgPlan(r, r.Range(1, 6), pick(r, 0, 1, 2))
	}
	sc.DB = d
	sc.rebuildArgs(false, nil)
	return sc
}

func genExisting(r *Rng, d *DBSpec, exp []IdxT) {
	// index names are unique per table in MySQL and per schema in PostgreSQL
	shared := d.Flavor == "mysql" && r.P(60)
	for i := range d.Tables {
		t := &d.Tables[i]
		var cols []string
		for _, c := range t.Cols {
			if !c.Dropped {
				cols = append(cols, c.Name)
			}
		}
		n := r.Range(0, 3)
		for k := 0; k < n; k++ {
			var cs []string
			if r.P(60) {
				var cand []IdxT
				for _, e := range exp {
					if e.Table == t.Name {
						cand = append(cand, e)
					}
				}
				if len(cand) > 0 {
					cs = append(cs, cand[r.N(len(cand))].Cols...)
				}
			}
			if cs == nil {
				x := append([]string(nil), cols...)
				shuffle(r, x)
				cs = x[:r.Range(1, minInt(3, len(x)))]
			}
			if r.P(10) {
				cs = append(cs, "") // expression part
			} else if r.P(5) {
				cs = []string{""}
			}
			nm := fmt.Sprintf("idx_%s_%d", t.Name, k)
			if shared {
				nm = fmt.Sprintf("%s_%d", pick(r, "idx", "idx", "IDX", "uk"), k)
			}
			dup := false
			for _, x := range t.Indexes {
				if strings.EqualFold(x.Name, nm) {
					dup = true
				}
			}
			if !dup {
				t.Indexes = append(t.Indexes, IndexSpec{Name: nm, Cols: cs, Unique: r.P(20)})
			}
		}
	}
}

// genDecoys adds same-named tables in another schema, with other columns and with indexes that
// must not influence the answer, and unrelated tables in the configured schema.
func genDecoys(r *Rng, d *DBSpec, exp []IdxT) {
	other := "other"
	if d.Flavor == "mysql" {
		other = "otherdb"
	}
	for _, t := range append([]TableSpec(nil), d.Tables...) {
		if !r.P(50) {
			continue
		}
		dt := TableSpec{Schema: other, Name: t.Name, Cols: []ColSpec{{Name: "id"}, {Name: "decoy_col", PK: true}}}
		for _, c := range t.Cols {
			if r.P(60) && !c.Dropped && c.Name != "id" {
				dt.Cols = append(dt.Cols, ColSpec{Name: c.Name, PK: r.P(30)})
			}
		}
		for k, e := range exp {
			if e.Table == t.Name && r.P(50) && k < 5 {
				ok := true
				for _, c := range e.Cols {
					has := false
					for _, dc := range dt.Cols {
						if dc.Name == c {
							has = true
						}
					}
					ok = ok && has
				}
				if ok {
					dt.Indexes = append(dt.Indexes, IndexSpec{Name: fmt.Sprintf("decoy_%d", k), Cols: e.Cols})
				}
			}
		}
		d.Tables = append(d.Tables, dt)
	}
	if r.P(40) {
		dt := TableSpec{Schema: d.Schema, Name: "unrelated", Cols: []ColSpec{{Name: "id", PK: true}, {Name: "name"}, {Name: "email"}}}
		dt.Indexes = append(dt.Indexes, IndexSpec{Name: "unrelated_idx", Cols: []string{"name"}})
		d.Tables = append(d.Tables, dt)
	}
	if r.P(30) {
		shuffle(r, d.Tables)
	}
}

// rebuildArgs sets the command line.
func (sc *Scenario) rebuildArgs(examine bool, idx []string) {
	d := sc.DB
	var a []string
	switch sc.Cmd {
	case "mysql":
		a = []string{"db", "suggest", "mysql"}
	case "postgres":
		a = []string{"db", "suggest", "postgres"}
	case "hasura":
		a = []string{"db", "suggest", "hasura", "postgres"}
	}
	a = append(a, "-o", sc.OutName, "-q", d.Query)
	if sc.Cmd == "hasura" && d.Vars != "" {
		a = append(a, "--json-variables", d.Vars)
	}
	if examine {
		a = append(a, "--with-examine")
	}
	for _, i := range idx {
		a = append(a, "-i", i)
	}
	sc.Args = a
}

func (sc *Scenario) examining() bool {
	for _, a := range sc.Args {
		if a == "--with-examine" {
			return true
		}
	}
	return false
}

func plainWord(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (i IdxT) safe() bool {
	if !plainWord(i.Table) {
		return false
	}
	for _, c := range i.Cols {
		if !plainWord(c) {
			return false
		}
	}
	return true
}

// realTables are the tables the tool is configured to look at.
func (sc *Scenario) realTables() []TableSpec {
	var out []TableSpec
	for _, t := range sc.DB.Tables {
		if t.Schema == sc.DB.Schema {
			out = append(out, t)
		}
	}
	return out
}

// examineSetup turns a scenario into an examination, with or without -i.
func (sc *Scenario) examineSetup(r *Rng, maxIdx int) {
	var idx []string
	sc.Truth.Requested = nil
	if r.P(65) {
		n := r.Range(1, maxIdx)
		for k := 0; k < n; k++ {
			ts := sc.realTables()
			var t *TableSpec
			for try := 0; try < 20; try++ {
				c := &ts[r.N(len(ts))]
				if plainWord(c.Name) {
					t = c
					break
				}
			}
			if t == nil {
				break
			}
			var cols []string
			for _, c := range t.Cols {
				if !c.Dropped && plainWord(c.Name) {
					cols = append(cols, c.Name)
				}
			}
			shuffle(r, cols)
			cols = cols[:r.Range(1, minInt(4, len(cols)))]
			if sc.Cmd != "mysql" && r.P(8) { // PostgreSQL takes a column twice
				cols = append(append([]string(nil), cols...), cols[r.N(len(cols))])
			}
			x := IdxT{t.Name, append([]string(nil), cols...)}
			if len(sc.Truth.Requested) > 0 && r.P(15) {
				x = sc.Truth.Requested[r.N(len(sc.Truth.Requested))]
			}
			sc.Truth.Requested = append(sc.Truth.Requested, x)
			idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
		}
	}
	sc.rebuildArgs(true, idx)
}

// examineFixed makes -i values of some of the expected candidates.
func (sc *Scenario) examineFixed(r *Rng) {
	var idx []string
	for k := r.Range(1, 5); k > 0; k-- {
		x := sc.Truth.Expect[r.N(len(sc.Truth.Expect))]
		if !x.safe() {
			continue
		}
		sc.Truth.Requested = append(sc.Truth.Requested, x)
		idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
	}
	sc.rebuildArgs(true, idx)
}

// distinctTimes gives every candidate index its own execution time, far apart from the others.
func (sc *Scenario) distinctTimes(r *Rng, step int64) {
	var ks []string
	seen := map[string]bool{}
	add := func(x IdxT) {
		if !seen[x.Key()] {
			seen[x.Key()] = true
			ks = append(ks, x.Key())
		}
	}
	for _, x := range sc.Truth.Requested {
		add(x)
	}
	for _, x := range sc.Truth.Expect {
		add(x)
	}
	slots := make([]int64, len(ks)+1)
	for i := range slots {
		slots[i] = step * int64(i+1)
	}
	shuffle(r, slots)
	sc.DB.IdxMs = map[string]int64{}
	for i, k := range ks {
		sc.DB.IdxMs[k] = slots[i]
	}
	sc.DB.ExecMs = slots[len(ks)]
}

// ---- plans

func genMyPlan(r *Rng, n int, rich bool) []string {
	titles := []string{"Nested loop inner join", "Filter: (t.name = 'a')", "Table scan on users", "Index lookup on tasks using user_id (user_id=users.id)",
		"Sort: users.created_at DESC, limit input to 10 row(s) per chunk", "Aggregate: count(users.id)", "Limit: 10 row(s)", "Hash", "Stream results",
		"Select #2 (subquery in condition; dependent)", "Filter: (users.email like '%(x)%')", "Single-row index lookup on u using PRIMARY (id=t.user_id)"}
	if rich {
		titles = append(titles, "Filter: (t.`description` = '</script>')", "Filter: (x.a = '日本語')", "Table scan on <temporary>", "Inner hash join (t2.a = t1.b)", "Rows fetched before execution")
	}
	var out []string
	depth := 0
	if rich && r.P(2) {
		return []string{"<not executable by iterator executor>"}
	}
	chain := 0
	if rich && r.P(25) { // deeply nested
		chain = 90
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			prev := depth
			depth = r.Range(1, depth+1)
			if r.P(chain) {
				depth = prev + 1
			}
			if r.P(5) && rich {
				depth = 0
			}
		}
		l := strings.Repeat("    ", depth) + "-> " + titles[r.N(len(titles))]
		switch r.N(6) {
		case 0:
			l += fmt.Sprintf("  (cost=%d.%02d..%d.%02d rows=%d)", r.N(100), r.N(100), r.N(10000), r.N(100), planFigure(r, 100000))
		case 1:
		case 2:
			l += fmt.Sprintf("  (cost=%d.%02d)", r.N(10000), r.N(100))
		default:
			l += fmt.Sprintf("  (cost=%d.%02d rows=%d)", planFigure(r, 100000), r.N(100), planFigure(r, 1000000))
		}
		switch r.N(6) {
		case 0:
			l += " (never executed)"
		case 1:
		default:
			l += fmt.Sprintf(" (actual time=%d.%03d..%d.%03d rows=%d loops=%d)", r.N(1000), r.N(1000), r.N(100000), r.N(1000), planFigure(r, 1000000), 1+planFigure(r, 5000))
		}
		out = append(out, l)
	}
	return out
}

// planFigure: mostly small, sometimes beyond what fits 32 bits.
func planFigure(r *Rng, n int) int64 {
	if r.P(5) {
		return pick(r, int64(1)<<31, 4294967296, 99999999999, 1234567890123) + int64(r.N(1000))
	}
	return int64(r.N(n))
}

// genPgPlan: summary 0 none, 1 Planning/Execution Time, 2 with Planning buffers and JIT.
func genPgPlan(r *Rng, n int, summary int) []string {
	titles := []string{"Seq Scan on users u", "Index Scan using users_pkey on users", "Nested Loop Left Join", "Hash Join", "Hash", "Sort", "Aggregate", "Limit",
		"Bitmap Heap Scan on tasks", "Gather Merge", "HashAggregate", "Append", "Index Only Scan using \"weird idx\" on todos t", "Materialize", "WindowAgg", "Function Scan on generate_series g", "Subquery Scan on _root.base"}
	infos := []string{"Filter: (name = 'a'::text)", "Rows Removed by Filter: 12", "Sort Key: u.created_at DESC", "Sort Method: quicksort  Memory: 25kB", "Buffers: shared hit=3 read=5",
		"Hash Cond: (t.user_id = u.id)", "Index Cond: (id = 3)", "Buckets: 1024  Batches: 1  Memory Usage: 9kB", "Heap Fetches: 0", "Group Key: u.name", "Workers Planned: 2", "One-Time Filter: false", "Join Filter: (a.x = '-> y: z'::text)", "Worker 0:  Sort Method: quicksort  Memory: 25kB", "Output: '</script>'::text",
		"Full-sort Groups: 2  Sort Method: quicksort  Average Memory: 27kB  Peak Memory: 27kB", "I/O Timings: shared/local read=0.104", "Hits: 3  Misses: 4  Evictions: 0  Overflows: 0  Memory Usage: 1kB", "Order By: (a <-> b)", "Filter: (name = 'a\n  -> b'::text)", "Filter: (name = 'a\tb  c'::text)", "Filter: (name = 'a\\tb'::text)"}
	met := func() string {
		s := fmt.Sprintf("  (cost=%d.%02d..%d.%02d rows=%d width=%d)", r.N(1000), r.N(100), planFigure(r, 100000), r.N(100), planFigure(r, 1000000), r.N(3000))
		switch r.N(6) {
		case 0:
			s += " (never executed)"
		case 1:
		default:
			s += fmt.Sprintf(" (actual time=%d.%03d..%d.%03d rows=%d loops=%d)", r.N(1000), r.N(1000), planFigure(r, 100000), r.N(1000), planFigure(r, 1000000), 1+planFigure(r, 500))
		}
		return s
	}
	var out []string
	type lv struct{ sp int }
	chain := 0
	if r.P(20) { // deeply nested
		chain = 90
	}
	stack := []int{0} // indentation of open nodes' text start
	for i := 0; i < n; i++ {
		sp := 0
		if i == 0 {
			out = append(out, titles[r.N(len(titles))]+met())
			stack = []int{0}
		} else {
			k := r.N(len(stack))
			if r.P(chain) {
				k = len(stack) - 1
			}
			stack = stack[:k+1]
			base := stack[k]
			ind := base + 2
			if r.P(15) {
				nm := pick(r, "CTE recent", "InitPlan 1 (returns $0)", "SubPlan 2")
				out = append(out, strings.Repeat(" ", ind)+nm)
				ind += 2
			}
			out = append(out, strings.Repeat(" ", ind)+"->  "+titles[r.N(len(titles))]+met())
			sp = ind + 4
			stack = append(stack, sp)
		}
		for k := r.Range(0, 3); k > 0; k-- {
			out = append(out, strings.Repeat(" ", stack[len(stack)-1]+2)+infos[r.N(len(infos))])
		}
	}
	switch summary {
	case 2:
		out = append(out, "Planning:", "  Buffers: shared hit=12", fmt.Sprintf("Planning Time: 0.%03d ms", r.N(1000)))
		for k := r.N(3); k > 0; k-- {
			out = append(out, "Trigger for constraint fk_user: time=0.010 calls=1")
		}
		out = append(out, "JIT:", "  Functions: 4", "  Options: Inlining false, Optimization false", fmt.Sprintf("Execution Time: %d.%03d ms", r.N(1000), r.N(1000)))
	case 1:
		out = append(out, fmt.Sprintf("Planning Time: 0.%03d ms", r.N(1000)), fmt.Sprintf("Execution Time: %d.%03d ms", r.N(1000), r.N(1000)))
	}
	return out
}
