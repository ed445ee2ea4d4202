package zzverifsim

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"time"
)

// ---- specification of the simulated database

type DBSpec struct {
	Flavor   string // mysql pg
	Addr     string
	User     string
	Password string
	DBName   string
	Auth     string // mysql: native sha2; pg: md5 clear trust
	Schema   string // schema (MySQL: database) the tool is configured to look at
	Tables   []TableSpec

	Query      string // the user's statement exactly as given with -q
	Plan       []string
	ExecMs     int64
	IdxMs      map[string]int64 // duration while exactly this trial index exists
	DDLMs      int64
	CatMs      int64
	ResultRows int
	Shuffle    uint64 // physical order of rows without ORDER BY

	// Hasura
	Secret   string
	BasePath string
	SQL      string
	Vars     string
	ExplainN int
	TLS      bool
}

type TableSpec struct {
	Schema  string
	Name    string
	Kind    string // r (table) v (view)
	Cols    []ColSpec
	Indexes []IndexSpec
}

type ColSpec struct {
	Name    string
	PK      bool
	Dropped bool `json:",omitempty"`
}

type IndexSpec struct {
	Schema  string
	Table   string
	Name    string
	Cols    []string // "" = expression
	Primary bool     `json:",omitempty"`
	Unique  bool     `json:",omitempty"`
}

type DBFinal struct {
	AtLookup  []IndexSpec // indexes present when the tool last read the existing indexes
	Indexes   []FinalIndex
	Mutations []string // statements other than index DDL of ours that changed something
}

type FinalIndex struct {
	IndexSpec
	Origin    string // pre actor tool
	Confirmed bool
}

type liveIndex struct {
	IndexSpec
	origin    string
	confirmed bool
	order     int
}

type dbState struct {
	w         *World
	spec      *DBSpec
	idx       []*liveIndex
	seq       int
	mutations []string
	ownNames  map[string]bool
	atLookup  []IndexSpec
}

type dbError struct {
	Code  string // SQLSTATE
	MyNo  int
	Msg   string
	Fatal bool
}

func (e *dbError) Error() string { return e.Msg }

func newDB(w *World, spec *DBSpec) *dbState {
	d := &dbState{w: w, spec: spec, ownNames: map[string]bool{}}
	for _, t := range spec.Tables {
		var pk []string
		for _, c := range t.Cols {
			if c.PK {
				pk = append(pk, c.Name)
			}
		}
		if len(pk) > 0 {
			n := "PRIMARY"
			if spec.Flavor == "pg" {
				n = t.Name + "_pkey"
			}
			d.add(IndexSpec{t.Schema, t.Name, n, pk, true, true}, "pre")
		}
		for _, x := range t.Indexes {
			x.Schema, x.Table = t.Schema, t.Name
			d.add(x, "pre")
		}
	}
	return d
}

func (d *dbState) add(x IndexSpec, origin string) *liveIndex {
	d.seq++
	l := &liveIndex{IndexSpec: x, origin: origin, order: d.seq}
	d.idx = append(d.idx, l)
	return l
}

func (d *dbState) mysql() bool { return d.spec.Flavor == "mysql" }

func (d *dbState) table(schema, name string) *TableSpec {
	for i := range d.spec.Tables {
		t := &d.spec.Tables[i]
		if t.Schema == schema && t.Name == name && t.Kind != "v" {
			return t
		}
	}
	return nil
}

func (d *dbState) ownIndexes() string {
	var s []string
	for _, l := range d.idx {
		if l.origin == "tool" {
			s = append(s, IdxT{l.Table, l.Cols}.Key())
		}
	}
	return strings.Join(s, " ")
}

func (d *dbState) final() *DBFinal {
	f := &DBFinal{Mutations: d.mutations, AtLookup: d.atLookup}
	for _, l := range d.idx {
		f.Indexes = append(f.Indexes, FinalIndex{l.IndexSpec, l.origin, l.confirmed})
	}
	return f
}

// ---- external actors

func (d *dbState) act(a *Action, stmt string) {
	w := d.w
	switch a.Op {
	case "addindex":
		x := a.Index
		for _, l := range d.idx {
			if l.Schema == x.Schema && l.Name == x.Name {
				return
			}
		}
		d.add(x, "actor")
		w.log(Event{Kind: "actor", Class: a.Op, Text: x.Name})
	case "clash":
		// somebody creates an index with the very name the tool is about to use
		dd := parseIndexDDL(stmt, d.mysql())
		if dd == nil {
			return
		}
		if !dd.create {
			if d.ownNames[dd.name] {
				return
			}
			for _, l := range d.idx {
				if l.Name == dd.name {
					return
				}
			}
		}
		x := a.Index
		x.Name = dd.name
		if x.Schema == "" {
			x.Schema = d.spec.Schema
		}
		d.add(x, "actor")
		w.log(Event{Kind: "actor", Class: a.Op, Text: x.Name})
	case "dropown":
		for i, l := range d.idx {
			if l.origin == "tool" {
				d.idx = append(d.idx[:i:i], d.idx[i+1:]...)
				w.log(Event{Kind: "actor", Class: a.Op, Text: l.Name})
				return
			}
		}
	case "dropindex":
		for i, l := range d.idx {
			if l.origin == "pre" && !l.Primary && l.Name == a.Index.Name && l.Table == a.Index.Table {
				d.idx = append(d.idx[:i:i], d.idx[i+1:]...)
				w.log(Event{Kind: "actor", Class: a.Op, Text: l.Name})
				return
			}
		}
	}
	w.fired["actor_"+a.Op]++
}

// ---- statement classification

type indexDDL struct {
	create bool
	schema string
	table  string
	name   string
	cols   []string
	ifx    bool
}

// parseIndexDDL understands CREATE/DROP INDEX and ALTER TABLE ADD/DROP INDEX.
func parseIndexDDL(stmt string, mysql bool) (d *indexDDL) {
	defer func() {
		if r := recover(); r != nil {
			d = nil
		}
	}()
	ts, err := sqlTokens(stmt, mysql)
	if err != nil {
		return nil
	}
	p := &sqlParser{t: ts, pg: !mysql}
	qname := func() (string, string) {
		n := p.ident()
		if p.op(".") {
			return n, p.ident()
		}
		return "", n
	}
	cols := func() (out []string) {
		p.wantOp("(")
		for {
			c := p.ident()
			if p.op("(") { // prefix length or expression
				for !p.op(")") {
					p.next()
				}
			}
			p.kw("asc")
			p.kw("desc")
			out = append(out, c)
			if !p.op(",") {
				break
			}
		}
		p.wantOp(")")
		return
	}
	d = &indexDDL{}
	switch {
	case p.kw("create"):
		p.kw("unique")
		p.wantKw("index")
		p.kw("concurrently")
		d.create = true
		if p.kw("if") {
			p.wantKw("not")
			p.wantKw("exists")
			d.ifx = true
		}
		_, d.name = qname()
		p.wantKw("on")
		p.kw("only")
		d.schema, d.table = qname()
		if p.kw("using") {
			p.ident()
		}
		d.cols = cols()
	case p.kw("drop"):
		p.wantKw("index")
		p.kw("concurrently")
		if p.kw("if") {
			p.wantKw("exists")
			d.ifx = true
		}
		d.schema, d.name = qname()
		if p.kw("on") {
			d.schema, d.table = qname()
		}
		p.kw("cascade")
		p.kw("restrict")
	case p.kw("alter"):
		p.wantKw("table")
		d.schema, d.table = qname()
		if p.kw("add") {
			if !p.kw("index") {
				p.wantKw("key")
			}
			d.create = true
			_, d.name = qname()
			if p.kw("using") {
				p.ident()
			}
			d.cols = cols()
		} else {
			p.wantKw("drop")
			if !p.kw("index") {
				p.wantKw("key")
			}
			_, d.name = qname()
		}
	default:
		return nil
	}
	// trailing options (ALGORITHM=..., LOCK=...) are accepted
	return d
}

var mutateRe = regexp.MustCompile(`(?i)\b(insert|update|delete|merge|replace|truncate|create|drop|alter|grant|revoke|call|do|copy|lock|rename|load|vacuum|reindex|cluster|refresh|comment|import|handler|optimize|repair)\b`)

func firstWord(s string, mysql bool) string {
	ts, err := sqlTokens(s, mysql)
	if err != nil {
		ts, _ = sqlTokens(strings.SplitN(strings.TrimSpace(s), " ", 2)[0], mysql)
	}
	for _, t := range ts {
		if t.k == "id" {
			return strings.ToLower(t.s)
		}
		if t.k == "op" && t.s == "(" {
			continue
		}
		break
	}
	return ""
}

// explained splits an EXPLAIN statement.
func explained(s string, mysql bool) (inner string, analyze bool, ok bool) {
	t := strings.TrimSpace(s)
	if len(t) < 8 || !strings.EqualFold(t[:7], "explain") {
		return "", false, false
	}
	t = strings.TrimLeft(t[7:], " \t\r\n")
	if strings.HasPrefix(t, "(") && !mysql {
		j := strings.Index(t, ")")
		if j < 0 {
			return "", false, false
		}
		opts := strings.ToLower(t[1:j])
		analyze = regexp.MustCompile(`\banalyze\b`).MatchString(opts) && !regexp.MustCompile(`\banalyze\s+(false|off|0)`).MatchString(opts)
		return t[j+1:], analyze, true
	}
	for {
		m := regexp.MustCompile(`(?i)^(analyze|verbose|extended|partitions|format\s*=\s*\w+)\b\s*`).FindString(t)
		if m == "" {
			break
		}
		if strings.HasPrefix(strings.ToLower(m), "analyze") {
			analyze = true
		}
		t = t[len(m):]
	}
	return t, analyze, true
}

func (d *dbState) classify(stmt string) string {
	my := d.mysql()
	if dd := parseIndexDDL(stmt, my); dd != nil {
		if dd.create {
			return "create"
		}
		return "drop"
	}
	if inner, an, ok := explained(stmt, my); ok {
		if an && d.mutates(inner) {
			return "mutate"
		}
		return "explain"
	}
	if strings.TrimSpace(stmt) == strings.TrimSpace(d.spec.Query) && !d.mutates(stmt) && firstWord(stmt, my) == "select" {
		return "exec"
	}
	switch firstWord(stmt, my) {
	case "select", "with", "values", "table":
		if d.mutates(stmt) {
			return "mutate"
		}
		l := strings.ToLower(stmt)
		if strings.Contains(l, "information_schema.statistics") || strings.Contains(l, "pg_get_indexdef") || strings.Contains(l, "pg_indexes") {
			return "indexes"
		}
		if strings.Contains(l, "information_schema.") || strings.Contains(l, "pg_attribute") || strings.Contains(l, "pg_class") {
			return "columns"
		}
		if !strings.Contains(l, "from") {
			return "other"
		}
		return "exec"
	case "set", "show", "begin", "commit", "rollback", "start", "use", "deallocate", "discard", "reset", "savepoint", "release", "":
		return "other"
	}
	return "mutate"
}

// mutates: does running stmt change data or schema? EXPLAIN ANALYZE in MySQL refuses
// single-table data changes, but runs multi-table ones.
func (d *dbState) mutates(stmt string) bool {
	switch firstWord(stmt, d.mysql()) {
	case "select", "values", "table":
		ts, _ := sqlTokens(stmt, d.mysql())
		for i, t := range ts {
			if t.k == "id" && strings.EqualFold(t.s, "into") && i > 0 {
				return true
			}
		}
		return false
	case "with":
		ts, _ := sqlTokens(stmt, d.mysql())
		for _, t := range ts {
			if t.k == "id" {
				switch strings.ToLower(t.s) {
				case "insert", "update", "delete", "merge":
					return true
				}
			}
		}
		return false
	case "set", "show", "explain", "begin", "commit", "rollback", "":
		return false
	}
	return mutateRe.MatchString(stmt)
}

// ---- catalogue relations

func (d *dbState) tableOID(t *TableSpec) int64 {
	for i := range d.spec.Tables {
		if &d.spec.Tables[i] == t {
			return int64(1000 + i)
		}
	}
	return 0
}

func (d *dbState) shuffleRel(r *rel, salt uint64) *rel {
	rg := NewRng(d.spec.Shuffle, salt)
	shuffle(rg, r.rows)
	return r
}

func (d *dbState) schemas() []string {
	m := map[string]bool{"pg_catalog": true}
	var out []string
	for _, t := range d.spec.Tables {
		if !m[t.Schema] {
			m[t.Schema] = true
			out = append(out, t.Schema)
		}
	}
	sort.Strings(out)
	return append(out, "pg_catalog")
}

func (d *dbState) nsOID(s string) int64 {
	for i, x := range d.schemas() {
		if x == s {
			return int64(50 + i)
		}
	}
	return 49
}

func (d *dbState) relation(schema, name string) *rel {
	n := strings.ToLower(name)
	sc := strings.ToLower(schema)
	if d.mysql() {
		if sc != "information_schema" {
			return nil
		}
		switch n {
		case "columns":
			r := &rel{cols: []string{"TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_KEY", "DATA_TYPE"}}
			for _, t := range d.spec.Tables {
				for i, c := range t.Cols {
					key := ""
					if c.PK {
						key = "PRI"
					} else {
						for _, l := range d.idx {
							if l.Schema == t.Schema && l.Table == t.Name && len(l.Cols) > 0 && l.Cols[0] == c.Name {
								if l.Unique && len(l.Cols) == 1 {
									key = "UNI"
								} else if key == "" {
									key = "MUL"
								}
							}
						}
					}
					r.rows = append(r.rows, []any{t.Schema, t.Name, c.Name, int64(i + 1), key, "varchar"})
				}
			}
			return d.shuffleRel(r, 1)
		case "statistics":
			r := &rel{cols: []string{"TABLE_SCHEMA", "TABLE_NAME", "INDEX_SCHEMA", "INDEX_NAME", "SEQ_IN_INDEX", "COLUMN_NAME", "NON_UNIQUE", "INDEX_TYPE"}}
			for _, l := range d.idx {
				for i, c := range l.Cols {
					var cn any = c
					if c == "" {
						cn = nil
					}
					r.rows = append(r.rows, []any{l.Schema, l.Table, l.Schema, l.Name, int64(i + 1), cn, bool2int(!l.Unique), "BTREE"})
				}
			}
			return d.shuffleRel(r, 2)
		case "tables":
			r := &rel{cols: []string{"TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE"}}
			for _, t := range d.spec.Tables {
				k := "BASE TABLE"
				if t.Kind == "v" {
					k = "VIEW"
				}
				r.rows = append(r.rows, []any{t.Schema, t.Name, k})
			}
			return d.shuffleRel(r, 3)
		}
		return nil
	}
	if sc != "" && sc != "pg_catalog" {
		return nil
	}
	switch n {
	case "pg_namespace":
		r := &rel{cols: []string{"oid", "nspname"}}
		for _, s := range d.schemas() {
			r.rows = append(r.rows, []any{d.nsOID(s), s})
		}
		return d.shuffleRel(r, 1)
	case "pg_class":
		r := &rel{cols: []string{"oid", "relname", "relnamespace", "relkind"}}
		for i := range d.spec.Tables {
			t := &d.spec.Tables[i]
			k := t.Kind
			if k == "" {
				k = "r"
			}
			r.rows = append(r.rows, []any{d.tableOID(t), t.Name, d.nsOID(t.Schema), k})
		}
		for _, l := range d.idx {
			r.rows = append(r.rows, []any{int64(5000 + l.order), l.Name, d.nsOID(l.Schema), "i"})
		}
		return d.shuffleRel(r, 2)
	case "pg_attribute":
		r := &rel{cols: []string{"attrelid", "attname", "attnum", "attisdropped"}}
		for i := range d.spec.Tables {
			t := &d.spec.Tables[i]
			oid := d.tableOID(t)
			for k, c := range t.Cols {
				nm := c.Name
				if c.Dropped {
					nm = fmt.Sprintf("........pg.dropped.%d........", k+1)
				}
				r.rows = append(r.rows, []any{oid, nm, int64(k + 1), c.Dropped})
			}
			if t.Kind != "v" {
				for k, s := range []string{"ctid", "xmin", "cmin", "xmax", "cmax", "tableoid"} {
					r.rows = append(r.rows, []any{oid, s, int64(-k - 1), false})
				}
			}
		}
		for _, l := range d.idx {
			for k, c := range l.Cols {
				if c == "" {
					c = "expr"
				}
				r.rows = append(r.rows, []any{int64(5000 + l.order), c, int64(k + 1), false})
			}
		}
		return d.shuffleRel(r, 3)
	case "pg_index":
		r := &rel{cols: []string{"indexrelid", "indrelid", "indisprimary", "indisunique", "indisvalid", "indkey", "indnatts"}}
		for _, l := range d.idx {
			t := d.table(l.Schema, l.Table)
			if t == nil {
				continue
			}
			var key []int64
			for _, c := range l.Cols {
				k := int64(0)
				for j, tc := range t.Cols {
					if tc.Name == c && c != "" {
						k = int64(j + 1)
					}
				}
				key = append(key, k)
			}
			r.rows = append(r.rows, []any{int64(5000 + l.order), d.tableOID(t), l.Primary, l.Unique, true, key, int64(len(key))})
		}
		return d.shuffleRel(r, 4)
	}
	return nil
}

var plainIdent = regexp.MustCompile(`^[a-z_][a-z0-9_$]*$`)

var pgKeywords = map[string]bool{"order": true, "user": true, "group": true, "select": true, "table": true, "where": true, "limit": true, "desc": true, "end": true, "all": true, "from": true, "to": true, "check": true, "default": true, "offset": true}

func pgQuoteIdent(s string) string {
	if plainIdent.MatchString(s) && !pgKeywords[s] {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

func (d *dbState) call(fn string, args []any) (any, bool) {
	switch fn {
	case "pg_get_indexdef":
		oid, _ := args[0].(int64)
		for _, l := range d.idx {
			if int64(5000+l.order) != oid {
				continue
			}
			if len(args) == 1 {
				return "CREATE INDEX " + l.Name, true
			}
			k, _ := args[1].(int64)
			if k < 1 || int(k) > len(l.Cols) {
				return "", true
			}
			if l.Cols[k-1] == "" {
				return "lower((email)::text)", true
			}
			return pgQuoteIdent(l.Cols[k-1]), true
		}
		return nil, true
	case "pg_get_expr", "format_type", "obj_description":
		return nil, true
	case "database", "current_database":
		return d.spec.DBName, true
	case "schema":
		return d.spec.DBName, true
	case "current_schema":
		return "public", true
	}
	return nil, false
}

// ---- executing one statement

type dbResult struct {
	cols []string
	typs []string
	rows [][]any
	tag  string
	own  *liveIndex // created by this statement
}

// run executes a single statement after its faults were decided.
func (d *dbState) run(class, stmt string, params []any, searchPath string) (*dbResult, *dbError) {
	w := d.w
	my := d.mysql()
	switch class {
	case "create", "drop":
		dd := parseIndexDDL(stmt, my)
		if d.spec.DDLMs > 0 {
			time.Sleep(time.Duration(d.spec.DDLMs) * time.Millisecond)
		}
		sch := dd.schema
		if sch == "" {
			sch = d.resolve(dd, searchPath)
		}
		if dd.create {
			t := d.table(sch, dd.table)
			if t == nil {
				return nil, &dbError{Code: "42P01", MyNo: 1146, Msg: fmt.Sprintf("relation %q does not exist", dd.table)}
			}
			for _, c := range dd.cols {
				ok := false
				for _, tc := range t.Cols {
					if !tc.Dropped && (tc.Name == c || my && strings.EqualFold(tc.Name, c)) {
						ok = true
					}
				}
				if !ok {
					return nil, &dbError{Code: "42703", MyNo: 1072, Msg: fmt.Sprintf("column %q does not exist", c)}
				}
			}
			for _, l := range d.idx {
				if l.Schema == sch && strings.EqualFold(l.Name, dd.name) && (!my || l.Table == dd.table) {
					if dd.ifx {
						return &dbResult{tag: "CREATE INDEX"}, nil
					}
					return nil, &dbError{Code: "42P07", MyNo: 1061, Msg: fmt.Sprintf("relation %q already exists", dd.name)}
				}
			}
			if my {
				seen := map[string]bool{}
				for _, c := range dd.cols {
					if seen[strings.ToLower(c)] {
						return nil, &dbError{Code: "42S21", MyNo: 1060, Msg: "Duplicate column name '" + c + "'"}
					}
					seen[strings.ToLower(c)] = true
				}
			}
			cols := dd.cols
			if my {
				cols = declared(d.spec.Tables, sch, dd.table, cols)
			}
			l := d.add(IndexSpec{sch, dd.table, dd.name, cols, false, false}, "tool")
			d.ownNames[dd.name] = true
			return &dbResult{tag: "CREATE INDEX", own: l}, nil
		}
		for i, l := range d.idx {
			if l.Schema == sch && (l.Name == dd.name || my && strings.EqualFold(l.Name, dd.name)) && (!my || l.Table == dd.table) {
				if l.origin != "tool" {
					w.log(Event{Kind: "foreign-drop", Text: l.Name})
				}
				d.idx = append(d.idx[:i:i], d.idx[i+1:]...)
				return &dbResult{tag: "DROP INDEX"}, nil
			}
		}
		if dd.ifx {
			return &dbResult{tag: "DROP INDEX"}, nil
		}
		return nil, &dbError{Code: "42704", MyNo: 1091, Msg: fmt.Sprintf("index %q does not exist", dd.name)}
	case "explain":
		inner, an, _ := explained(stmt, my)
		if an {
			d.sleepExec()
		}
		_ = inner
		if my {
			return &dbResult{cols: []string{"EXPLAIN"}, typs: []string{"text"}, rows: [][]any{{strings.Join(d.spec.Plan, "\n") + "\n"}}}, nil
		}
		r := &dbResult{cols: []string{"QUERY PLAN"}, typs: []string{"text"}, tag: "EXPLAIN"}
		for _, l := range d.spec.Plan {
			r.rows = append(r.rows, []any{l})
		}
		return r, nil
	case "exec":
		d.sleepExec()
		r := &dbResult{cols: []string{"a", "b"}, typs: []string{"text", "text"}}
		for i := 0; i < d.spec.ResultRows; i++ {
			r.rows = append(r.rows, []any{fmt.Sprintf("row%d", i), "value"})
		}
		r.tag = fmt.Sprintf("SELECT %d", len(r.rows))
		return r, nil
	case "mutate":
		d.mutations = append(d.mutations, stmt)
		return &dbResult{tag: "DELETE 1"}, nil
	case "columns", "indexes":
		s, _, err := parseSelect(stmt, my)
		if err != nil && strings.Contains(err.Error(), "empty IN list") {
			return nil, &dbError{Code: "42601", MyNo: 1064, Msg: err.Error()}
		}
		if err != nil {
			w.note("catalogue query not understood: " + err.Error() + ": " + stmt)
			return nil, &dbError{Code: "42601", MyNo: 1064, Msg: err.Error()}
		}
		if d.spec.CatMs > 0 {
			time.Sleep(time.Duration(d.spec.CatMs) * time.Millisecond)
		}
		if class == "indexes" {
			d.atLookup = []IndexSpec{}
			for _, l := range d.idx {
				d.atLookup = append(d.atLookup, l.IndexSpec)
			}
		}
		r, err := execSelect(s, params, d, my)
		if err != nil {
			w.note("catalogue query failed: " + err.Error() + ": " + stmt)
			return nil, &dbError{Code: "42601", MyNo: 1064, Msg: err.Error()}
		}
		out := &dbResult{cols: r.cols, rows: r.rows, tag: fmt.Sprintf("SELECT %d", len(r.rows))}
		for _, it := range s.items {
			out.typs = append(out.typs, resultType(it.e))
		}
		return out, nil
	}
	// other
	if firstWord(stmt, my) == "select" {
		return &dbResult{cols: []string{"x"}, typs: []string{"int"}, rows: [][]any{{int64(1)}}, tag: "SELECT 1"}, nil
	}
	return &dbResult{tag: strings.ToUpper(firstWord(stmt, my))}, nil
}

// resolve finds the schema of an unqualified table (create) or index (drop) along the search path.
func (d *dbState) resolve(dd *indexDDL, searchPath string) string {
	var first string
	for i, s := range strings.Split(searchPath, ",") {
		s = strings.Trim(strings.TrimSpace(s), `"`)
		if i == 0 {
			first = s
		}
		if dd.create || d.mysql() {
			if d.table(s, dd.table) != nil {
				return s
			}
			continue
		}
		for _, l := range d.idx {
			if l.Schema == s && l.Name == dd.name {
				return s
			}
		}
	}
	return first
}

func (d *dbState) execDur() time.Duration {
	ms := d.spec.ExecMs
	var own []*liveIndex
	for _, l := range d.idx {
		if l.origin == "tool" {
			own = append(own, l)
		}
	}
	if len(own) == 1 {
		if v, ok := d.spec.IdxMs[(IdxT{own[0].Table, own[0].Cols}).Key()]; ok {
			ms = v
		} else {
			ms = ms/2 + 3
		}
	} else if len(own) > 1 {
		ms = 17
	}
	return time.Duration(ms) * time.Millisecond
}

func (d *dbState) sleepExec() { time.Sleep(d.execDur()) }

// ---- faults of one request

type decision struct {
	fault       *Fault
	err         *dbError
	resetBefore bool
	resetAfter  bool
	cutAt       int // bytes of the reply that still get out; -1 = all
	errMid      bool
	idleClose   bool
	status      int
	location    string // of a redirect
	badBody     string
	partial     bool
	noRows      bool
}

const emptyBody = "\x00empty"

// errKinds are the server errors of the "err" fault, chosen by its Arg.
var errKinds = []dbError{
	{Code: "57014", MyNo: 1317, Msg: "injected: query execution was interrupted"},
	{Code: "42501", MyNo: 1142, Msg: "injected: permission denied"},
	{Code: "42P01", MyNo: 1146, Msg: "injected: relation does not exist"},
	{Code: "55P03", MyNo: 1205, Msg: "injected: lock wait timeout exceeded"},
	{Code: "40P01", MyNo: 1213, Msg: "injected: deadlock found when trying to get lock"},
	{Code: "53200", MyNo: 1041, Msg: "injected: out of memory"},
	{Code: "42P07", MyNo: 1061, Msg: "injected: duplicate key name"},
	{Code: "42703", MyNo: 1072, Msg: "injected: key column doesn't exist"},
	{Code: "42704", MyNo: 1091, Msg: "injected: can't drop; check that column/key exists"},
	{Code: "25006", MyNo: 1290, Msg: "injected: read only"},
	{Code: "0A000", MyNo: 1235, Msg: "injected: not supported"},
	{Code: "54011", MyNo: 1071, Msg: "injected: key was too long"},
}

// admit registers a request, runs the actors scheduled before it and decides its fault.
func (w *World) admit(class, text string) (nth int, dec decision) {
	nth = w.counts[class]
	w.counts[class]++
	dec.cutAt = -1
	ev := Event{Kind: "req", Class: class, Nth: nth, Text: text}
	if w.db != nil {
		for i := range w.sc.Actors {
			a := &w.sc.Actors[i]
			if a.Class == class && a.Nth == nth {
				w.db.act(a, text)
			}
		}
		ev.Idx = w.db.ownIndexes()
		if class == "exec" || class == "explain" {
			ev.Dur = int64(w.db.execDur())
		}
	}
	w.log(ev)
	for i := range w.sc.Faults {
		f := &w.sc.Faults[i]
		if f.Class != class || (f.Nth != nth && f.Nth >= 0) {
			continue
		}
		w.fire(f)
		switch f.Kind {
		case "stall":
			time.Sleep(time.Duration(f.Arg) * time.Millisecond)
			continue
		case "err":
			k := errKinds[int(f.Arg)%len(errKinds)]
			if class == "drop" && k.MyNo == 1091 { // would claim that the index is gone
				k = errKinds[0]
			}
			dec.err = &k
			if f.Text != "" {
				dec.err.Msg = f.Text
			}
		case "fatal":
			dec.err = &dbError{Code: "57P01", MyNo: 1053, Msg: "injected: terminating connection due to administrator command", Fatal: true}
		case "err_mid":
			dec.errMid = true
		case "reset_before":
			dec.resetBefore = true
			w.soft = f.Text == "fin"
		case "reset_after":
			dec.resetAfter = true
			w.soft = f.Text == "fin"
		case "cut":
			dec.cutAt = int(f.Arg)
			w.soft = f.Text == "fin"
		case "idle_close":
			dec.idleClose = true
		case "http_status":
			dec.status = int(f.Arg)
		case "redirect":
			dec.status, dec.location = int(f.Arg), f.Text
		case "bad_body":
			dec.badBody = f.Text
		case "no_rows":
			dec.noRows = true
		case "gql_errors", "gql_partial":
			dec.badBody, dec.partial = "gql_errors", f.Kind == "gql_partial"
		case "throttle", "denied": // AWS: handled by the server
		default:
			w.note("unknown fault kind " + f.Kind)
		}
		dec.fault = f
	}
	return nth, dec
}

func (w *World) done(class string, nth int, ok bool, text string) {
	ev := Event{Kind: "reply", Class: class, Nth: nth, Ok: ok, Text: text}
	w.log(ev)
}
