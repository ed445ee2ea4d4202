package zzverifsim

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "P03", Gen: genP03, Check: checkP03, Quick: 8000, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool { return true },
		Rule: "one simulated db suggest per seed whose query is not a single SELECT (data modification, DDL, several statements, executable comments, data-modifying CTEs, empty text; for Hasura mutations and documents with several fields), with random examination flags, server settings and faults; distinct by event history"})
	register(&Prop{ID: "P06", Gen: genP06, Check: checkP06, Quick: 10500, Thorough: 250000,
		Live: func(c *Case, outs []*Outcome) bool { return harmed(outs[0]) },
		Rule: "one simulated db suggest per seed with 1-3 harmful faults at random requests (refused or timed out dials, handshake errors, server errors, results breaking off midway, cut and reset connections, HTTP errors, malformed bodies, GraphQL errors); non-trivial: at least one harmful fault took effect; distinct by event history"})
	register(&Prop{ID: "P08", Gen: genP08, Check: checkP08, Quick: 3250, Thorough: 80000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].Exit == 0 },
		Rule: "three executions per seed of the same command against the same database, differing in map-iteration and select order, goroutine schedule, latency, fragmentation and closed idle connections; non-trivial: the command succeeded; distinct by event history"})
	register(&Prop{ID: "P09", Gen: genP09, Check: checkP09, Quick: 10500, Thorough: 250000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].Exit == 0 },
		Rule: "one simulated db suggest per seed over a random schema (composite and missing primary keys, dropped columns, existing and functional indexes, same-named tables in other schemas, quoted names) and a random query whose condition and referenced columns the generator records; other clients add or drop indexes before the lookup; compared with the reference enumeration of candidates; distinct by event history"})
	register(&Prop{ID: "P10", Gen: genP10, Check: checkP10, Quick: 10500, Thorough: 250000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].Exit == 0 },
		Rule: "one simulated db suggest per seed whose server returns a random plan (1-14 nodes, random nesting, CTE/InitPlan/SubPlan headings, info lines, with and without figures and summary), some with a fault in the middle of the plan; the report's tree is flattened and compared line by line, parent by parent and figure by figure; distinct by event history"})
}

// ---- P03

var notSelectMy = []string{
	"DELETE FROM users WHERE id = 1", "UPDATE users SET name = 'x'", "INSERT INTO users (name) VALUES ('a')", "REPLACE INTO users (id) VALUES (1)",
	"TRUNCATE TABLE users", "DROP TABLE users", "CREATE TABLE x (a INT)", "ALTER TABLE users ADD COLUMN z INT", "DROP INDEX i ON users",
	"SELECT name FROM users; DELETE FROM users", "DELETE FROM users; SELECT name FROM users", "SELECT name FROM users;; DROP TABLE users",
	"SELECT name FROM users; SELECT email FROM users", "SELECT name FROM users;UPDATE users SET name='a';SELECT name FROM users",
	"SELECT name FROM users /*! ; DELETE FROM users */", "SELECT name FROM users -- x\n; DROP TABLE users", "SELECT 'a;b' FROM users; DELETE FROM users",
	"SELECT name FROM users # note\n; DELETE FROM users",
	"UPDATE users u JOIN todos t ON t.user_id = u.id SET u.name = 'x'", "DELETE u FROM users u JOIN todos t ON t.user_id = u.id",
	"WITH x AS (SELECT 1 AS a) DELETE FROM users WHERE id IN (SELECT a FROM x)", "SET GLOBAL max_connections = 1", "DO SLEEP(1)", "CALL p()",
	"", ";", "   ", "-- nothing", "/* nothing */", "INSERT INTO users SELECT * FROM todos", "SHOW TABLES", "LOCK TABLES users WRITE", "GRANT ALL ON *.* TO x",
	"(SELECT name FROM users); DROP TABLE users", "DELETE FROM users -- SELECT", "/* SELECT */ DELETE FROM users", "delete from users", "SELECT name FROM users; -- c\nDELETE FROM users",
	"SELECT name FROM users WHERE name = '\\'; -- '; DELETE FROM users", "EXPLAIN SELECT name FROM users; DELETE FROM users",
	"SELECT name FROM users INTO OUTFILE '/tmp/x'", "garbage", "SELECT FROM WHERE",
}

var notSelectPg = []string{
	"DELETE FROM users WHERE id = 1", "UPDATE users SET name = 'x'", "INSERT INTO users (name) VALUES ('a')", "TRUNCATE TABLE users", "DROP TABLE users",
	"CREATE TABLE x (a INT)", "ALTER TABLE users ADD COLUMN z INT", "CREATE INDEX i ON users (name)", "DROP INDEX users_pkey",
	"SELECT name FROM users; DELETE FROM users", "DELETE FROM users; SELECT name FROM users", "SELECT name FROM users;; DROP TABLE users",
	"SELECT name FROM users; SELECT email FROM users", "SELECT name FROM users;UPDATE users SET name='a';SELECT name FROM users",
	"SELECT name FROM users -- x\n; DROP TABLE users", "SELECT 'a;b' FROM users; DELETE FROM users", "SELECT name FROM users /* ; */ ; DELETE FROM users",
	"WITH d AS (DELETE FROM users RETURNING id) SELECT id FROM d", "WITH d AS (INSERT INTO users (name) VALUES ('a') RETURNING id) SELECT id FROM d",
	"WITH d AS (UPDATE users SET name = 'b' RETURNING id) SELECT users.name FROM users JOIN d ON d.id = users.id",
	"WITH a AS (SELECT id FROM users), d AS (DELETE FROM todos RETURNING id) SELECT id FROM a",
	"WITH x AS (SELECT 1 AS a) DELETE FROM users WHERE id IN (SELECT a FROM x)",
	"", ";", "   ", "-- nothing", "/* nothing */", "INSERT INTO users SELECT * FROM todos", "SET search_path = x", "COPY users TO '/tmp/x'", "GRANT ALL ON users TO x",
	"BEGIN", "(SELECT name FROM users); DROP TABLE users", "DELETE FROM users -- SELECT", "/* SELECT */ DELETE FROM users", "delete from users",
	"INSERT INTO users (name) VALUES ('a') RETURNING id", "SELECT name FROM users WHERE name = 'x\\'; DELETE FROM users; --'", "DO $$ BEGIN DELETE FROM users; END $$", "REFRESH MATERIALIZED VIEW v",
	"VACUUM users", "CALL p()", "SELECT name INTO copied FROM users", "TABLE users; DELETE FROM users", "VALUES (1); DELETE FROM users", "WITH a AS (WITH b AS (DELETE FROM users RETURNING id) SELECT id FROM b) SELECT id FROM a",
	"SELECT id FROM (SELECT 1 AS id) x; INSERT INTO users (name) VALUES ('a')", "EXPLAIN ANALYZE DELETE FROM users", "garbage", "SELECT FROM WHERE",
}

var notReadGql = []string{
	"mutation { delete_users(where: {}) { affected_rows } }", "mutation M { update_users(where: {}, _set: {name: \"x\"}) { affected_rows } }",
	"# query\nmutation { delete_users(where: {}) { affected_rows } }", "query A { users { id } } mutation B { delete_users(where: {}) { affected_rows } }",
	"mutation query { insert_users(objects: []) { affected_rows } }", "  mutation{delete_users(where:{}){affected_rows}}",
}

var leadMy = []string{"SET NAMES utf8mb4", "SET @a = 1", "SET SESSION sql_mode = ''", "SET SESSION max_execution_time=1000", "BEGIN", "START TRANSACTION", "USE appdb", "SELECT 1", "SHOW TABLES", "COMMIT",
	"UPDATE users SET a = 1", "DELETE FROM users", "INSERT INTO users (a) VALUES (1)", "TRUNCATE TABLE users", "ANALYZE TABLE users", "FLUSH TABLES", "CREATE TABLE zz (a INT)", "DROP TABLE users", "ALTER TABLE users DROP COLUMN a", "SELECT 2 FROM users"}
var leadPg = []string{"SET work_mem = '64MB'", "SET search_path TO app", "SET enable_seqscan = off", "SET TIME ZONE 'UTC'", "SET SESSION statement_timeout = 0", "BEGIN", "START TRANSACTION", "SELECT 1", "SHOW work_mem", "COMMIT", "ROLLBACK",
	"UPDATE users SET a = 1", "DELETE FROM users", "INSERT INTO users (a) VALUES (1)", "TRUNCATE TABLE users", "ANALYZE users", "EXPLAIN SELECT 1", "CREATE TABLE zz (a INT)", "DROP TABLE users", "ALTER TABLE users DROP COLUMN a", "SELECT 2 FROM users", "PREPARE p AS SELECT 1", "DISCARD ALL", "RESET ALL"}

// severalStatements puts a good query among other statements, in any position.
func severalStatements(r *Rng, cmd string, d *DBSpec) string {
	good, _ := genQuery(r, dbOpts{cmd: cmd, maxTabs: 2, maxCols: 2}, d.Tables)
	other := leadMy
	if cmd != "mysql" {
		other = leadPg
	}
	good = strings.TrimRight(good, "; \n")
	if strings.HasSuffix(good, "end") { // a comment to the end of the line
		good += "\n"
	}
	parts := []string{good}
	for k := pick(r, 1, 1, 2, 3); k > 0; k-- {
		if r.P(50) {
			parts = append([]string{pick(r, other...)}, parts...)
		} else {
			parts = append(parts, pick(r, other...))
		}
	}
	q := parts[0]
	for _, p := range parts[1:] {
		q += pick(r, ";", "; ", ";\n", " ; /* x */ ", ";-- x\n", ";;", "; ; ") + p
	}
	return q + pick(r, "", "", ";", " ;\n", " -- end", " /* end */")
}

func genP03(r *Rng, seed uint64) *Case {
	cmd := pick(r, "mysql", "mysql", "postgres", "postgres", "hasura")
	sc := genDB(r, "P03", seed, dbOpts{cmd: cmd, maxTabs: 2, maxCols: 2})
	d := sc.DB
	if d.Tables[0].Name == "" {
		return nil
	}
	ex := r.P(50)
	var idx []string
	t := d.Tables[0]
	if ex && r.P(60) && plainWord(t.Name) {
		idx = append(idx, t.Name+":"+t.Cols[0].Name)
	}
	switch cmd {
	case "hasura":
		switch r.N(4) {
		case 0:
			d.ExplainN = pick(r, 2, 3, -1)
		default:
			d.Query = pick(r, notReadGql...)
			d.Vars = ""
		}
	case "mysql":
		d.Query = pick(r, notSelectMy...)
		if r.P(60) {
			sc.Env["DB_PARAM_TEXT"] = "multiStatements=true"
		}
		if r.P(45) {
			d.Query = severalStatements(r, cmd, d)
		}
	default:
		d.Query = pick(r, notSelectPg...)
		if r.P(45) {
			d.Query = severalStatements(r, cmd, d)
		}
	}
	d.Query = strings.ReplaceAll(d.Query, "\x00", "")
	if plainWord(t.Name) && cmd != "hasura" {
		d.Query = strings.ReplaceAll(d.Query, "users", t.Name)
	}
	sc.rebuildArgs(ex, idx)
	sc.Truth = &Truth{NotSelect: true}
	oldReport(r, sc)
	if r.P(40) {
		cs := dbClasses(cmd, ex)
		for k := r.Range(1, 2); k > 0; k-- {
			sc.Faults = append(sc.Faults, genFault(r, cmd, cs[r.N(len(cs))], 2))
		}
	}
	return &Case{Scs: []*Scenario{sc}}
}

// single: after dropping empty statements it is one SELECT text after all ("SELECT ..;").
func checkP03(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if o.DB == nil {
		return nil
	}
	if len(o.DB.Mutations) > 0 {
		return viol("executed", "the query %q is not a single SELECT, but this part of it was executed: %.200q", sc.DB.Query, o.DB.Mutations[0])
	}
	rs := requests(o)
	if sc.Cmd == "hasura" {
		if x := ofClass(rs, "exec", "mutate", "create", "drop"); len(x) > 0 {
			return viol("executed", "the GraphQL document %q could not be explained as one read query, but %.200q was executed", sc.DB.Query, x[0].text)
		}
	} else if x := ofClass(rs, "exec", "mutate", "explain", "multi-refused", "create", "drop"); len(x) > 0 {
		return viol("reached", "the query %q is not a single SELECT, but it reached the database: %.200q", sc.DB.Query, x[0].text)
	}
	if q := strings.Trim(sc.DB.Query, "; \n\t"); len(q) > 5 && sc.Cmd != "hasura" {
		for _, r := range rs {
			if strings.Contains(r.text, q) {
				return viol("reached", "the query %q is not a single SELECT, but it reached the database: %.200q", sc.DB.Query, r.text)
			}
		}
	}
	if o.Exit == 0 {
		return viol("accepted", "the query %q is not a single SELECT, but the command succeeded", sc.DB.Query)
	}
	return nil
}

// ---- P06

func harmed(o *Outcome) bool {
	for k := range o.Fired {
		_, kind, _ := strings.Cut(k, "/")
		switch kind {
		case "stall", "slow", "idle_close", "step", "goaway":
		default:
			if !strings.HasPrefix(k, "actor") {
				return true
			}
		}
	}
	return false
}

func genP06(r *Rng, seed uint64) *Case {
	var sc *Scenario
	if r.P(60) {
		sc = genExam(r, "P06", seed, 3)
	} else {
		sc = genDB(r, "P06", seed, dbOpts{cmd: pick(r, dbCmds...), existing: r.P(50), decoys: r.P(30), subq: r.P(30), rich: r.P(30)})
	}
	sc.DB.ResultRows = pick(r, 0, 1, 3, 40, 40)
	oldReport(r, sc)
	cs := dbClasses(sc.Cmd, sc.examining())
	for k := pick(r, 1, 1, 1, 2, 2, 3); k > 0; k-- {
		cl := cs[r.N(len(cs))]
		n := 4
		if cl == "explain" || cl == "columns" || cl == "indexes" {
			n = 1
		}
		f := genFault(r, sc.Cmd, cl, n)
		if r.P(10) && cl != "dial" { // every attempt fails
			f.Nth = -1
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(4) {
		sc.Faults = append(sc.Faults, Fault{Kind: "down", Class: "backend", Arg: -1})
	}
	if r.P(30) {
		benign(r, sc, 4, 400)
	}
	return &Case{Scs: []*Scenario{sc}}
}

func checkP06(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if o.Hang {
		return nil
	}
	if o.Exit != 0 {
		return untouched(sc, o)
	}
	rs := requests(o)
	for i, r := range rs {
		if r.rep && r.ok || r.class == "handshake" || r.class == "multi-refused" {
			continue
		}
		// the very same statement has to follow
		ok := false
		for _, n := range rs[i+1:] {
			if n.class == "handshake" || n.class == "prepare" && r.class != "prepare" && n.text != r.text {
				continue
			}
			ok = n.text == r.text
			break
		}
		if !ok {
			return viol("failed-request-ignored", "%s request %d (%.120q) failed and was not repeated, yet the command succeeded", r.class, r.nth, r.text)
		}
	}
	need := map[string]int{}
	for _, r := range rs {
		if r.ok {
			need[r.class]++
		}
	}
	if need["explain"] == 0 || need["columns"] == 0 {
		return viol("missing-answer", "the command succeeded without having read the plan (%d answers) and the schema (%d answers)", need["explain"], need["columns"])
	}
	if sc.Truth.Known && len(sc.Truth.Expect) > 0 && need["indexes"] == 0 {
		return viol("missing-answer", "the command succeeded without having read the existing indexes")
	}
	if sc.examining() {
		if need["create"] != need["drop"] || need["exec"] != need["create"]+1 {
			return viol("missing-answer", "the examination succeeded although of its statements only these succeeded: %d creates, %d drops, %d runs of the query", need["create"], need["drop"], need["exec"])
		}
		if n := len(sc.Truth.Requested); n > 0 && need["create"] != n {
			return viol("missing-answer", "the examination of %d indexes succeeded although only %d could be created", n, need["create"])
		}
	}
	if sc.OutName != "" {
		if !o.HasOut {
			return viol("no-report", "the command succeeded but wrote no report")
		}
		if _, err := ParseReport(o.Out); err != nil {
			return viol("no-report", "the command succeeded but its report is not complete: %v", err)
		}
	}
	return nil
}

// ---- P08

func genP08(r *Rng, seed uint64) *Case {
	o := dbOpts{cmd: pick(r, dbCmds...), maxTabs: 4, maxCols: 3, existing: r.P(50), decoys: r.P(30), subq: r.P(60), rich: r.P(60), odd: r.P(20), using: true, ambiguous: r.P(40)}
	if r.P(30) {
		o.maxTabs, o.maxCols = 2, 5
	}
	sc := genDB(r, "P08", seed, o)
	if o.cmd == "mysql" {
		sc.DB.Plan = genMyPlan(r, r.Range(1, 8), true)
	} else {
		sc.DB.Plan = genPgPlan(r, r.Range(1, 8), r.N(3))
	}
	if r.P(30) {
		sc.examineSetup(r, 3)
	}
	cs := &Case{}
	for k := 0; k < 3; k++ {
		v := sc.Clone()
		if k > 0 {
			v.RandSeed, v.SchedSeed = r.U64()|1, r.U64()|1
			v.Net = genNet(r)
			v.DB.Shuffle = r.U64()
			benign(r, v, 4, 400)
		}
		cs.Scs = append(cs.Scs, v)
	}
	return cs
}

// normal form of a report without measured times
func normReport(b []byte) (string, error) {
	r, err := ParseReport(b)
	if err != nil {
		return "", err
	}
	var zero func(v any)
	zero = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			for k := range x {
				if k == "originalTimeMillis" || k == "executionTimeMillis" {
					x[k] = 0
				} else {
					zero(x[k])
				}
			}
		case []any:
			for _, e := range x {
				zero(e)
			}
		}
	}
	zero(r.raw)
	j, err := json.Marshal(r.raw)
	return string(j), err
}

func checkP08(c *Case, outs []*Outcome) *Violation {
	base := ""
	for i, o := range outs {
		if died(o) {
			if v := noAnswer(c.Scs[i], o); v != nil {
				return v
			}
		}
		if died(o) {
			return nil
		}
		if o.Exit != outs[0].Exit {
			return viol("exit-differs", "the same command against the same database exited with %d and %d depending on chance: %s / %s", outs[0].Exit, o.Exit, lastLines(outs[0].Stderr, 1), lastLines(o.Stderr, 1))
		}
		if o.Exit != 0 || !o.HasOut {
			continue
		}
		s, err := normReport(o.Out)
		if err != nil {
			return nil
		}
		if i == 0 {
			base = s
		} else if s != base {
			return viol("report-differs", "the same command against the same database gave different reports depending on chance: %s", firstDiff(base, s))
		}
	}
	return nil
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := maxInt(0, i-80)
	return fmt.Sprintf("...%s | ...%s", a[lo:minInt(len(a), i+80)], b[lo:minInt(len(b), i+80)])
}

// ---- P09

func genP09(r *Rng, seed uint64) *Case {
	o := dbOpts{cmd: pick(r, dbCmds...), maxTabs: r.Range(1, 4), maxCols: r.Range(1, 3), existing: r.P(60), decoys: r.P(40), subq: r.P(60), rich: r.P(70), odd: r.P(25)}
	if r.P(15) {
		o.maxCols, o.maxTabs = 5, 2
	} else if r.P(12) {
		o.maxCols, o.maxTabs = 2, 8
	} else if r.P(3) {
		o.maxCols, o.maxTabs = 6, 1
	}
	o.wide = o.maxCols <= 3 && r.P(6)
	sc := genDB(r, "P09", seed, o)
	if r.P(20) {
		sc.examineSetup(r, 2)
	}
	if r.P(25) { // others change indexes before the lookup
		for k := r.Range(1, 2); k > 0; k-- {
			cand := sc.Truth.Expect
			if len(cand) == 0 {
				break
			}
			x := cand[r.N(len(cand))]
			sc.Actors = append(sc.Actors, Action{Class: pick(r, "explain", "columns", "indexes"), Nth: 0, Op: "addindex",
				Index: IndexSpec{Schema: sc.DB.Schema, Table: x.Table, Name: "late_" + itoa(k), Cols: x.Cols}})
		}
	}
	if sc.Cmd != "mysql" && r.P(4) { // one of the relations is a view: whatever is answered, it cannot be indexed
		v := sc.DB.Tables[r.N(len(sc.DB.Tables))].Name
		for i := range sc.DB.Tables {
			if t := &sc.DB.Tables[i]; t.Name == v && t.Schema == sc.DB.Schema {
				t.Kind, t.Indexes = "v", nil
			}
		}
		sc.Actors = nil
		sc.rebuildArgs(false, nil)
		sc.Truth.Known = false
		sc.Truth.Extra = map[string]string{"view": v}
	}
	if sc.Truth.Known && r.P(3) { // a table of another schema having the name of one of the configured schema
		t := sc.DB.Tables[r.N(len(sc.DB.Tables))]
		if t.Schema == sc.DB.Schema && plainIdent.MatchString(t.Name) && !pgKeywords[t.Name] {
			other := pick(r, "public", "app", "other", "Public")
			if other == t.Schema || other == "app" && sc.Cmd == "mysql" {
				other = "audit"
			}
			cols := []ColSpec{}
			for _, c := range t.Cols {
				if plainIdent.MatchString(c.Name) && !pgKeywords[c.Name] {
					cols = append(cols, c)
				}
			}
			if len(cols) > 0 {
				if other == "Public" {
					other = "\"Public\""
					if sc.Cmd == "mysql" {
						other = "`Public`"
					}
				}
				c := func() string { return cols[r.N(len(cols))].Name }
				q := "SELECT " + pick(r, "", "x.") + c() + " FROM " + other + "." + t.Name + " AS x WHERE x." + c() + " = 1"
				if r.P(30) {
					q = "SELECT " + c() + " FROM " + other + "." + t.Name + " WHERE " + t.Name + "." + c() + " = 1"
				}
				if sc.Cmd == "hasura" {
					sc.DB.SQL = q
				} else {
					sc.DB.Query = q
				}
				sc.Actors = nil
				sc.rebuildArgs(false, nil)
				sc.Truth.Known = false
				sc.Truth.Extra = map[string]string{"foreign": t.Name}
			}
		}
	}
	benign(r, sc, 2, 300)
	return &Case{Scs: []*Scenario{sc}}
}

// expected suggestions given the indexes present at the lookup.
func expected(sc *Scenario, o *Outcome) []IdxT {
	var out []IdxT
	for _, x := range sc.Truth.Expect {
		has := false
		for _, l := range o.DB.AtLookup {
			if l.Schema != sc.DB.Schema || l.Table != x.Table || len(l.Cols) != len(x.Cols) {
				continue
			}
			same := true
			for i := range l.Cols {
				if l.Cols[i] != x.Cols[i] {
					same = false
				}
			}
			has = has || same
		}
		if !has {
			out = append(out, x)
		}
	}
	return out
}

func checkP09(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if sc.Truth.Known {
		if v := noAnswer(sc, o); v != nil {
			return v
		}
	}
	if died(o) || o.DB == nil {
		return nil
	}
	if v := sc.Truth.Extra["foreign"]; v != "" {
		if s := sug(sc, o); o.Exit == 0 && s != nil && len(s.Indexes) > 0 {
			return viol("foreign", "%s is suggested for %q, which does not read a table of the configured schema %s", s.Indexes[0].T().Key(), sqlOf(sc), sc.DB.Schema)
		}
		return nil
	}
	if v := sc.Truth.Extra["view"]; v != "" {
		if s := sug(sc, o); o.Exit == 0 && s != nil {
			for _, x := range s.Indexes {
				if x.T().Table == v {
					return viol("view", "%s is suggested for %q, but %s is a view", x.T().Key(), sqlOf(sc), v)
				}
			}
		}
		return nil
	}
	if !sc.Truth.Known {
		return nil
	}
	if o.Exit != 0 {
		return viol("failed", "the query %q over a healthy database was not answered: %s", sqlOf(sc), lastLines(o.Stderr, 2))
	}
	s := sug(sc, o)
	if s == nil {
		return nil
	}
	want := expected(sc, o)
	var got []IdxT
	for _, x := range s.Indexes {
		got = append(got, x.T())
	}
	wm, gm := map[string]bool{}, map[string]bool{}
	for _, x := range want {
		wm[x.Key()] = true
	}
	for _, x := range got {
		if gm[x.Key()] {
			return viol("duplicate", "%s is suggested twice for %q", x.Key(), sqlOf(sc))
		}
		gm[x.Key()] = true
		if !wm[x.Key()] {
			return viol("extra", "%s is suggested for %q, but should not be (expected: %s)", x.Key(), sqlOf(sc), keysOf(want))
		}
	}
	for _, x := range want {
		if !gm[x.Key()] {
			return viol("missing", "%s is not suggested for %q (suggested: %s)", x.Key(), sqlOf(sc), keysOf(got))
		}
	}
	if keysOf(got) != keysOf(want) {
		return viol("order", "suggestions are not ordered by table, number of columns and names: %s", keysOf(got))
	}
	return nil
}

func sqlOf(sc *Scenario) string {
	if sc.Cmd == "hasura" {
		return sc.DB.SQL
	}
	return sc.DB.Query
}

// ---- P10

func genP10(r *Rng, seed uint64) *Case {
	sc := genDB(r, "P10", seed, dbOpts{cmd: pick(r, dbCmds...), maxTabs: 2, maxCols: 1})
	n := r.Range(1, 14)
	if r.P(10) {
		n = r.Range(15, 40)
	}
	if sc.my() {
		sc.DB.Plan = genMyPlan(r, n, true)
	} else {
		sc.DB.Plan = genPgPlan(r, n, r.N(3))
	}
	if r.P(35) {
		f := Fault{Class: "explain", Nth: 0, Kind: pick(r, "err_mid", "cut", "cut", "reset_after")}
		if sc.Cmd == "hasura" && f.Kind == "err_mid" {
			f.Kind = "cut"
		}
		f.Arg = int64(r.N(1200))
		maybeFin(r, &f)
		sc.Faults = append(sc.Faults, f)
		if r.P(50) {
			f.Nth = -1
			sc.Faults[0] = f
		}
	} else {
		benign(r, sc, 2, 300)
	}
	return &Case{Scs: []*Scenario{sc}}
}

type planGroup struct {
	lines  []string
	indent int
	parent int
}

func indentOf(l string) int { return len(l) - len(strings.TrimLeft(l, " ")) }

var planName = regexp.MustCompile(`^\s*(CTE \S|InitPlan |SubPlan )`)
var arrowRe = regexp.MustCompile(`^\s*->  `)
var summaryRe = regexp.MustCompile(`^[A-Z][A-Za-z ]*:`)

// refPlan groups PostgreSQL plan lines into nodes with their parents, and the summary.
func refPlan(lines []string) ([]*planGroup, []string) {
	var gs []*planGroup
	var sum []string
	pend := false
	for i, l := range lines {
		if i > 0 && (sum != nil || summaryRe.MatchString(l)) {
			sum = append(sum, l)
			continue
		}
		start := i == 0 || planName.MatchString(l) || arrowRe.MatchString(l) && !pend
		pend = planName.MatchString(l)
		if start {
			gs = append(gs, &planGroup{indent: indentOf(l), parent: -1})
		}
		g := gs[len(gs)-1]
		g.lines = append(g.lines, l)
	}
	link(gs)
	return gs, sum
}

func link(gs []*planGroup) {
	for i, g := range gs {
		for j := i - 1; j >= 0; j-- {
			if gs[j].indent < g.indent {
				g.parent = j
				break
			}
		}
	}
}

type flatNode struct {
	n      *PlanNode
	parent int
}

func flatten(ns []*PlanNode, parent int, out *[]flatNode) {
	for _, n := range ns {
		*out = append(*out, flatNode{n, parent})
		flatten(n.Children, len(*out)-1, out)
	}
}

var estRe = regexp.MustCompile(`\(cost=(?:([\d.]+)\.\.)?([\d.]+?)(?: rows=(\d+))?(?: width=(\d+))?\)`)
var actRe = regexp.MustCompile(`\(actual time=([\d.]+?)\.\.([\d.]+) rows=(\d+) loops=(\d+)\)`)

func checkP10(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if v := noAnswer(sc, o); v != nil {
		return v
	}
	if died(o) {
		return nil
	}
	whole := false
	for _, r := range ofClass(requests(o), "explain") {
		whole = whole || r.ok
	}
	if o.Exit == 0 && !whole {
		return viol("partial-plan", "the plan never arrived completely, yet the command succeeded")
	}
	if o.Exit != 0 {
		return nil
	}
	s := sug(sc, o)
	if s == nil {
		return nil
	}
	var gs []*planGroup
	var sum []string
	if sc.my() {
		for _, l := range sc.DB.Plan {
			gs = append(gs, &planGroup{lines: []string{l}, indent: indentOf(l), parent: -1})
		}
		link(gs)
	} else {
		gs, sum = refPlan(sc.DB.Plan)
	}
	var fl []flatNode
	flatten(s.Nodes, -1, &fl)
	trim := func(t string) string {
		var ls []string
		for _, l := range strings.Split(t, "\n") {
			ls = append(ls, strings.TrimRight(l, " "))
		}
		return strings.Trim(strings.Join(ls, "\n"), "\n")
	}
	if len(fl) != len(gs) {
		return viol("node-count", "the server's plan has %d nodes, the report shows %d\nserver:\n%s\nreport:\n%s", len(gs), len(fl), strings.Join(sc.DB.Plan, "\n"), planText(fl))
	}
	for i, g := range gs {
		want := trim(strings.Join(g.lines, "\n"))
		got := trim(fl[i].n.Text)
		if sc.my() {
			want, got = strings.TrimSpace(want), strings.TrimSpace(got)
		}
		if want != got {
			return viol("text", "node %d of the plan reads %q, the server sent %q", i, got, want)
		}
		if fl[i].parent != g.parent {
			return viol("nesting", "node %d (%q) is shown under node %d, but belongs under node %d", i, strings.TrimSpace(g.lines[0]), fl[i].parent, g.parent)
		}
		if v := figures(i, g, fl[i].n, sc.my()); v != nil {
			return v
		}
	}
	if !sc.my() && trim(s.Summary) != trim(strings.Join(sum, "\n")) {
		return viol("summary", "the summary reads %q, the server sent %q", s.Summary, strings.Join(sum, "\n"))
	}
	return nil
}

func planText(fl []flatNode) string {
	s := ""
	for _, f := range fl {
		s += f.n.Text + "\n"
	}
	return s
}

func figures(i int, g *planGroup, n *PlanNode, my bool) *Violation {
	line := ""
	for _, l := range g.lines {
		if estRe.MatchString(l) || actRe.MatchString(l) {
			line = l
			break
		}
	}
	if line == "" {
		return nil
	}
	f := func(name, want string, got *float64) *Violation {
		w, _ := strconv.ParseFloat(want, 64)
		if want == "" {
			return nil
		}
		if got == nil || *got != w {
			g := "nothing"
			if got != nil {
				g = fmt.Sprint(*got)
			}
			return viol("figure", "node %d (%q): the server's %s is %s, the report shows %s", i, strings.TrimSpace(line), name, want, g)
		}
		return nil
	}
	in := func(p *int64) *float64 {
		if p == nil {
			return nil
		}
		v := float64(*p)
		return &v
	}
	if m := estRe.FindStringSubmatch(line); m != nil {
		for _, v := range []*Violation{f("initial cost", m[1], n.InitCost), f("cost", m[2], n.Cost), f("row estimate", m[3], in(n.Rows)), f("width", m[4], in(n.Width))} {
			if v != nil {
				return v
			}
		}
	} else if n.Cost != nil && *n.Cost != 0 {
		return viol("figure", "node %d (%q) shows a cost the server did not send", i, strings.TrimSpace(line))
	}
	if m := actRe.FindStringSubmatch(line); m != nil {
		for _, v := range []*Violation{f("time to the first row", m[1], n.First), f("time", m[2], n.Avg), f("row count", m[3], in(n.ActRows)), f("loop count", m[4], in(n.Loops))} {
			if v != nil {
				return v
			}
		}
	} else if n.Avg != nil && *n.Avg != 0 {
		return viol("figure", "node %d (%q) shows a time the server did not send", i, strings.TrimSpace(line))
	}
	return nil
}

var _ = reflect.DeepEqual
