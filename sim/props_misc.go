package zzverifsim

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "P07", Gen: genP07, Check: checkP07, Quick: 6500, Thorough: 150000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].Exit == 0 || len(outs[0].Events) > 4 },
		Rule: "one simulated run of one of the five report-writing commands per seed with awkward texts everywhere (markup, quotes, line separators, non-ASCII, template and format directives), an older, sometimes much longer file at the output path, and in most runs one disk fault (open, full disk or I/O error after any byte, error reported at close); non-trivial: the backend was reached; distinct by event history"})
	register(&Prop{ID: "P16", Gen: genP16, Check: checkP16, Quick: 6500, Thorough: 150000,
		Live: func(c *Case, outs []*Outcome) bool {
			for _, ci := range outs[0].Conns {
				if ci.Note == "connected" {
					return true
				}
			}
			return false
		},
		Rule: "one simulated run of one of the five commands per seed with random users, passwords, databases, addresses and secrets made of awkward characters and 0-3 faults that force reconnects; part of the runs is repeated against a server without the other schemas; non-trivial: a connection was made; distinct by event history"})
	register(&Prop{ID: "P17", Gen: genP17, Check: checkP17, Quick: 7500, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool { return true },
		Rule: "one simulated run of one of the five commands per seed: healthy with slow, fragmented answers and closed idle connections; unreachable (refused or silent) or late backends; random harmful faults; statements outside the supported grammar; missing settings; distinct by event history"})
}

var reportCmds = []string{"mysql", "postgres", "hasura", "jaeger", "pi"}

var outNames = []string{"out.html", "out.html", "re port.html", "report", "a.b.html", "日本.html", "x'\"<y>.htm", "-r.html"}

func (sc *Scenario) setOut(name string) {
	sc.OutName = name
	for i, a := range sc.Args {
		if a == "-o" && i+1 < len(sc.Args) {
			sc.Args[i+1] = name
		}
	}
}

func (sc *Scenario) dropFlag(name string) {
	var a []string
	for i := 0; i < len(sc.Args); i++ {
		if sc.Args[i] == name {
			i++
			continue
		}
		a = append(a, sc.Args[i])
	}
	sc.Args = a
	if name == "-o" {
		sc.OutName = ""
	}
}

func genAny(r *Rng, prop string, seed uint64, cmd string, odd bool) *Scenario {
	switch cmd {
	case "jaeger":
		return genJaeger(r, prop, seed, jOpts{nTraces: r.Range(0, 6), spans: 6, odd: odd})
	case "pi":
		return genPI(r, prop, seed, piOpts{inst: 2, chatty: r.P(20), paging: r.P(30), points: 8, odd: odd})
	}
	o := dbOpts{cmd: cmd, existing: r.P(40), decoys: r.P(40), subq: r.P(30), rich: r.P(30), odd: odd && r.P(30), specials: odd, tls: true, wide: r.P(4)}
	sc := genDB(r, prop, seed, o)
	if odd {
		if cmd == "mysql" {
			sc.DB.Plan = genMyPlan(r, r.Range(1, 6), true)
		}
	}
	if r.P(35) {
		sc.examineSetup(r, 2)
	}
	return sc
}

// ---- P07

const prevMark = "previous report"

var awkwardVars = []string{"a@b.c", "</script>", "日本\"x", "a\u2028b", "<!--", "{{.gr}}", "%s", "\\u003c/", "it's", "tab\tnl\n"}

var awkwardNumbers = []string{"1.5", "0", "-7", "9007199254740993", "-1234567890123456789", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "1.50", "1e2", "12E-3"}

func genP07(r *Rng, seed uint64) *Case {
	sc := genAny(r, "P07", seed, pick(r, reportCmds...), true)
	if sc.Cmd == "hasura" && r.P(60) {
		b, _ := json.Marshal(map[string]any{"e": pick(r, awkwardVars...), pick(r, "n", "a b", "</script>"): []any{json.Number(pick(r, awkwardNumbers...)), nil, true, map[string]any{"k": pick(r, awkwardVars...)}}})
		sc.DB.Vars = string(b)
		if r.P(30) { // the text the user gave is what the report repeats
			sc.DB.Vars = pick(r, "", " ", "\n", "\t ") + strings.ReplaceAll(sc.DB.Vars, `,"`, pick(r, `, "`, ",\n \"")) + pick(r, "", " ", "\n", " \r\n")
		}
		if r.P(50) {
			sc.DB.Query = "query Q($e: String) {\n\t" + sc.DB.Tables[0].Name + "(where: {email: {_eq: $e}, x: {_neq: \"" + pick(r, "</script>", "<!--", "\u2028", "a&b", "{{.gr}}", "日本") + "\"}}) { id }\n}"
		}
		var idx []string
		for _, x := range sc.Truth.Requested {
			idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
		}
		sc.rebuildArgs(sc.examining(), idx)
	}
	if sc.Cmd != "hasura" && sc.DB != nil && r.P(40) { // comments and white space are part of the text
		q := sc.DB.Query
		q = pick(r, "", "\n", "/* </script> */ ") + q + pick(r, ";", " ;\n", " -- end\n", " /* <!-- */")
		sc.DB.Query = q
		var idx []string
		for _, x := range sc.Truth.Requested {
			idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
		}
		sc.rebuildArgs(sc.examining(), idx)
	}
	if r.P(50) {
		sc.setOut(pick(r, outNames...))
	}
	if r.P(60) {
		s := "PREVIOUS"
		if r.P(60) {
			s = strings.Repeat("<p>"+prevMark+"</p>\n", r.Range(1, 20000)) + "</body></html>\n"
		}
		sc.PreOutput = &s
	}
	if r.P(55) {
		d := DiskFault{Kind: pick(r, "open", "write", "write", "write", "close", "close", "rename"), Err: pick(r, "ENOSPC", "EIO", "EDQUOT")}
		if d.Kind == "open" || d.Kind == "rename" {
			d.Err = pick(r, "EACCES", "ENOSPC", "EROFS")
		} else {
			d.At = int64(pick(r, 0, 1, r.N(600), r.N(600), r.N(3000), r.N(3000), r.N(12000), 4096))
		}
		sc.Disk = append(sc.Disk, d)
	} else if r.P(6) {
		sc.OutIsDir = sc.OutName != ""
	}
	return &Case{Scs: []*Scenario{sc}}
}

func diskFired(o *Outcome) string {
	for _, k := range sortedKeys(o.Fired) {
		if strings.HasPrefix(k, "disk/") {
			return k
		}
	}
	return ""
}

func checkP07(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if sc.OutIsDir {
		if o.Exit == 0 && !died(o) {
			return viol("no-report", "the command succeeded although %q is a directory", sc.OutName)
		}
		return nil
	}
	if v := noAnswer(sc, o); v != nil {
		return v
	}
	if died(o) {
		return nil
	}
	if d := diskFired(o); d != "" {
		if o.Exit == 0 {
			return viol("disk-error-ignored", "the disk reported an error (%s) while the report was written, yet the command succeeded", d)
		}
		return nil
	}
	if o.Exit != 0 || sc.OutName == "" {
		return nil
	}
	if !o.HasOut {
		return viol("no-report", "the command succeeded but there is no file %q", sc.OutName)
	}
	r, err := ParseReport(o.Out)
	if err != nil {
		return viol("incomplete", "the command succeeded but its report is not complete: %v", err)
	}
	if sc.PreOutput != nil && strings.Contains(string(o.Out), prevMark) {
		return viol("mixed", "the report still holds parts of the file that was at the output path before")
	}
	switch sc.Cmd {
	case "mysql", "postgres", "hasura":
		return faithfulSuggest(sc, o, r)
	case "jaeger":
		return faithfulJaeger(sc, o, r)
	default:
		return faithfulPI(sc, o, r)
	}
}

func faithfulSuggest(sc *Scenario, o *Outcome, r *Report) *Violation {
	s := r.Sug(sc.Cmd)
	if s == nil {
		return viol("no-data", "the report of %s holds no suggestion data", sc.Cmd)
	}
	d := sc.DB
	if sc.Cmd == "hasura" {
		if s.Gql != d.Query {
			return viol("text", "the GraphQL query in the report is %q, it was %q", s.Gql, d.Query)
		}
		if !sameVars([]byte(d.Vars), s.Vars) {
			return viol("text", "the variables in the report are %v, they were %s", s.Vars, d.Vars)
		}
		if s.Query != d.SQL {
			return viol("text", "the SQL in the report is %q, it was %q", s.Query, d.SQL)
		}
	} else if s.Query != d.Query {
		return viol("text", "the query in the report is %q, it was %q", s.Query, d.Query)
	}
	val := map[string]string{}
	for _, x := range s.Options {
		val[x.Name] = x.Value
		if x.IsShort != (len(x.Name) == 1) {
			return viol("text", "the option %q of the command shown in the report is marked isShort=%v", x.Name, x.IsShort)
		}
	}
	if val["q"] != d.Query {
		return viol("text", "the command shown in the report has -q %q, the query was %q", val["q"], d.Query)
	}
	out := sc.OutName
	if !sc.examining() {
		e := filepath.Ext(out)
		out = strings.TrimSuffix(out, e) + "_examine" + e
	}
	if val["o"] != out {
		return viol("text", "the command shown in the report has -o %q instead of %q", val["o"], out)
	}
	if sc.Cmd == "hasura" {
		want := d.Vars
		if want == "" {
			want = "{}"
		}
		if val["json-variables"] != want {
			return viol("text", "the command shown in the report has --json-variables %q, they were %q", val["json-variables"], want)
		}
	}
	var fl []flatNode
	flatten(s.Nodes, -1, &fl)
	all := planText(fl) + s.Summary
	for _, l := range d.Plan {
		t := strings.TrimSpace(l)
		if sc.Cmd != "mysql" { // a value may hold a line break
			for _, x := range strings.Split(t, "\n") {
				if !strings.Contains(all, strings.TrimSpace(x)) {
					return viol("text", "the plan line %q is not in the report", l)
				}
			}
		} else if !strings.Contains(all, t) {
			return viol("text", "the plan line %q is not in the report", l)
		}
	}
	if sc.examining() && s.Examined == nil {
		return viol("no-data", "the report lacks the examination")
	}
	return nil
}

func faithfulJaeger(sc *Scenario, o *Outcome, r *Report) *Violation {
	if r.Dig == nil || r.Dig.Jaeger == nil {
		return viol("no-data", "the report holds no Jaeger data")
	}
	j := r.Dig.Jaeger
	if j.UI != sc.Env["JAEGER_UI_URL"] {
		return viol("text", "the UI address in the report is %q, it is %q", j.UI, sc.Env["JAEGER_UI_URL"])
	}
	if d := argInt(sc, "-d", 1000); j.Slow != d {
		return viol("text", "the duration threshold in the report is %d, it was %d", j.Slow, d)
	}
	if t := argInt(sc, "-t", 5); j.Same != t {
		return viol("text", "the same-service threshold in the report is %d, it was %d", j.Same, t)
	}
	// every shown name and service is one of the span it belongs to
	type tx struct{ name, svc string }
	by := map[string]tx{}
	for _, t := range sc.Jaeger.Traces {
		for _, s := range t.Spans {
			by[t.ID+"/"+s.ID] = tx{s.Name, s.Service}
		}
	}
	var walk func(id string, s *RSpan) *Violation
	walk = func(id string, s *RSpan) *Violation {
		if s == nil {
			return nil
		}
		w, ok := by[id+"/"+s.ID]
		if !ok {
			return viol("text", "the report shows a span %s of trace %s that does not exist", s.ID, id)
		}
		if w.name != s.Name {
			return viol("text", "the name of span %s is %q in the report, it was %q", s.ID, s.Name, w.name)
		}
		if !strings.Contains(s.Service, w.svc) {
			return viol("text", "the service of span %s is %q in the report, it was %q", s.ID, s.Service, w.svc)
		}
		for _, k := range s.Children {
			if v := walk(id, k); v != nil {
				return v
			}
		}
		return nil
	}
	for _, l := range [][]RTrace{j.SlowT, j.SameT} {
		for _, t := range l {
			if v := walk(t.ID, t.Root); v != nil {
				return v
			}
		}
	}
	return nil
}

func faithfulPI(sc *Scenario, o *Outcome, r *Report) *Violation {
	if r.Dig == nil || r.Dig.PI == nil {
		return viol("no-data", "the report holds no Performance Insights data")
	}
	for _, g := range []string{"db.sql", "db.sql_tokenized"} {
		loads := r.Dig.PI.SQL
		if g != "db.sql" {
			loads = r.Dig.PI.Tok
		}
		type e struct{ inst, sql, tok string }
		got, has := map[e]bool{}, map[piKey]bool{}
		toks := map[piKey]map[string]bool{}
		for _, in := range sc.AWS.Instances {
			for _, m := range in.Metrics {
				if m.Group == g {
					k := piKey{in.ID, m.SQL}
					if toks[k] == nil {
						toks[k] = map[string]bool{}
					}
					toks[k][m.TokID] = true
				}
			}
		}
		for _, h := range loads {
			for _, d := range h.DBs {
				for _, s := range d.Sqls {
					got[e{d.Name, s.SQL, s.Tok}] = true
					has[piKey{d.Name, s.SQL}] = true
				}
			}
		}
		for x := range got {
			t := toks[piKey{x.inst, x.sql}]
			if t == nil {
				return viol("text", "the report shows the statement %q of instance %q, which does not exist", x.sql, x.inst)
			}
			if x.tok != "" && !t[x.tok] {
				return viol("text", "the report gives statement %q the id %q, which is another's", x.sql, x.tok)
			}
		}
		for k, ps := range piModel(sc, o, g) {
			if firm(ps) && !has[k] {
				return viol("text", "the statement %q of instance %q is not in the report", k.sql, k.inst)
			}
		}
	}
	return nil
}

// ---- P16

var awkward = []string{"plain", "with space", "qu'ote", `dq"x`, `back\slash`, "a@b", "a:b", "a/b", "a?b=c", "a&b", "100%", "é日本", "x=y", "tab\tx", "#h", "a(b)c", "a,b;c", "'", `\'`, "$HOME", "user%40x", "{}", " lead", "trail ", "[x]"}

func genP16(r *Rng, seed uint64) *Case {
	cmd := pick(r, "mysql", "mysql", "postgres", "postgres", "hasura", "jaeger", "pi")
	sc := genAny(r, "P16", seed, cmd, false)
	sec := func(s string) string { return "Zq" + itoa(r.N(9000)+1000) + s + "kX" } // recognisable
	switch cmd {
	case "mysql", "postgres":
		d := sc.DB
		if r.P(70) {
			d.User = "u" + pick(r, awkward...)
			if r.P(30) {
				d.User = pick(r, awkward...)
			}
		}
		d.Password = ""
		if r.P(90) {
			d.Password = sec(pick(r, awkward...) + pick(r, "", pick(r, awkward...)))
			if r.P(20) {
				d.Password = pick(r, " ", "'", `\`, "@", ":") + d.Password + pick(r, " ", "'", `\`, "@", "/")
			}
			sc.Truth.Secrets = []string{d.Password}
			if r.P(12) {
				d.Password = pick(r, " ", "  ", "x", "'", "0", "''", "\t")
				sc.Truth.Secrets = nil // too short to be recognised
			}
			if cmd == "postgres" {
				d.Auth = pick(r, "md5", "clear")
			}
		} else if cmd == "postgres" {
			d.Auth = "trust"
		}
		if r.P(60) {
			old := d.DBName
			d.DBName = pick(r, awkward...) + pick(r, "", "_db")
			if cmd == "mysql" {
				for i := range d.Tables {
					if d.Tables[i].Schema == old {
						d.Tables[i].Schema = d.DBName
					}
				}
				for i := range sc.Actors {
					sc.Actors[i].Index.Schema = d.DBName
				}
				d.Schema = d.DBName
			}
		}
		sc.Env["DB_USERNAME"], sc.Env["DB_PASSWORD"], sc.Env["DB_DATABASE"] = d.User, d.Password, d.DBName
		if d.Password == "" && r.P(50) {
			delete(sc.Env, "DB_PASSWORD")
		}
	case "hasura":
		d := sc.DB
		d.Secret = sec(strings.NewReplacer("\t", "").Replace(pick(r, awkward...)))
		if r.P(25) {
			q := pick(r, `"`, "'", "=", "$")
			d.Secret = q + d.Secret + q
		}
		sc.Env["HASURA_ADMIN_SECRET"] = d.Secret
		sc.Truth.Secrets = []string{d.Secret}
		if d.TLS {
			if r.P(15) {
				sc.BadCert = pick(r, "host", "ca", "expired")
			}
			if r.P(15) { // back to plain text
				cs := dbClasses(cmd, sc.examining())
				sc.Faults = append(sc.Faults, Fault{Class: cs[r.Range(1, len(cs)-1)], Nth: r.N(2), Kind: "redirect", Arg: int64(pick(r, 302, 307, 308)), Text: "http://" + hostOf(d.Addr) + ":8082"})
			}
		}
	case "pi":
		a := sc.AWS
		a.SecretKey = sec(pick(r, "", "/", "+/=", "a b", "é"))
		sc.Env["AWS_SECRET_ACCESS_KEY"] = a.SecretKey
		sc.Truth.Secrets = []string{a.SecretKey}
		if r.P(30) {
			a.Token = sec("tok/+=")
			sc.Env["AWS_SESSION_TOKEN"] = a.Token
			sc.Truth.Secrets = append(sc.Truth.Secrets, a.Token)
		}
		if r.P(10) {
			sc.BadCert = pick(r, "host", "ca", "expired")
		}
		if r.P(40) {
			awsTransient(r, sc, 3)
		}
		return &Case{Scs: []*Scenario{sc}}
	case "jaeger":
		if r.P(40) {
			sc.Faults = append(sc.Faults, Fault{Kind: pick(r, "reset_before", "reset_after", "idle_close", "cut"), Class: "find", Nth: r.N(10), Arg: 1})
			maybeFin(r, &sc.Faults[len(sc.Faults)-1])
		}
		return &Case{Scs: []*Scenario{sc}}
	}
	if r.P(25) { // the same run without the other schemas
		b := sc.Clone()
		var ts []TableSpec
		for _, t := range b.DB.Tables {
			if t.Schema == b.DB.Schema {
				ts = append(ts, t)
			}
		}
		b.DB.Tables = ts
		return &Case{Scs: []*Scenario{sc, b}}
	}
	for k := r.N(4); k > 0; k-- {
		cs := dbClasses(cmd, sc.examining())
		f := genFault(r, cmd, cs[r.N(len(cs))], 3)
		if r.P(50) && f.Class != "dial" && f.Class != "handshake" && f.Class != "prepare" {
			f.Kind = "idle_close"
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(15) {
		sc.Args = append(sc.Args, "-v")
	}
	return &Case{Scs: []*Scenario{sc}}
}

func checkP16(c *Case, outs []*Outcome) *Violation {
	for i, o := range outs {
		if v := identity(c.Scs[i], o); v != nil {
			return v
		}
	}
	if len(outs) == 2 && !died(outs[0]) && !died(outs[1]) {
		a, b := sug(c.Scs[0], outs[0]), sug(c.Scs[1], outs[1])
		if outs[0].Exit != outs[1].Exit {
			return viol("other-schema", "tables of other schemas make a difference: exit %d with them, %d without", outs[0].Exit, outs[1].Exit)
		}
		if a != nil && b != nil {
			var x, y []IdxT
			for _, t := range a.Indexes {
				x = append(x, t.T())
			}
			for _, t := range b.Indexes {
				y = append(y, t.T())
			}
			if keysOf(x) != keysOf(y) {
				return viol("other-schema", "tables of other schemas make a difference: suggestions [%s] with them, [%s] without", keysOf(x), keysOf(y))
			}
		}
	}
	return nil
}

func (sc *Scenario) addresses() map[string]bool {
	m := map[string]bool{}
	if sc.DB != nil {
		m[sc.DB.Addr] = true
	}
	if sc.Jaeger != nil {
		m[sc.Jaeger.Addr] = true
	}
	if sc.AWS != nil {
		for _, h := range sc.AWS.hosts() {
			m[h+":443"] = true
		}
	}
	return m
}

func identity(sc *Scenario, o *Outcome) *Violation {
	addr := sc.addresses()
	for _, ci := range o.Conns {
		if !addr[ci.Addr] {
			return viol("address", "the command connects to %s; configured: %v", ci.Addr, sortedKeys(addr))
		}
	}
	if e := hasEvent(o, "unknown-address"); e != nil {
		return viol("address", "the command connects to %s", e.Text)
	}
	if sc.BadCert != "" {
		if e := hasEvent(o, "req"); e != nil {
			return viol("impostor", "the command sends a %s request to a server that cannot prove its identity (%s): %s", e.Class, sc.BadCert, e.Text)
		}
		if !died(o) && o.Exit == 0 && o.Fired["handshake/bad_certificate_"+sc.BadCert] > 0 && len(o.Conns) > 0 {
			return viol("impostor", "nobody but a server that cannot prove its identity (%s) was there, yet the command succeeds", sc.BadCert)
		}
	}
	if e := hasEvent(o, "elsewhere"); e != nil {
		return viol("address", "the command talks to %s instead of the configured address", e.Text)
	}
	if e := hasEvent(o, "bad-secret"); e != nil {
		return viol("secret", "a %s request does not carry the configured admin secret", e.Class)
	}
	if e := hasEvent(o, "off-path"); e != nil {
		return viol("address", "the command requests %s, which is not below the configured address %s", e.Text, sc.Env["HASURA_URL"])
	}
	if e := hasEvent(o, "bad-credential"); e != nil {
		return viol("secret", "a %s request is not signed with the configured credentials: %s", e.Class, e.Text)
	}
	if sc.Cmd == "mysql" || sc.Cmd == "postgres" {
		for _, e := range o.Events {
			if e.Kind != "login" {
				continue
			}
			want := sc.DB.User + "\x00" + sc.DB.DBName
			if e.Text != want {
				return viol("login", "the command logs in as %q (user, database), configured: %q", e.Text, want)
			}
			if !e.Ok {
				return viol("login", "the command logs in with another password than the configured one %q", sc.DB.Password)
			}
		}
	}
	for _, s := range sc.Truth.Secrets {
		js, _ := json.Marshal(s)
		forms := []string{s, strings.Trim(string(js), `"`), strings.Trim(strconv.Quote(s), `"`)}
		for _, f := range forms {
			if len(f) < 6 {
				continue
			}
			if strings.Contains(string(o.Out), f) {
				return viol("leak", "the report contains the secret %q", s)
			}
			if strings.Contains(o.Stderr, f) || strings.Contains(o.Stdout, f) {
				return viol("leak", "the command prints the secret %q", s)
			}
		}
	}
	return nil
}

// ---- P17

var oddMy = []string{
	"SELECT %c FROM %t UNION SELECT %c FROM %t", "(SELECT %c FROM %t)", "(SELECT %c FROM %t) UNION ALL (SELECT %c FROM %t) ORDER BY 1", "SELECT * FROM (SELECT %c FROM %t UNION SELECT %c FROM %t) x",
	"SELECT * FROM %t WHERE %c IN (SELECT %c FROM %t UNION SELECT %c FROM %t)", "WITH x AS (SELECT %c FROM %t) SELECT * FROM x", "SELECT 1", "SELECT NULL", "SELECT now()", "TABLE %t", "SELECT %c FROM %t WINDOW w AS (PARTITION BY %c)",
	"SELECT row_number() OVER (PARTITION BY %c ORDER BY %c) FROM %t", "SELECT %c FROM %t LIMIT 3 OFFSET 4", "SELECT EXISTS(SELECT 1 FROM %t)", "SELECT CASE WHEN %c = 1 THEN 2 ELSE 3 END FROM %t", "SELECT nosuch FROM %t", "SELECT %c FROM nosuch",
	"SELECT %c FROM %t NATURAL JOIN %t t2", "SELECT DISTINCT %c FROM %t FOR UPDATE", "SELECT x.nosuch FROM %t", "SELECT %c FROM other.%t", "SELECT @@version", "SELECT ';' ", "SELECT 1; -- x", "SELECT (SELECT (SELECT %c FROM %t LIMIT 1)) AS y", "SELECT COUNT(*), COUNT(DISTINCT %c) FROM %t HAVING COUNT(*) > 1",
	"SELECT * FROM (SELECT * FROM (SELECT %c FROM %t) a) b", "SELECT a.%c FROM %t a JOIN (SELECT %c FROM %t) a ON TRUE", "SELECT %c AS k FROM %t ORDER BY k",
}
var oddPg = append([]string{
	"VALUES (1)", "SELECT * FROM (VALUES (1)) x", "SELECT * FROM (VALUES (1)) x(a)", "SELECT x FROM generate_series(1,2) x", "SELECT ARRAY[1,2]", "SELECT %c FROM %t WHERE %c = ANY(ARRAY[1])", "SELECT now() - interval '1 day'", "SELECT DISTINCT ON (%c) %c FROM %t",
	"SELECT %t.* FROM %t, LATERAL (SELECT 1 AS z) q", "SELECT %c FROM %t OFFSET 3", "SELECT (t).%c FROM %t t", "SELECT t FROM %t t", "SELECT row(1,2)", "SELECT %c::text COLLATE \"C\" FROM %t", "SELECT * FROM %t t(a, b)", "SELECT a FROM %t t(a, b)", "SELECT * FROM ROWS FROM (generate_series(1,2)) z",
	"SELECT * FROM %t WHERE (%c, %c) IN ((1,2))", "SELECT extract(year FROM %c) FROM %t", "SELECT %c FROM ONLY %t", "SELECT * FROM [SHOW TABLES]", "SELECT ARRAY(SELECT %c FROM %t)", "SELECT x.k FROM (SELECT %c AS k FROM %t UNION ALL SELECT %c FROM %t) x WHERE x.k = 1", "SELECT * FROM %t a, (SELECT b.%c FROM %t b WHERE b.%c = 1) c",
	"SELECT * FROM ((SELECT %c FROM %t)) x", "SELECT * FROM (%t CROSS JOIN %t t2)", "SELECT json_agg(\"_0\") FROM (SELECT %c AS \"_0\" FROM %t) AS _r",
}, oddMy...)

// Queries having what the tool says it does not support: it has to say so.
var unsupMy = []string{
	"SELECT %c FROM %t UNION SELECT %c FROM %t", "SELECT %c FROM %t UNION ALL SELECT %c FROM %t ORDER BY 1", "(SELECT %c FROM %t) UNION (SELECT %c FROM %t)", "SELECT %c FROM %t EXCEPT SELECT %c FROM %t",
	"SELECT * FROM (SELECT %c FROM %t UNION SELECT %c FROM %t) x", "SELECT 1 FROM %t AS a1 JOIN (SELECT %c FROM %t UNION SELECT 1) x ON TRUE",
	"WITH x AS (SELECT %c FROM %t) SELECT a1.%c FROM %t AS a1 WHERE a1.%c = 1", "WITH x AS (SELECT %c FROM %t) SELECT * FROM x", "SELECT 1 FROM %t AS a1 WHERE 1 IN (WITH x AS (SELECT 1 AS y) SELECT y FROM x)",
	"SELECT %c FROM %t WINDOW w AS (PARTITION BY %c)", "SELECT SUM(%c) OVER w FROM %t WINDOW w AS (ORDER BY %c)", "SELECT 1 FROM %t AS a1 WHERE EXISTS (SELECT 1 FROM %t WINDOW w AS (PARTITION BY %c))",
	"SELECT %c FROM elsewhere.%t", "SELECT a1.%c FROM %t AS a1 JOIN elsewhere.%t AS b1 ON TRUE", "SELECT a1.%c FROM %t AS a1, elsewhere.%t", "SELECT 1 FROM %t AS a1 WHERE EXISTS (SELECT 1 FROM elsewhere.%t)",
}
var unsupPg = append([]string{
	"SELECT 1 FROM %t AS a1 WHERE EXISTS (SELECT %c FROM %t UNION SELECT %c FROM %t)", "SELECT 1 FROM %t AS a1 WHERE 1 = (SELECT %c FROM %t INTERSECT SELECT %c FROM %t)", "SELECT (SELECT %c FROM %t UNION SELECT 1) AS y FROM %t", "SELECT 1 FROM %t ORDER BY (SELECT %c FROM %t UNION SELECT 1)",
	"SELECT 1 FROM %t LIMIT (SELECT 1 UNION SELECT 2)", "SELECT 1 FROM %t AS a1 LEFT JOIN LATERAL (SELECT %c FROM %t UNION SELECT 1) AS x ON ('true')", "VALUES (1)",
	"SELECT 1 FROM (WITH x AS (SELECT %c FROM %t) SELECT * FROM x) AS y", "SELECT %c FROM %t NATURAL JOIN %t AS b1", "SELECT 1 FROM (SELECT 1 FROM %t NATURAL JOIN %t AS b1) AS x", "SELECT 1 FROM %t AS a1 JOIN %t AS b1 USING (%c)",
	"SELECT elsewhere.%t.%c FROM %t", "SELECT 1 FROM %t AS a1 WHERE elsewhere.%t.%c = 1", "SELECT elsewhere.%t.* FROM %t", "SELECT 1 FROM %t AS a1 LEFT JOIN elsewhere.%t AS b1 ON elsewhere.%t.%c = 1", "SELECT 1 FROM %t GROUP BY elsewhere.%t.%c", "SELECT 1 FROM %t GROUP BY 1 HAVING MAX(elsewhere.%t.%c) > 1", "SELECT DISTINCT ON (elsewhere.%t.%c) 1 FROM %t", "SELECT 1 FROM %t ORDER BY elsewhere.%t.%c",
	"SELECT %c FROM db2.public.%t", "SELECT 1 FROM %t AS a1 JOIN db2.public.%t AS b1 ON TRUE", "SELECT 1 FROM ((SELECT %c FROM %t)) AS x", "SELECT 1 FROM %t AS a1 WHERE 1 IN ((SELECT %c FROM %t))", "SELECT 1 FROM [SHOW TABLES] AS x",
}, unsupMy...)

func unsupQuery(r *Rng, sc *Scenario) string {
	if sc.my() {
		return fillQuery(r, sc, unsupMy[r.N(len(unsupMy))])
	}
	return fillQuery(r, sc, unsupPg[r.N(len(unsupPg))])
}

func oddQuery(r *Rng, sc *Scenario) string {
	l := oddMy
	if !sc.my() {
		l = oddPg
	}
	return fillQuery(r, sc, l[r.N(len(l))])
}

// fillQuery puts names of the database into a template.
func fillQuery(r *Rng, sc *Scenario, f string) string {
	var b strings.Builder
	ts := sc.realTables()
	t := ts[r.N(len(ts))]
	q := func(s string) string {
		if plainIdent.MatchString(s) && !pgKeywords[s] {
			return s
		}
		if sc.my() {
			return "`" + s + "`"
		}
		return `"` + s + `"`
	}
	for i := 0; i < len(f); i++ {
		if f[i] == '%' && i+1 < len(f) && (f[i+1] == 't' || f[i+1] == 'c') {
			if f[i+1] == 't' {
				b.WriteString(q(t.Name))
			} else {
				b.WriteString(q(t.Cols[r.N(len(t.Cols))].Name))
			}
			i++
			continue
		}
		b.WriteByte(f[i])
	}
	return b.String()
}

func genP17(r *Rng, seed uint64) *Case {
	sc := genAny(r, "P17", seed, pick(r, reportCmds...), r.P(40))
	db := sc.DB != nil
	if db && r.P(60) {
		sc.DB.ExecMs = int64(pick(r, 1, 300, 20000, 100000))
		sc.MaxSim = 24 * 3600_000
		sc.DB.DDLMs = int64(pick(r, 0, 200, 30000))
	}
	mode := r.N(10)
	switch {
	case mode < 5: // healthy, if slow
		sc.Truth.Extra = map[string]string{"mode": "healthy"}
		if db {
			benign(r, sc, 5, pick(r, 500, 20000, 120000))
		} else if sc.Cmd == "jaeger" {
			for k := r.N(4); k > 0; k-- {
				sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: "find", Nth: r.N(20), Arg: int64(r.Range(1, pick(r, 500, 60000)))})
			}
			if r.P(30) {
				sc.Jaeger.MaxAgeMs = int64(pick(r, 20, 50, 200, 1000))
			}
			if r.P(25) {
				sc.Faults = append(sc.Faults, Fault{Kind: "down", Class: "backend", Arg: int64(r.Range(1, 3800))})
			}
		} else {
			for k := r.N(4); k > 0; k-- {
				sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: pick(r, "rds", "pi"), Nth: r.N(20), Arg: int64(r.Range(1, pick(r, 500, 60000)))})
			}
		}
		if r.P(20) {
			genWallSteps(r, sc)
		}
		if sc.Cmd != "pi" && r.P(5) {
			sc.setOut("") // no report wanted
		}
	case mode < 7: // nobody there
		sc.Truth.Extra = map[string]string{"mode": "dead"}
		sc.Faults = []Fault{{Kind: pick(r, "down", "down", "blackhole"), Class: "backend", Arg: -1}}
		oldReport(r, sc)
	case mode < 8 && db: // outside the grammar
		sc.Truth.Extra = map[string]string{"mode": "odd"}
		q := oddQuery(r, sc)
		if r.P(50) {
			sc.Truth.Extra["mode"] = "unsupported"
			q = unsupQuery(r, sc)
			oldReport(r, sc)
		}
		if sc.Cmd == "hasura" {
			sc.DB.SQL = q
		} else {
			sc.DB.Query = q
		}
		sc.Truth.Known = false
		sc.rebuildArgs(sc.examining(), nil)
		sc.Truth.Requested = nil
	case mode < 9: // settings missing
		sc.Truth.Extra = map[string]string{"mode": "config"}
		if r.P(20) {
			f := map[string][]string{"jaeger": {"-o", "-s"}, "pi": {"-o"}}[sc.Cmd]
			if f == nil {
				f = []string{"-o", "-q"}
			}
			sc.dropFlag(f[r.N(len(f))])
			break
		}
		need := map[string][]string{"mysql": {"DB_USERNAME", "DB_DATABASE"}, "postgres": {"DB_USERNAME", "DB_DATABASE"}, "hasura": {"HASURA_URL", "HASURA_ADMIN_SECRET"}, "jaeger": {"JAEGER_UI_URL", "JAEGER_GRPC_ADDRESS"}}[sc.Cmd]
		if need == nil {
			sc.Args = append(sc.Args, "--start-from", pick(r, "yesterday", "2022-13-01T00:00:00Z", "2022-01-01", "1"))
			break
		}
		if sc.Cmd == "hasura" && r.P(40) { // variables that are no JSON object
			sc.DB.Vars = pick(r, "{", `{"e":}`, "[1]", "{}x", "{} {}", "nope", `{"e":01}`, `{"e":1,}`, `"e"`, "{'e':1}", " ", `{"e":"a"`)
			var idx []string
			for _, x := range sc.Truth.Requested {
				idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
			}
			sc.rebuildArgs(sc.examining(), idx)
			break
		}
		miss := need[r.N(len(need))]
		delete(sc.Env, miss)
		sc.Truth.Extra["missing"] = miss
	default: // anything may fail
		sc.Truth.Extra = map[string]string{"mode": "faults"}
		n := r.Range(1, 6)
		for k := 0; k < n; k++ {
			if db {
				cs := dbClasses(sc.Cmd, sc.examining())
				sc.Faults = append(sc.Faults, genFault(r, sc.Cmd, cs[r.N(len(cs))], 4))
			} else if sc.Cmd == "jaeger" {
				f := Fault{Class: "find", Nth: r.N(20), Kind: pick(r, "http_status", "reset_before", "reset_after", "cut", "err_mid", "stall", "idle_close"), Arg: int64(r.Range(1, 16))}
				maybeFin(r, &f)
				sc.Faults = append(sc.Faults, f)
			} else {
				f := Fault{Class: pick(r, "pi", "rds"), Nth: pick(r, -1, r.N(20)), Kind: pick(r, "throttle", "denied", "http_status", "reset_before", "reset_after", "cut", "bad_body"), Arg: 503}
				maybeFin(r, &f)
				if f.Kind == "bad_body" {
					f.Text = pick(r, badBodies...)
				}
				sc.Faults = append(sc.Faults, f)
			}
		}
	}
	return &Case{Scs: []*Scenario{sc}}
}

func checkP17(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if o.Hang {
		return viol("hang", "the command never ended (%s)", hangWhere(o))
	}
	if o.Panic != "" {
		return viol("panic", "the command crashed: %.500s", o.Panic)
	}
	switch sc.Truth.Extra["mode"] {
	case "healthy":
		if o.Exit != 0 {
			return viol("healthy-failure", "nothing is wrong with the backend, yet the command failed (exit %d): %s", o.Exit, lastLines(o.Stderr, 3))
		}
		last := int64(0)
		for _, e := range o.Events {
			if e.Kind == "reply" || e.Kind == "req" {
				last = e.T
			}
		}
		end := o.Events[len(o.Events)-1].T
		if lag := end - last; lag > lagLimit(sc) {
			return viol("late", "the last answer was sent %.1f s after the start, the command ended only %.1f s later", float64(last)/1e9, float64(lag)/1e9)
		}
	case "dead":
		if o.Exit == 0 {
			return viol("dead-success", "the backend cannot be reached, yet the command succeeded")
		}
		lim := int64(400)
		if sc.Cmd == "jaeger" {
			lim = 12
		}
		if o.SimNs > lim*1e9 {
			return viol("dead-late", "the backend cannot be reached; the command gave up only after %.1f s", float64(o.SimNs)/1e9)
		}
	case "unsupported":
		if o.Exit == 0 {
			return viol("unsupported-success", "the query %q is not supported, yet the command succeeded", sqlOf(sc))
		}
		return untouched(sc, o)
	case "config":
		if o.Exit == 0 {
			return viol("config-success", "the settings are incomplete, yet the command succeeded")
		}
		if miss := sc.Truth.Extra["missing"]; strings.HasPrefix(miss, "DB_") {
			for _, e := range o.Events {
				if e.Kind == "dial" {
					return viol("config-guess", "%s is not set, yet the command connects to a database (%s)", miss, e.Text)
				}
			}
		}
		if o.SimNs > 100e9 {
			return viol("config-late", "the settings are incomplete; the command gave up only after %.1f s", float64(o.SimNs)/1e9)
		}
	}
	return nil
}

// lagLimit: time the last answer may take on the simulated network plus some slack.
func lagLimit(sc *Scenario) int64 {
	return 5e9 + sc.Net.MinUs*10_000 + sc.Net.JitterUs*100_000
}

func hangWhere(o *Outcome) string {
	if len(o.Events) == 0 {
		return "nothing happened"
	}
	e := o.Events[len(o.Events)-1]
	for i := len(o.Events) - 1; i >= 0 && (e.Kind == "exit" || e.Kind == "clock"); i-- {
		e = o.Events[i]
	}
	return fmt.Sprintf("last seen at %.1f s: %s %s %.80s", float64(e.T)/1e9, e.Kind, e.Class, e.Text)
}
