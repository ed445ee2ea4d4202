package zzverifsim

import (
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "P01", Gen: genP01, Check: checkP01, Quick: 8000, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool { return len(ofClass(requests(outs[0]), "create")) > 0 },
		Rule: "one simulated examination per seed with 0-4 faults (server errors, resets before/after the effect, cut replies, refused dials, dead backend, idle closes) at random requests; non-trivial: at least one trial index was requested; distinct by event history"})
	register(&Prop{ID: "P02", Gen: genP02, Check: checkP02, Quick: 8000, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool {
			return len(outs[0].Events) > 3
		},
		Rule: "one simulated db suggest per seed, with or without --with-examine, with other clients adding/dropping indexes (also with the tool's own names) and faults; non-trivial: the server was reached; distinct by event history"})
	register(&Prop{ID: "P04", Gen: genP04, Check: checkP04, Quick: 6500, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool {
			return outs[0].Exit == 0 && len(ofClass(requests(outs[0]), "exec")) > 1
		},
		Rule: "one simulated examination per seed; every index combination has its own execution time >= 100 ms apart from all others, DDL takes up to 5 s, requests stall, the wall clock steps; non-trivial: at least one candidate was timed; distinct by event history"})
	register(&Prop{ID: "P05", Gen: genP05, Check: checkP05, Quick: 7500, Thorough: 200000,
		Live: func(c *Case, outs []*Outcome) bool { return true },
		Rule: "one simulated examination per seed with random -i lists (valid with duplicates, malformed, or none); distinct by event history"})
}

func genExam(r *Rng, prop string, seed uint64, maxIdx int) *Scenario {
	o := dbOpts{cmd: pick(r, dbCmds...), maxTabs: 3, maxCols: 2, existing: r.P(50), decoys: r.P(30)}
	if r.P(20) {
		o.maxCols = 3
		o.maxTabs = 2
	}
	if r.P(map[string]int{"P05": 15}[prop] + 4) { // long lists of candidates
		o.maxCols = r.Range(4, 5)
		o.maxTabs = 2
		if maxIdx < 20 && r.P(40) {
			maxIdx = 30
		}
	}
	o.odd = r.P(20)
	sc := genDB(r, prop, seed, o)
	sc.examineSetup(r, maxIdx)
	if len(sc.Truth.Requested) == 0 && len(sc.Truth.Expect) > 90 {
		sc.examineFixed(r)
	}
	return sc
}

// ---- P01

func genP01(r *Rng, seed uint64) *Case {
	sc := genExam(r, "P01", seed, 4)
	if r.P(15) {
		sc.setOut("") // no report wanted
	}
	n := pick(r, 0, 1, 1, 1, 2, 2, 3, 4)
	for k := 0; k < n; k++ {
		c := pick(r, "exec", "exec", "exec", "exec", "create", "create", "drop", "dial", "handshake", "explain", "indexes")
		if sc.Cmd == "hasura" && c == "handshake" {
			c = "exec"
		}
		f := genFault(r, sc.Cmd, c, 5)
		if c == "dial" {
			f.Nth = r.Range(1, 4)
		}
		if c == "drop" && f.Kind == "err" && r.P(50) {
			f.Text = "injected: lock wait timeout exceeded"
		}
		sc.Faults = append(sc.Faults, f)
	}
	if r.P(12) { // one statement fails on every connection it is tried on
		k, at := pick(r, "reset_before", "reset_before", "reset_after", "fatal"), r.N(4)
		for i := r.Range(2, 4); i > 0; i-- {
			sc.Faults = append(sc.Faults, Fault{Kind: k, Class: "exec", Nth: at + i})
			maybeFin(r, &sc.Faults[len(sc.Faults)-1])
		}
	}
	if r.P(10) {
		sc.Faults = append(sc.Faults, Fault{Kind: "down", Class: "backend", Nth: r.Range(1, 12), Arg: int64(pick(r, 50, 300))})
	}
	benign(r, sc, 5, 800)
	if r.P(25) { // big tables
		sc.DB.DDLMs = int64(pick(r, 1500, 9000, 40000, 250000))
	}
	if r.P(25) {
		sc.DB.ExecMs = int64(pick(r, 2000, 12000, 70000, 400000))
	}
	if r.P(15) { // waits for a lock
		sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: pick(r, "drop", "drop", "create"), Nth: r.N(4), Arg: int64(pick(r, 4000, 20000, 90000, 400000))})
	}
	if r.P(10) {
		sc.Disk = append(sc.Disk, DiskFault{Kind: "open", Err: "EACCES"})
	}
	if r.P(20) {
		genWallSteps(r, sc)
	}
	return &Case{Scs: []*Scenario{sc}}
}

func checkP01(c *Case, outs []*Outcome) *Violation {
	o := outs[0]
	if o.DB == nil || o.Hang {
		return nil
	}
	rs := requests(o)
	for _, x := range o.DB.Indexes {
		if x.Origin != "tool" || !x.Confirmed {
			continue
		}
		pos := -1
		for _, r := range ofClass(rs, "create") {
			if dd := parseIndexDDL(r.text, c.Scs[0].my()); dd != nil && dd.name == x.Name {
				pos = r.pos
			}
		}
		// its own removal was refused or could not be delivered?
		excuse := false
		for i, e := range o.Events {
			if i <= pos || e.Kind != "fault" {
				continue
			}
			k := strings.Fields(e.Text)[0]
			switch e.Class {
			case "drop", "handshake", "backend", "prepare", "dial":
				if k != "stall" && k != "slow" {
					excuse = true
				}
			case "exec", "create":
				if k == "idle_close" {
					excuse = true
				}
			}
		}
		if !excuse {
			return viol("left-behind", "trial index %s on %s(%s) was created and confirmed but still exists after the command ended (exit %d), although nothing hindered its removal",
				x.Name, x.Table, strings.Join(x.Cols, ","), o.Exit)
		}
		if o.Exit == 0 {
			return viol("left-behind-silently", "trial index %s could not be removed, yet the command exited successfully", x.Name)
		}
	}
	return nil
}

// ---- P02

func genP02(r *Rng, seed uint64) *Case {
	var sc *Scenario
	if r.P(70) {
		sc = genExam(r, "P02", seed, 3)
	} else {
		sc = genDB(r, "P02", seed, dbOpts{cmd: pick(r, dbCmds...), existing: true, decoys: r.P(40), odd: r.P(20), rich: r.P(50), subq: r.P(50)})
		if r.P(40) { // -i without --with-examine only documents candidates
			sc.examineSetup(r, 3)
			var a []string
			for _, x := range sc.Args {
				if x != "--with-examine" {
					a = append(a, x)
				}
			}
			sc.Args = a
		}
	}
	d := sc.DB
	var all []IndexSpec
	for _, t := range d.Tables {
		for _, x := range t.Indexes {
			x.Table, x.Schema = t.Name, t.Schema
			all = append(all, x)
		}
	}
	for k := r.N(4); k > 0; k-- {
		cl := pick(r, "create", "create", "create", "drop", "drop", "exec", "indexes", "columns", "explain")
		a := Action{Class: cl, Nth: r.N(4)}
		if cl == "indexes" || cl == "columns" || cl == "explain" {
			a.Nth = 0
		}
		ts := sc.realTables()
		t := ts[r.N(len(ts))]
		var cols []string
		for _, c := range t.Cols {
			if !c.Dropped {
				cols = append(cols, c.Name)
			}
		}
		shuffle(r, cols)
		x := IndexSpec{Schema: t.Schema, Table: t.Name, Name: "theirs_" + itoa(k), Cols: cols[:r.Range(1, minInt(2, len(cols)))]}
		switch r.N(6) {
		case 0, 1:
			a.Op, a.Index = "addindex", x
		case 2, 3:
			a.Op, a.Index = "clash", x
		case 4:
			a.Op = "dropown"
		case 5:
			if len(all) == 0 {
				continue
			}
			a.Op, a.Index = "dropindex", all[r.N(len(all))]
		}
		sc.Actors = append(sc.Actors, a)
	}
	for k := pick(r, 0, 0, 1, 1, 2); k > 0; k-- {
		cs := dbClasses(sc.Cmd, sc.examining())
		sc.Faults = append(sc.Faults, genFault(r, sc.Cmd, cs[r.N(len(cs))], 4))
	}
	benign(r, sc, 4, 500)
	return &Case{Scs: []*Scenario{sc}}
}

func idxIdent(x IndexSpec) string { return x.Schema + "." + x.Table + "." + x.Name }

func checkP02(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if o.DB == nil {
		return nil
	}
	if e := hasEvent(o, "foreign-drop"); e != nil {
		return viol("foreign-drop", "the tool dropped index %s, which is not its own", e.Text)
	}
	if len(o.DB.Mutations) > 0 {
		return viol("mutation", "the tool changed the database: %.200s", o.DB.Mutations[0])
	}
	rs := requests(o)
	if !sc.examining() {
		if x := ofClass(rs, "create", "drop", "mutate"); len(x) > 0 {
			return viol("ddl-without-examine", "without --with-examine the tool sent %.200s", x[0].text)
		}
	}
	if x := ofClass(rs, "mutate"); len(x) > 0 {
		return viol("write-statement", "the tool sent %.200s", x[0].text)
	}
	// everything that was there is still there, unchanged
	now := map[string]FinalIndex{}
	for _, x := range o.DB.Indexes {
		now[idxIdent(x.IndexSpec)] = x
	}
	gone := map[string]bool{}
	for _, e := range o.Events {
		if e.Kind == "actor" && e.Class == "dropindex" {
			gone[e.Text] = true
		}
	}
	for _, t := range sc.DB.Tables {
		for _, x := range t.Indexes {
			x.Schema, x.Table = t.Schema, t.Name
			if _, ok := now[idxIdent(x)]; !ok && !gone[x.Name] {
				return viol("lost-index", "index %s on %s existed before the run and is gone", x.Name, x.Table)
			}
		}
	}
	allowed := map[string]bool{}
	src := sc.Truth.Requested
	if len(src) == 0 {
		src = sc.Truth.Expect
	}
	for _, x := range src {
		allowed[strings.ToLower(x.Key())] = true
	}
	for _, r := range ofClass(rs, "create") {
		dd := parseIndexDDL(r.text, sc.my())
		if !allowed[strings.ToLower(IdxT{dd.table, dd.cols}.Key())] {
			return viol("unasked-index", "the tool tried to create an index nobody asked for: %s", r.text)
		}
		if dd.schema != "" && dd.schema != sc.DB.Schema {
			return viol("unasked-index", "the tool tried to create an index in another schema: %s", r.text)
		}
	}
	names := map[string]bool{}
	for _, r := range rs {
		switch r.class {
		case "create":
			names[parseIndexDDL(r.text, sc.my()).name] = true
		case "drop":
			if n := parseIndexDDL(r.text, sc.my()).name; !names[n] {
				return viol("foreign-drop-attempt", "the tool tried to drop %s, which it had not created", n)
			}
		}
	}
	return nil
}

// ---- P04

func genP04(r *Rng, seed uint64) *Case {
	sc := genExam(r, "P04", seed, 5)
	sc.Net.MinUs, sc.Net.JitterUs = int64(r.Range(20, 300)), int64(r.N(300))
	sc.distinctTimes(r, int64(pick(r, 100, 150, 230)))
	sc.DB.DDLMs = int64(pick(r, 0, 60, 1200, 5000))
	sc.DB.ResultRows = pick(r, 0, 1, 30, 200)
	for k := r.N(4); k > 0; k-- {
		sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: pick(r, "create", "drop", "explain", "columns"), Nth: r.N(4), Arg: int64(r.Range(200, 3000))})
	}
	for k := r.Range(0, 4); k > 0; k-- {
		sc.WallSteps = append(sc.WallSteps, WallStep{AtMs: int64(r.N(6000)), DeltaMs: int64(pick(r, -3600000, -1500, 2500, 86400000, -60000, 170))})
	}
	if r.P(25) { // a run of the query that breaks down after a while
		n := r.N(4)
		f := genFault(r, sc.Cmd, "exec", 4)
		f.Nth = n
		sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: "exec", Nth: n, Arg: int64(r.Range(200, 3000))}, f)
		if r.P(30) {
			f := genFault(r, sc.Cmd, "exec", 4)
			f.Nth = n + 1
			sc.Faults = append(sc.Faults, f)
		}
	}
	return &Case{Scs: []*Scenario{sc}}
}

const timeSlackMs = 45

func checkP04(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if v := noAnswer(sc, o); v != nil {
		return v
	}
	s := sug(sc, o)
	if died(o) || o.Exit != 0 || s == nil || s.Examined == nil {
		return nil
	}
	ms := func(k string) int64 {
		if k == "" {
			return sc.DB.ExecMs
		}
		if v, ok := sc.DB.IdxMs[k]; ok {
			return v
		}
		return -1
	}
	// exactly one run of the exact query per result, under the right index
	var runs []string
	var good []*reqRec
	rs := requests(o)
	for i, r := range rs {
		if r.class != "exec" {
			continue
		}
		if r.text != sc.DB.Query {
			return viol("other-query", "the tool timed another query than the user's: %.200s", r.text)
		}
		// an attempt that failed is not the one whose time is shown
		if !r.ok || len(r.faults) > 0 && i+1 < len(rs) && (rs[i+1].class == "exec" || rs[i+1].class == "handshake") {
			continue
		}
		runs = append(runs, r.idx)
		good = append(good, r)
	}
	if e := hasEvent(o, "other-query"); e != nil {
		return viol("other-query", "the tool ran another query or other variables than the user's: %.200s", e.Text)
	}
	var want []string
	want = append(want, "")
	for _, r := range s.Examined.Results {
		want = append(want, r.Idx.T().Key())
	}
	if strings.Join(runs, "|") != strings.Join(want, "|") {
		sort.Strings(want)
		return viol("runs", "trial indexes present at the query runs: %q; results shown: %q", runs, want)
	}
	// the time of the run, including what the backend itself delayed it by
	off := func(got, want int64, run int) bool {
		for _, f := range good[run].faults {
			if strings.HasPrefix(f, "stall ") {
				n, _ := strconv.Atoi(strings.TrimPrefix(f, "stall "))
				want += int64(n)
			}
		}
		return got < want-1 || got > want+timeSlackMs
	}
	if off(s.Examined.Orig, ms(""), 0) {
		return viol("orig-time", "original time is shown as %d ms, but the query takes %d ms without any trial index", s.Examined.Orig, ms(""))
	}
	for i, r := range s.Examined.Results {
		k := r.Idx.T().Key()
		want := ms(k)
		if want >= 0 && off(r.Ms, want, i+1) {
			return viol("index-time", "the time shown for %s is %d ms, but the query takes %d ms while exactly that index exists (%s)", k, r.Ms, want, timesOf(sc))
		}
	}
	return nil
}

func timesOf(sc *Scenario) string {
	var s []string
	for _, k := range sortedKeys(sc.DB.IdxMs) {
		s = append(s, k+"="+itoa(int(sc.DB.IdxMs[k])))
	}
	return strings.Join(s, " ")
}

// ---- P05

var badIndexArgs = []string{"users", "users:", ":name", "", ":", "users:a b", "us ers:a", "users:a+", "users:+a", "users:a++b", "a.b:c", "users:a;DROP TABLE x", "users:a,b",
	"users:name\nfoo", "foo\nusers:name", "users:a\n+b", "users:`a`", "users:\"a\"", "us-ers:a", "users:a-b", "users:(a)", "users :a", "users: a", "users:a ", " users:a", "users::a", "users:a:b",
	"users:name,todos:id", "users:name;users:id", "users:name users:id", "users:name|id", "users:name,", ",users:name", "users:name\tusers:id", "users.name", "users(name)", "users:name DESC", "users:ñame"}

func genP05(r *Rng, seed uint64) *Case {
	sc := genExam(r, "P05", seed, 6)
	if r.P(25) {
		var idx []string
		for _, x := range sc.Truth.Requested {
			idx = append(idx, x.Table+":"+strings.Join(x.Cols, "+"))
		}
		bad := pick(r, badIndexArgs...)
		if r.P(25) { // nothing but the malformed one
			idx = nil
		}
		at := r.N(len(idx) + 1)
		idx = append(idx[:at:at], append([]string{bad}, idx[at:]...)...)
		sc.rebuildArgs(r.P(85), idx)
		sc.Truth.BadIndexArg = true
		sc.Kind += "/bad-i"
	} else {
		benign(r, sc, 5, 500)
	}
	return &Case{Scs: []*Scenario{sc}}
}

func checkP05(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if !sc.Truth.BadIndexArg && died(o) {
		return noAnswer(sc, o)
	}
	if died(o) {
		return nil
	}
	rs := requests(o)
	cr := created(sc, rs)
	if sc.Truth.BadIndexArg {
		if len(cr) > 0 {
			return viol("bad-i-accepted", "an index was created although one -i value is malformed (args %q): %s", sc.Args, keysOf(cr))
		}
		if o.Exit == 0 {
			return viol("bad-i-accepted", "the command succeeded although one -i value is malformed: %q", sc.Args)
		}
		return nil
	}
	if o.Exit != 0 {
		return viol("exam-failed", "nothing went wrong, yet the examination failed: %s", lastLines(o.Stderr, 3))
	}
	s := sug(sc, o)
	if s == nil {
		return nil
	}
	want := sc.Truth.Requested
	if len(want) == 0 {
		for _, x := range s.Indexes {
			if x.T().safe() {
				want = append(want, x.T())
			}
		}
	}
	if keysOf(cr) != keysOf(want) {
		return viol("tried", "indexes tried: [%s]; to be tried: [%s]", keysOf(cr), keysOf(want))
	}
	if s.Examined == nil {
		return viol("no-result", "--with-examine was given but the report has no examination result")
	}
	var got []IdxT
	for _, x := range s.Examined.Results {
		got = append(got, x.Idx.T())
	}
	if keysOf(got) != keysOf(want) {
		return viol("results", "results shown: [%s]; indexes tried: [%s]", keysOf(got), keysOf(want))
	}
	return nil
}
