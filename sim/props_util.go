package zzverifsim

import (
	"strings"
)

var dbCmds = []string{"mysql", "postgres", "hasura"}

// ---- fault generation

// dbClasses are the requests a database command makes.
func dbClasses(cmd string, examine bool) []string {
	cs := []string{"dial", "explain", "columns", "indexes"}
	if cmd != "hasura" {
		cs = append(cs, "handshake")
	}
	if cmd == "mysql" || cmd == "postgres" {
		cs = append(cs, "prepare")
	}
	if examine {
		cs = append(cs, "exec", "create", "drop")
	}
	return cs
}

var badBodies = []string{emptyBody, "\n", "<html><body>502 Bad Gateway</body></html>", `{"data":{"f0":[{"id":1`, `[`, `"oops"x`}

// genFault makes one harmful fault for a class.
func genFault(r *Rng, cmd, class string, maxN int) Fault {
	f := Fault{Class: class, Nth: r.N(maxN)}
	switch class {
	case "dial":
		f.Nth = r.N(3)
		f.Kind = pick(r, "refuse", "refuse", "timeout")
		f.Arg = 1
		if r.P(20) {
			f.Nth = -1
		}
		return f
	}
	kinds := []string{"err", "err", "fatal", "reset_before", "reset_after", "cut"}
	if cmd == "hasura" {
		kinds = append(kinds, "http_status", "bad_body", "http_status", "redirect")
		if class == "exec" {
			kinds = append(kinds, "gql_errors", "gql_partial")
		}
	} else if class != "handshake" && class != "prepare" {
		kinds = append(kinds, "err_mid", "err_mid")
		if cmd == "mysql" && class == "explain" {
			kinds = append(kinds, "no_rows")
		}
	}
	f.Kind = pick(r, kinds...)
	switch f.Kind {
	case "err":
		f.Arg = int64(r.N(len(errKinds)))
	case "cut":
		f.Arg = int64(pick(r, 0, 1, 3, 5, 9, r.N(40), r.N(200), r.N(800)))
	case "http_status":
		f.Arg = int64(pick(r, 400, 401, 404, 429, 500, 502, 503, 202, 203, 204, 206, 207, 304, 403, 409, 504))
	case "redirect":
		f.Arg, f.Text = int64(pick(r, 301, 302, 303, 307, 307, 308)), "http://elsewhere.example:8081"
	case "bad_body":
		f.Text = pick(r, badBodies...)
	}
	maybeFin(r, &f)
	return f
}

// maybeFin lets a broken connection end with FIN instead of RST.
func maybeFin(r *Rng, f *Fault) {
	switch f.Kind {
	case "reset_before", "reset_after", "cut":
		if r.P(40) {
			f.Text = "fin"
		}
	}
}

// benign disturbances: they must never change the outcome of a run.
func benign(r *Rng, sc *Scenario, maxN int, stallMs int) {
	cs := dbClasses(sc.Cmd, sc.examining())
	for k := r.N(3); k > 0; k-- {
		c := cs[r.N(len(cs))]
		if c == "dial" {
			sc.Faults = append(sc.Faults, Fault{Kind: "slow", Class: "dial", Nth: r.N(2), Arg: int64(r.Range(1, 2000))})
			continue
		}
		if r.P(50) {
			sc.Faults = append(sc.Faults, Fault{Kind: "stall", Class: c, Nth: r.N(maxN), Arg: int64(r.Range(1, stallMs))})
		} else if c != "handshake" && c != "prepare" {
			sc.Faults = append(sc.Faults, Fault{Kind: "idle_close", Class: c, Nth: r.N(maxN)})
		}
	}
}

func uniq(xs []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func genWallSteps(r *Rng, sc *Scenario) {
	for k := r.N(3); k > 0; k-- {
		sc.WallSteps = append(sc.WallSteps, WallStep{AtMs: int64(r.N(3000)), DeltaMs: int64(pick(r, -3600000, -1500, 2500, 86400000, -60000, 7))})
	}
}

func oldReport(r *Rng, sc *Scenario) {
	if r.P(60) {
		s := "PREVIOUS REPORT"
		sc.PreOutput = &s
	}
}

// untouched: a failed command left the output path alone.
func untouched(sc *Scenario, o *Outcome) *Violation {
	if sc.OutName == "" {
		return nil
	}
	if sc.PreOutput == nil {
		if o.HasOut {
			return viol("report-on-failure", "the command failed (exit %d) but wrote %d bytes to its output path", o.Exit, len(o.Out))
		}
		return nil
	}
	if !o.HasOut || string(o.Out) != *sc.PreOutput {
		return viol("report-on-failure", "the command failed (exit %d) but replaced or removed the file already at its output path", o.Exit)
	}
	return nil
}

// ---- reading histories

type reqRec struct {
	class  string
	nth    int
	text   string
	idx    string
	dur    int64
	pos    int // index of the request event
	t      int64
	ok     bool
	rep    bool
	end    int64
	faults []string
}

// requests pairs requests with their replies.
func requests(o *Outcome) []*reqRec {
	var out []*reqRec
	m := map[string]*reqRec{}
	for i, e := range o.Events {
		k := e.Class + "#" + itoa(e.Nth)
		switch e.Kind {
		case "req":
			r := &reqRec{class: e.Class, nth: e.Nth, text: e.Text, idx: e.Idx, dur: e.Dur, pos: i, t: e.T}
			m[k] = r
			out = append(out, r)
		case "reply":
			if r := m[k]; r != nil {
				r.rep, r.ok, r.end = true, e.Ok, e.T
			}
		case "fault":
			if len(out) > 0 && out[len(out)-1].class == e.Class {
				l := out[len(out)-1]
				l.faults = append(l.faults, e.Text)
			}
		}
	}
	return out
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

func ofClass(rs []*reqRec, cs ...string) []*reqRec {
	var out []*reqRec
	for _, r := range rs {
		for _, c := range cs {
			if r.class == c {
				out = append(out, r)
			}
		}
	}
	return out
}

func hasEvent(o *Outcome, kinds ...string) *Event {
	for i := range o.Events {
		for _, k := range kinds {
			if o.Events[i].Kind == k {
				return &o.Events[i]
			}
		}
	}
	return nil
}

func (sc *Scenario) my() bool { return sc.Cmd == "mysql" }

// created lists the indexes the tool asked for, in order.
func created(sc *Scenario, rs []*reqRec) []IdxT {
	var out []IdxT
	for _, r := range ofClass(rs, "create") {
		dd := parseIndexDDL(r.text, sc.my())
		if dd == nil {
			continue
		}
		out = append(out, canon(sc, IdxT{dd.table, dd.cols}))
	}
	return out
}

// canon spells columns as the table declares them: MySQL ignores their case.
func canon(sc *Scenario, x IdxT) IdxT {
	if !sc.my() || sc.DB == nil {
		return x
	}
	return IdxT{x.Table, declared(sc.DB.Tables, sc.DB.Schema, x.Table, x.Cols)}
}

func declared(ts []TableSpec, schema, table string, cols []string) []string {
	out := append([]string(nil), cols...)
	for i := range ts {
		if schema != "" && ts[i].Schema != schema || ts[i].Name != table {
			continue
		}
		for j, c := range out {
			for _, tc := range ts[i].Cols {
				if !tc.Dropped && strings.EqualFold(tc.Name, c) {
					out[j] = tc.Name
				}
			}
		}
	}
	return out
}

func keysOf(xs []IdxT) string {
	var s []string
	for _, x := range xs {
		s = append(s, x.Key())
	}
	return strings.Join(s, " ")
}

func sameIdx(a, b IdxT, fold bool) bool {
	if fold {
		return strings.EqualFold(a.Key(), b.Key())
	}
	return a.Key() == b.Key()
}

// sug reads the report of a successful run; a run that succeeded without readable report is
// reported by P07 and P06 only.
func sug(sc *Scenario, o *Outcome) *SugData {
	if !o.HasOut {
		return nil
	}
	r, err := ParseReport(o.Out)
	if err != nil {
		return nil
	}
	d := r.Sug(sc.Cmd)
	if d != nil && sc.my() {
		for i := range d.Indexes {
			d.Indexes[i].rename(canon(sc, d.Indexes[i].T()).Cols)
		}
		if d.Examined != nil {
			for i := range d.Examined.Results {
				x := &d.Examined.Results[i].Idx
				x.rename(canon(sc, x.T()).Cols)
			}
		}
	}
	return d
}

func died(o *Outcome) bool { return o.Panic != "" || o.Hang || o.Crashed }

// noAnswer: nothing went wrong outside the command, so it has to deliver its report.
func noAnswer(sc *Scenario, o *Outcome) *Violation {
	for k := range o.Fired {
		switch k[strings.IndexByte(k, '/')+1:] {
		case "stall", "slow":
		case "idle_close", "goaway":
			if sc.Cmd == "jaeger" {
				return nil
			}
		default:
			return nil
		}
	}
	for _, e := range o.Events {
		if e.Kind == "reply" && !e.Ok {
			return nil
		}
	}
	switch {
	case o.Panic != "":
		return viol("no-answer", "nothing is wrong with the backend, yet the command crashed: %.300s", o.Panic)
	case o.Hang:
		return viol("no-answer", "nothing is wrong with the backend, yet the command never ended")
	case o.Crashed:
		return viol("no-answer", "nothing is wrong with the backend, yet the process died: %.300s", o.CrashMsg)
	case o.Exit != 0:
		return viol("no-answer", "nothing is wrong with the backend, yet the command failed: %s", lastLines(o.Stderr, 3))
	case sc.OutName != "":
		if !o.HasOut {
			return viol("no-answer", "the command succeeded but wrote no report")
		}
		if _, err := ParseReport(o.Out); err != nil {
			return viol("no-answer", "the command succeeded but its report is not complete: %v", err)
		}
	}
	return nil
}
