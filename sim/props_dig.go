package zzverifsim

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "P11", Gen: genP11, Check: checkP11, Quick: 7500, Thorough: 150000,
		Live: func(c *Case, outs []*Outcome) bool {
			return outs[0].Exit == 0 && outs[0].Jaeger != nil && len(outs[0].Jaeger.Reqs) > 0
		},
		Rule: "one simulated app dig jaeger per seed over a random store of traces placed inside, outside and exactly at the edges of the period and of its 30-minute pieces, some with spans in several pieces; random start offsets, durations, counts; non-trivial: succeeded and asked Jaeger at least once; distinct by event history"})
	register(&Prop{ID: "P12", Gen: genP12, Check: checkP12, Quick: 3750, Thorough: 80000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].Exit == 0 && matched(c.Scs[0], outs[0]) > 0 },
		Rule: "two executions per seed over the same random traces (orphans, several roots, overlapping and skewed children, equal start times, database leaves), delivered with different span orders and groupings and run with different map orders; each report is compared with a reference model and with the other; non-trivial: at least one trace was fetched; distinct by event history"})
	register(&Prop{ID: "P13", Gen: genP13, Check: checkP13, Quick: 3200, Thorough: 40000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].AWS != nil && len(outs[0].AWS.PI) > 0 },
		Rule: "one simulated db dig performance-insights per seed over random instances (several engines), data points (at seams of half days and hours, zero and missing values), page sizes, and 0-5 transient AWS failures; non-trivial: metrics were requested; distinct by event history"})
	register(&Prop{ID: "P14", Gen: genP14, Check: checkP14, Quick: 2000, Thorough: 25000,
		Live: func(c *Case, outs []*Outcome) bool { return outs[0].AWS != nil && len(outs[0].AWS.PI) > 0 },
		Rule: "two executions per seed over the same data and the same instant, written with different UTC offsets and run in different local time zones; hour buckets of both reports are compared with a reference sum and with each other; non-trivial: metrics were requested; distinct by event history"})
	register(&Prop{ID: "P15", Gen: genP15, Check: checkP15, Quick: 5500, Thorough: 120000,
		Live: func(c *Case, outs []*Outcome) bool { return unanswered(c.Scs[0], outs[0]) != "" },
		Rule: "one simulated dig per seed with 1-4 faults (unreachable backend, resets, cut and failing streams, RPC status codes, AWS denials, repeated throttling and server errors, malformed bodies) at random requests; non-trivial: at least one needed answer never arrived completely; distinct by event history"})
}

// ---- P11

func genP11(r *Rng, seed uint64) *Case {
	o := jOpts{nTraces: r.Range(1, 14), spans: pick(r, 1, 1, 4), bound: true}
	if r.P(6) {
		o = jOpts{nTraces: r.Range(95, 140), spans: 1, many: true, short: true}
	}
	sc := genJaeger(r, "P11", seed, o)
	if r.P(30) {
		for k := r.N(3); k > 0; k-- {
			sc.Faults = append(sc.Faults, Fault{Kind: pick(r, "stall", "idle_close"), Class: "find", Nth: r.N(20), Arg: int64(r.Range(1, 900))})
		}
	}
	if r.P(3) { // a start in the future holds nothing
		for i, a := range sc.Args {
			if a == "--start-from" {
				sc.Args[i+1] = stamp(r, (sc.StartUnix+int64(r.Range(60, 90000)))*1e9)
			}
		}
	}
	return &Case{Scs: []*Scenario{sc}}
}

func overflowed(sc *Scenario, o *Outcome) bool {
	num := argInt(sc, "-c", 500)
	for _, r := range o.Jaeger.Reqs {
		if num > 0 && r.Matching > num {
			return true
		}
	}
	return false
}

func jaegerData(o *Outcome) *JaegerData {
	if !o.HasOut {
		return nil
	}
	r, err := ParseReport(o.Out)
	if err != nil || r.Dig == nil {
		return nil
	}
	return r.Dig.Jaeger
}

const secNs = int64(1e9)

func checkP11(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if v := noAnswer(sc, o); v != nil {
		return v
	}
	if died(o) || o.Exit != 0 || o.Jaeger == nil {
		return nil
	}
	j := jaegerData(o)
	if j == nil {
		return nil
	}
	svc := argVal(sc, "-s", "")
	durNs := int64(argInt(sc, "-d", 1000)) * 1e6
	count := argInt(sc, "-c", 500)
	thr := argInt(sc, "-t", 5)
	start, end := jPeriod(sc)
	// what was asked
	type iv struct{ a, b int64 }
	var ivs []iv
	for _, r := range o.Jaeger.Reqs {
		if r.Service != svc {
			return viol("service", "Jaeger was asked for service %q instead of %q", r.Service, svc)
		}
		if r.Dur != durNs {
			return viol("duration", "Jaeger was asked for traces of at least %d ns instead of %d ns", r.Dur, durNs)
		}
		if r.Num != count {
			return viol("count", "Jaeger was asked for %d traces instead of %d", r.Num, count)
		}
		if r.Min < start-secNs || r.Max > end+1800*secNs+secNs || r.Min > r.Max {
			return viol("period", "Jaeger was asked for %d..%d, the requested period is %d..%d", r.Min, r.Max, start, end)
		}
		if r.Ok {
			ivs = append(ivs, iv{r.Min, r.Max})
		}
	}
	if end-start > 2*secNs {
		sort.Slice(ivs, func(a, b int) bool { return ivs[a].a < ivs[b].a })
		at := start
		for _, v := range ivs {
			if v.a > at {
				break
			}
			if v.b > at {
				at = v.b
			}
		}
		if at < end-secNs {
			return viol("gap", "the period %d..%d was not asked for completely: nothing covers %d", start, end, at)
		}
	}
	// what was reported
	must, may := map[string]*mTree{}, map[string]*mTree{}
	for _, t := range sc.Jaeger.Traces {
		in, near := false, false
		for _, s := range t.Spans {
			if s.Service != svc || s.End-s.Start < durNs {
				continue
			}
			if s.Start >= start && s.Start <= end-secNs {
				in = true
			}
			if s.Start >= start-secNs && s.Start <= end+1801*secNs {
				near = true
			}
		}
		for _, m := range model(t) {
			if in {
				must[m.key()] = m
			}
			if near {
				may[m.key()] = m
			}
		}
	}
	for li, list := range [][]RTrace{j.SlowT, j.SameT} {
		name := []string{"slow traces", "same-service traces"}[li]
		seen := map[string]bool{}
		for _, t := range list {
			if t.Root == nil {
				return viol("no-root", "a trace in the list of %s has no root", name)
			}
			k := t.ID + "/" + t.Root.ID
			if seen[k] {
				return viol("twice", "trace %s is listed more than once among the %s", k, name)
			}
			seen[k] = true
			if may[k] == nil {
				return viol("alien", "trace %s is listed among the %s although no stored trace of the service in the period matches it", k, name)
			}
		}
		if overflowed(sc, o) {
			continue
		}
		for k, m := range must {
			if seen[k] {
				continue
			}
			if li == 1 && m.count > thr {
				return viol("missing", "trace %s (root start %d, duration %d ms) matches but is missing from the %s", k, m.root.Start, m.dur()/1e6, name)
			}
			if li == 0 && len(list) < 100 {
				return viol("missing", "trace %s (root start %d, duration %d ms) matches but is missing from the %s, which list only %d", k, m.root.Start, m.dur()/1e6, name, len(list))
			}
		}
	}
	return nil
}

// ---- P12

func genP12(r *Rng, seed uint64) *Case {
	o := jOpts{nTraces: r.Range(1, 6), spans: pick(r, 3, 8, 20), odd: r.P(15), short: true}
	if r.P(8) {
		o = jOpts{nTraces: r.Range(95, 130), spans: 2, many: true, short: true}
	}
	sc := genJaeger(r, "P12", seed, o)
	for _, t := range sc.Jaeger.Traces {
		for i := range t.Spans {
			if r.P(2) {
				t.Spans[i].Extra |= 16
			}
		}
	}
	b := sc.Clone()
	b.RandSeed, b.SchedSeed = r.U64()|1, r.U64()|1
	b.Jaeger.SpanShuffle = r.U64()
	b.Net = genNet(r)
	return &Case{Scs: []*Scenario{sc, b}}
}

func matched(sc *Scenario, o *Outcome) int {
	n := 0
	if o.Jaeger != nil {
		for _, r := range o.Jaeger.Reqs {
			n += r.Sent
		}
	}
	return n
}

// cmpTree compares a reported tree with the model.
func cmpTree(m *mSpan, r *RSpan, path string) *Violation {
	path += "/" + m.ID
	if r == nil {
		return viol("tree", "span %s is missing", path)
	}
	if r.ID != m.ID {
		return viol("tree", "span %s is shown where %s belongs", r.ID, path)
	}
	if r.Name != m.Name {
		return viol("tree", "span %s is called %q, not %q", path, m.Name, r.Name)
	}
	if r.Service != m.svc {
		return viol("tree", "span %s belongs to service %q, not %q", path, m.svc, r.Service)
	}
	if r.Start != m.Start/1e6 || r.End != m.End/1e6 {
		return viol("tree", "span %s lasts %d..%d ms, not %d..%d", path, m.Start/1e6, m.End/1e6, r.Start, r.End)
	}
	if len(r.Children) != len(m.kept) {
		return viol("tree", "span %s has %d kept children, the report shows %d", path, len(m.kept), len(r.Children))
	}
	by := map[string]*mSpan{}
	for _, k := range m.kept {
		by[k.ID] = k
	}
	last := int64(math.MinInt64)
	for _, rc := range r.Children {
		k := by[rc.ID]
		if k == nil {
			return viol("tree", "span %s is shown under %s but does not belong there", rc.ID, path)
		}
		delete(by, rc.ID)
		if k.Start < last {
			return viol("child-order", "the children of %s are not ordered by start time", path)
		}
		last = k.Start
		if v := cmpTree(k, rc, path); v != nil {
			return v
		}
	}
	return nil
}

func checkP12(c *Case, outs []*Outcome) *Violation {
	for i, o := range outs {
		if v := noAnswer(c.Scs[i], o); v != nil {
			return v
		}
		if died(o) || o.Exit != 0 || o.Jaeger == nil {
			return nil
		}
		if v := checkTrees(c.Scs[i], o); v != nil {
			return v
		}
	}
	if len(outs) < 2 {
		return nil
	}
	a, b := jaegerData(outs[0]), jaegerData(outs[1])
	if a == nil || b == nil {
		return nil
	}
	if !reflect.DeepEqual(a, b) {
		x, _ := json.Marshal(a)
		y, _ := json.Marshal(b)
		return viol("order-dependent", "the same traces delivered in another order give another report: %s", firstDiff(string(x), string(y)))
	}
	return nil
}

func checkTrees(sc *Scenario, o *Outcome) *Violation {
	j := jaegerData(o)
	if j == nil {
		return nil
	}
	thr := argInt(sc, "-t", 5)
	all := map[string]*mTree{}
	for i := range sc.Jaeger.Traces {
		t := &sc.Jaeger.Traces[i]
		hit := false
		for k := range o.Jaeger.Reqs {
			hit = hit || t.matches(&o.Jaeger.Reqs[k])
		}
		if hit {
			for _, m := range model(*t) {
				all[m.key()] = m
			}
		}
	}
	for _, list := range [][]RTrace{j.SlowT, j.SameT} {
		for _, t := range list {
			if t.Root == nil {
				return viol("no-root", "a listed trace has no root")
			}
			k := t.ID + "/" + t.Root.ID
			m := all[k]
			if m == nil {
				return viol("alien", "the report shows a trace %s that was never delivered with that root", k)
			}
			if v := cmpTree(m.root, t.Root, t.ID); v != nil {
				return v
			}
			if t.Count != m.count {
				return viol("access-count", "trace %s visits one service %d times at most, the report says %d", k, m.count, t.Count)
			}
			if !m.most[t.Most] && !(m.most0 && t.Most == "") {
				return viol("most-consuming", "trace %s spends most of its time in %v, the report says %q", k, sortedKeys(m.most), t.Most)
			}
		}
	}
	if overflowed(sc, o) {
		return nil
	}
	// slow list: the longest, in descending order
	var durs []int64
	for _, m := range all {
		durs = append(durs, m.dur())
	}
	sort.Slice(durs, func(a, b int) bool { return durs[a] > durs[b] })
	seen := map[string]bool{}
	var got []int64
	for _, t := range j.SlowT {
		k := t.ID + "/" + t.Root.ID
		if seen[k] {
			continue // reported by P11
		}
		seen[k] = true
		got = append(got, all[k].dur())
	}
	if len(got) == len(j.SlowT) {
		want := durs[:minInt(100, len(durs))]
		if len(got) != len(want) {
			return viol("slow-list", "%d traces were fetched, the list of slow traces holds %d", len(durs), len(got))
		}
		for i := range got {
			if got[i] != want[i] {
				return viol("slow-list", "number %d of the slow traces lasts %d ns, it should be one of %d ns", i+1, got[i], want[i])
			}
		}
	}
	same := map[string]bool{}
	for _, t := range j.SameT {
		k := t.ID + "/" + t.Root.ID
		same[k] = true
		if all[k].count <= thr {
			return viol("same-list", "trace %s is listed although it visits one service only %d times (threshold %d)", k, all[k].count, thr)
		}
	}
	for k, m := range all {
		if m.count > thr && !same[k] {
			return viol("same-list", "trace %s visits one service %d times (threshold %d) but is not listed", k, m.count, thr)
		}
	}
	return nil
}

// ---- P13 / P14

// awsTransient adds failures that the SDK's three attempts absorb.
func awsTransient(r *Rng, sc *Scenario, max int) {
	n := r.N(max + 1)
	used := map[string]bool{}
	total := 2 * 14 * maxInt(1, len(sc.AWS.Instances))
	for k := 0; k < n; k++ {
		cl := pick(r, "pi", "pi", "pi", "rds")
		at := r.N(total)
		if cl == "rds" {
			at = r.N(3)
		}
		run := r.Range(1, 2)
		free := true
		for x := at - 2; x < at+run+2; x++ {
			free = free && !used[cl+itoa(x)]
		}
		if !free {
			continue
		}
		for x := at; x < at+run; x++ {
			used[cl+itoa(x)] = true
			f := Fault{Class: cl, Nth: x, Kind: pick(r, "throttle", "http_status", "reset_before", "reset_after")}
			if f.Kind == "http_status" {
				f.Arg = int64(pick(r, 500, 502, 503, 504))
			}
			maybeFin(r, &f)
			sc.Faults = append(sc.Faults, f)
		}
	}
	for k := r.N(3); k > 0; k-- {
		sc.Faults = append(sc.Faults, Fault{Class: pick(r, "pi", "rds"), Nth: r.N(6), Kind: "stall", Arg: int64(r.Range(1, 1500))})
	}
}

func genP13(r *Rng, seed uint64) *Case {
	o := piOpts{inst: 3, chatty: r.P(40), paging: true, points: 16, odd: r.P(20)}
	if r.P(4) {
		o.fleet, o.chatty, o.points = true, false, 6
	}
	sc := genPI(r, "P13", seed, o)
	awsTransient(r, sc, 4)
	return &Case{Scs: []*Scenario{sc}}
}

// piStart: earliest and latest instant that counts as the chosen start (ns).
func piStart(sc *Scenario, o *Outcome) (int64, int64) {
	start, _ := piPeriod(sc)
	if argVal(sc, "--start-from", "") != "" {
		return start, start
	}
	late := o.SimNs
	for _, e := range o.Events {
		if e.Kind == "req" && e.Class == "pi" {
			late = e.T
			break
		}
	}
	return start, start + late + int64(1e6)
}

type piKey struct{ inst, sql string }
type piPoint struct {
	t    int64
	v    float64
	edge bool
}

// piModel: the points that have to appear, by instance and statement; edge points lie in a partial
// five-minute period at the ends and may appear or not.
func piModel(sc *Scenario, o *Outcome, group string) map[piKey][]piPoint {
	s0, s1 := piStart(sc, o)
	const week = int64(7*24*3600) * 1e9
	f := func(ns int64) float64 { return float64(ns/1e6) / 1e3 }
	lo, loIn := floor5(f(s0)), ceil5(f(s1))
	hiIn, hi := floor5(f(s0+week)), ceil5(f(s1+week))
	out := map[piKey][]piPoint{}
	for _, in := range sc.AWS.Instances {
		if in.Engine != "mysql" {
			continue
		}
		for _, m := range in.Metrics {
			if m.Group != group {
				continue
			}
			k := piKey{in.ID, m.SQL}
			for _, p := range m.Points {
				if p.T <= lo || p.T > hi {
					continue
				}
				out[k] = append(out[k], piPoint{p.T, p.V, p.T <= loIn || p.T > hiIn})
			}
		}
	}
	return out
}

// sumsTo: is sum made of all firm points and some of the edge points?
func sumsTo(ps []piPoint, sum float64) bool {
	base := 0.0
	var edge []float64
	for _, p := range ps {
		if p.edge {
			edge = append(edge, p.v)
		} else {
			base += p.v
		}
	}
	for b := 0; b < 1<<uint(len(edge)); b++ {
		s := base
		for i, e := range edge {
			if b>>uint(i)&1 != 0 {
				s += e
			}
		}
		if math.Abs(s-sum) < 1e-7 {
			return true
		}
	}
	return false
}

func firm(ps []piPoint) bool {
	for _, p := range ps {
		if !p.edge {
			return true
		}
	}
	return false
}

func piData(o *Outcome) *Report {
	if !o.HasOut {
		return nil
	}
	r, err := ParseReport(o.Out)
	if err != nil || r.Dig == nil || r.Dig.PI == nil {
		return nil
	}
	return r
}

func checkP13(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if v := noAnswer(sc, o); v != nil {
		return v
	}
	if died(o) {
		return nil
	}
	if o.Exit != 0 {
		return viol("gave-up", "the command failed (exit %d) although AWS only failed transiently: %s", o.Exit, lastLines(o.Stderr, 3))
	}
	r := piData(o)
	if r == nil {
		return nil
	}
	for g, loads := range map[string][]HourLoad{"db.sql": r.Dig.PI.SQL, "db.sql_tokenized": r.Dig.PI.Tok} {
		want := piModel(sc, o, g)
		got := map[piKey]float64{}
		for _, h := range loads {
			for _, d := range h.DBs {
				for _, s := range d.Sqls {
					got[piKey{d.Name, s.SQL}] += s.Sum
				}
			}
		}
		for k, ps := range want {
			if !sumsTo(ps, got[k]) {
				if got[k] == 0 {
					return viol("missing-data", "the %s data of instance %s, statement %q (%d points) is missing", g, k.inst, k.sql, len(ps))
				}
				return viol("conservation", "the %s load of instance %s, statement %q adds up to %v in the report, its data points to %v", g, k.inst, k.sql, got[k], total(ps))
			}
		}
		for k, v := range got {
			if want[k] == nil {
				return viol("alien-data", "the report shows %s load %v of instance %s, statement %q, which no data point supports", g, v, k.inst, k.sql)
			}
		}
	}
	return nil
}

func total(ps []piPoint) float64 {
	s := 0.0
	for _, p := range ps {
		s += p.v
	}
	return s
}

func genP14(r *Rng, seed uint64) *Case {
	o := piOpts{inst: 2, chatty: r.P(30), points: 20, odd: r.P(20)}
	if r.P(8) {
		o.fleet, o.chatty, o.points = true, false, 6
	}
	a := genPI(r, "P14", seed, o)
	if r.P(30) {
		// several points in every one of a few hours
		for i := range a.AWS.Instances {
			ms := a.AWS.Instances[i].Metrics
			for k := range ms {
				if len(ms[k].Points) == 0 || !r.P(50) {
					continue
				}
				h := ms[k].Points[0].T / 3600 * 3600
				var ps []PtSpec
				for x := 0; x < 12; x++ {
					ps = append(ps, PtSpec{h + int64(x)*300, float64(r.Range(1, 4000)) / 1024})
				}
				ms[k].Points = ps
			}
		}
	}
	b := a.Clone()
	b.RandSeed, b.SchedSeed, b.Net = r.U64()|1, r.U64()|1, a.Net
	b.TZOff = pick(r, 0, 9*3600, -5*3600, 19800, -34200, 20700, 45900, -12*3600, 14*3600)
	start, _ := piPeriod(a)
	for i, x := range b.Args {
		if x == "--start-from" {
			b.Args[i+1] = stamp(r, start)
		}
	}
	return &Case{Scs: []*Scenario{a, b}}
}

func checkP14(c *Case, outs []*Outcome) *Violation {
	var reps []*Report
	for i, o := range outs {
		sc := c.Scs[i]
		if v := noAnswer(sc, o); v != nil {
			return v
		}
		if died(o) || o.Exit != 0 {
			return nil
		}
		r := piData(o)
		if r == nil {
			return nil
		}
		reps = append(reps, r)
		if v := hourly(sc, o, "db.sql", r.Dig.PI.SQL); v != nil {
			return v
		}
		if v := hourly(sc, o, "db.sql_tokenized", r.Dig.PI.Tok); v != nil {
			return v
		}
	}
	if len(reps) == 2 {
		a, _ := json.Marshal(reps[0].Dig.PI)
		b, _ := json.Marshal(reps[1].Dig.PI)
		x, _ := piPeriod(c.Scs[0])
		y, _ := piPeriod(c.Scs[1])
		if string(a) != string(b) && x == y && argVal(c.Scs[0], "--start-from", "") != "" {
			return viol("zone-dependent", "the same data and instant give different reports in another time zone or offset: %s", firstDiff(string(a), string(b)))
		}
	}
	return nil
}

func hourly(sc *Scenario, o *Outcome, g string, loads []HourLoad) *Violation {
	s0, s1 := piStart(sc, o)
	const week = int64(7*24*3600) * 1000
	hr := int64(3600_000)
	s0, s1 = s0/1e6, s1/1e6
	if len(loads) == 0 {
		return viol("hours", "%s: no hours in the report", g)
	}
	if f := loads[0].TS; f != s0/hr*hr && f != s1/hr*hr {
		return viol("hours", "%s: the first hour is %d, the period starts at %d", g, f, s0)
	}
	for i := 1; i < len(loads); i++ {
		if loads[i].TS != loads[i-1].TS+hr {
			return viol("hours", "%s: hour %d is followed by %d", g, loads[i-1].TS, loads[i].TS)
		}
	}
	if l := loads[len(loads)-1].TS; l != (s0+week)/hr*hr && l != (s1+week)/hr*hr {
		return viol("hours", "%s: the last hour is %d, the period ends at %d", g, l, s0+week)
	}
	type hk struct {
		h int64
		k piKey
	}
	want := map[hk][]piPoint{}
	for k, ps := range piModel(sc, o, g) {
		for _, p := range ps {
			x := hk{p.t * 1000 / hr * hr, k}
			want[x] = append(want[x], p)
		}
	}
	got := map[hk]bool{}
	for _, h := range loads {
		dbs := map[string]bool{}
		for _, d := range h.DBs {
			if dbs[d.Name] {
				return viol("entry-twice", "%s: instance %s is listed twice in hour %d", g, d.Name, h.TS)
			}
			dbs[d.Name] = true
			for _, s := range d.Sqls {
				x := hk{h.TS, piKey{d.Name, s.SQL}}
				if got[x] {
					return viol("entry-twice", "%s: statement %q of %s is listed twice in hour %d", g, s.SQL, d.Name, h.TS)
				}
				got[x] = true
				ps := want[x]
				if ps == nil {
					return viol("wrong-hour", "%s: hour %d shows load of instance %s, statement %q, but no data point lies in that hour", g, h.TS, d.Name, s.SQL)
				}
				if !sumsTo(ps, s.Sum) {
					return viol("sum", "%s: hour %d, instance %s, statement %q: the sum is %v, the points add up to %v", g, h.TS, d.Name, s.SQL, s.Sum, total(ps))
				}
				mx, mxFirm := 0.0, 0.0
				for _, p := range ps {
					mx = math.Max(mx, p.v)
					if !p.edge {
						mxFirm = math.Max(mxFirm, p.v)
					}
				}
				okMax := s.Max == mx || s.Max == mxFirm
				for _, p := range ps {
					okMax = okMax || p.edge && p.v == s.Max && p.v >= mxFirm
				}
				if !okMax {
					return viol("max", "%s: hour %d, instance %s, statement %q: the maximum is %v, the largest point is %v", g, h.TS, d.Name, s.SQL, s.Max, mx)
				}
			}
		}
	}
	for x, ps := range want {
		if !got[x] && firm(ps) {
			return viol("lost", "%s: the %d point(s) of instance %s, statement %q in hour %d are missing", g, len(ps), x.k.inst, x.k.sql, x.h)
		}
	}
	return nil
}

// ---- P15

var grpcCodes = []int{2, 4, 5, 7, 8, 13, 14, 16}

func genP15(r *Rng, seed uint64) *Case {
	var sc *Scenario
	if r.P(60) {
		sc = genJaeger(r, "P15", seed, jOpts{nTraces: r.Range(1, 8), spans: 3})
		for k := r.Range(1, 3); k > 0; k-- {
			f := Fault{Class: "find", Nth: r.N(pick(r, 2, 10, 48)), Kind: pick(r, "http_status", "http_status", "reset_before", "reset_after", "cut", "cut", "err_mid", "err_mid", "stall", "idle_close")}
			switch f.Kind {
			case "http_status":
				f.Arg = int64(grpcCodes[r.N(len(grpcCodes))])
			case "cut":
				f.Arg = int64(r.N(5))
			case "stall":
				f.Arg = int64(r.Range(1, 3000))
			}
			if r.P(15) {
				f.Nth = -1
			}
			maybeFin(r, &f)
			sc.Faults = append(sc.Faults, f)
		}
	} else {
		sc = genPI(r, "P15", seed, piOpts{inst: 2, chatty: r.P(20), paging: r.P(40), points: 8})
		for k := r.Range(1, 2); k > 0; k-- {
			f := Fault{Class: pick(r, "pi", "pi", "rds"), Nth: -1, Kind: pick(r, "throttle", "denied", "denied", "http_status", "reset_before", "reset_after", "cut", "bad_body")}
			maybeFin(r, &f)
			if f.Class == "pi" && r.P(70) || r.P(40) {
				f.Nth = r.N(pick(r, 3, 28, 60))
				if f.Class == "rds" {
					f.Nth = r.N(2)
				}
			}
			switch f.Kind {
			case "http_status":
				f.Arg = int64(pick(r, 400, 403, 404, 500, 503))
				if r.P(50) && f.Arg < 500 {
					f.Text = pick(r, "InvalidArgumentException", "NotAuthorizedException", "ExpiredToken", "ResourceNotFoundException", "ValidationError")
					if f.Class == "rds" {
						f.Text = pick(r, "DBInstanceNotFound", "DBInstanceNotFound", "InvalidParameterValue", "ExpiredToken", "OptInRequired", "InvalidClientTokenId")
					}
				}
			case "cut":
				f.Arg = int64(pick(r, 0, 1, 10, r.N(300)))
			case "bad_body":
				f.Text = pick(r, "<html><body>502 Bad Gateway</body></html>", `{"MetricList":[{"Key"`, "oops")
				if f.Class == "rds" {
					f.Text = pick(r, "<DescribeDBInstancesResponse><DescribeDBInstancesResult><DBInstances><DBInstance>", "<a><b></a>")
				}
			}
			n := 1
			if f.Nth >= 0 && r.P(60) {
				n = r.Range(2, 5) // outlasts the retries
			}
			for i := 0; i < n; i++ {
				sc.Faults = append(sc.Faults, f)
				f.Nth++
			}
		}
	}
	if r.P(8) {
		sc.Faults = []Fault{{Class: "backend", Kind: pick(r, "down", "down", "blackhole"), Arg: int64(pick(r, -1, -1, 300, 30000))}}
	}
	oldReport(r, sc)
	if r.P(10) {
		sc.WallSteps = append(sc.WallSteps, WallStep{AtMs: int64(r.N(100)), DeltaMs: int64(pick(r, -3600000, 60000))})
	}
	return &Case{Scs: []*Scenario{sc}}
}

// unanswered names a needed request that never got a complete answer ("" = none).
func unanswered(sc *Scenario, o *Outcome) string {
	ok := map[string]bool{}
	var order []string
	for _, r := range requests(o) {
		if r.class != "find" && r.class != "pi" && r.class != "rds" {
			continue
		}
		k := r.class + " " + r.text
		if _, has := ok[k]; !has {
			order = append(order, k)
		}
		ok[k] = ok[k] || r.ok
	}
	for _, k := range order {
		if !ok[k] {
			return k
		}
	}
	if len(order) == 0 {
		for _, e := range o.Events {
			if e.Kind == "dial" {
				return "connecting"
			}
		}
	}
	return ""
}

func checkP15(c *Case, outs []*Outcome) *Violation {
	sc, o := c.Scs[0], outs[0]
	if died(o) {
		return nil
	}
	if o.Exit != 0 {
		return untouched(sc, o)
	}
	if u := unanswered(sc, o); u != "" {
		if u == "connecting" {
			for _, ci := range o.Conns {
				if ci.Note == "connected" {
					return nil // connected and nothing to ask
				}
			}
		}
		return viol("success-on-failure", "the command succeeded although this was never answered completely: %s", u)
	}
	return nil
}

var _ = fmt.Sprint
var _ = strings.TrimSpace
