package zzverifsim

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// ---- Jaeger scenarios

type jOpts struct {
	nTraces int
	spans   int // maximal spans per trace
	odd     bool
	many    bool
	bound   bool // start times around window boundaries and period ends
	short   bool
}

var services = []string{"bff", "user", "payment", "stock", "auth-api"}
var oddServices = []string{"svc </script><i>", "サービス", "a&b \"q\"", "it's", "x\u2028y"}
var spacedServices = []string{"BFF", "User-Service", " payment", "stock ", "Auth API"}
var dbSystems = []string{"mysql", "redis", "postgresql", "other_sql", "mysql"}

func hexID(r *Rng, n int) string {
	const d = "0123456789abcdef"
	b := make([]byte, n)
	for {
		nz := false
		for i := range b {
			b[i] = d[r.N(16)]
			if i < n/2 && r.s&7 == 0 {
				b[i] = '0'
			}
			nz = nz || b[i] != '0'
		}
		if nz {
			return string(b)
		}
	}
}

// period of a Jaeger dig as the user asked for it (unix ns)
func jPeriod(sc *Scenario) (int64, int64) {
	now := sc.StartUnix*1e9 + sc.StartNano
	start := now - 24*3600*1e9
	for i, a := range sc.Args {
		if a == "--start-from" && i+1 < len(sc.Args) {
			t, err := time.Parse(time.RFC3339, sc.Args[i+1])
			if err != nil {
				return 0, 0
			}
			start = t.UnixNano()
		}
	}
	end := start + 24*3600*1e9
	if end > now {
		end = now
	}
	return start, end
}

func argVal(sc *Scenario, name, def string) string {
	for i, a := range sc.Args {
		if a == name && i+1 < len(sc.Args) {
			return sc.Args[i+1]
		}
	}
	return def
}

func argInt(sc *Scenario, name string, def int) int {
	v, err := strconv.Atoi(argVal(sc, name, strconv.Itoa(def)))
	if err != nil {
		return def
	}
	return v
}

func stamp(r *Rng, ns int64) string {
	t := time.Unix(0, ns)
	z := pick(r, 0, 0, 9*3600, -8*3600, 19800, -12600, 20700, 14*3600)
	t = t.In(time.FixedZone("", z))
	if r.P(15) {
		return t.Format(time.RFC3339Nano)
	}
	return t.Format(time.RFC3339)
}

func genJaeger(r *Rng, prop string, seed uint64, o jOpts) *Scenario {
	sc := baseScenario(r, prop, "jaeger", seed)
	addr := pick(r, "localhost:16685", "jaeger.internal:443", "10.9.8.7:16685", "[::1]:16685")
	sc.Env["JAEGER_GRPC_ADDRESS"] = addr
	ui := pick(r, "http://localhost:16686", "https://jaeger.example.com/ui/", "http://x/?a=1&b=2")
	sc.Env["JAEGER_UI_URL"] = ui
	svcs := append([]string(nil), services...)
	if o.odd {
		for i := range svcs {
			if r.P(40) {
				svcs[i] = oddServices[i]
			}
		}
	}
	if r.P(15) { // names that are easily confused
		for i := range svcs {
			if r.P(40) {
				svcs[i] = spacedServices[i]
			}
		}
		svcs = append(svcs, services[0], strings.ToUpper(services[0]), services[0]+" ")
		svcs = uniq(svcs)
	}
	shuffle(r, svcs)
	svcs = svcs[:r.Range(1, len(svcs))]
	svc := svcs[0]
	sc.Args = []string{"app", "dig", "jaeger", "-o", "out.html", "-s", svc}
	d := 1000
	if r.P(70) {
		d = pick(r, 0, 1, 10, 999, 1000, 1001, 1500, 2500, 60000)
		sc.Args = append(sc.Args, "-d", strconv.Itoa(d))
	}
	if r.P(60) {
		sc.Args = append(sc.Args, "-t", strconv.Itoa(pick(r, 0, 1, 2, 3, 5, 8)))
	} else if o.many {
		sc.Args = append(sc.Args, "-t", "0")
	}
	if r.P(40) {
		sc.Args = append(sc.Args, "-c", strconv.Itoa(pick(r, 20, 100, 500, 1000, 21, 33, 101, 501, 1999)))
	}
	now := sc.StartUnix*1e9 + sc.StartNano
	const hour = int64(3600) * 1e9
	switch r.N(10) {
	case 0, 1, 2:
	case 3, 4:
		if !o.short {
			sc.Args = append(sc.Args, "--start-from", stamp(r, now-24*hour-int64(r.N(1000))*hour/7))
			break
		}
		fallthrough
	case 5, 6, 7:
		sc.Args = append(sc.Args, "--start-from", stamp(r, now-int64(r.Range(1, 300))*60*1e9-int64(r.N(60))*1e9))
	case 8:
		sc.Args = append(sc.Args, "--start-from", stamp(r, now-int64(pick(r, 1800, 3600, 5400, 1799, 1801, 59))*1e9))
	default:
		sc.Args = append(sc.Args, "--start-from", stamp(r, now-int64(r.Range(1, 23))*hour))
	}
	start, end := jPeriod(sc)
	j := &JaegerSpec{Addr: addr, Shuffle: r.U64(), SpanShuffle: r.U64(), RpcMs: int64(pick(r, 0, 1, 30, 400))}
	const win = int64(1800) * 1e9
	used := map[string]bool{}
	for k := 0; k < o.nTraces; k++ {
		// when the trace happens
		span := end - start
		if span < 1 {
			span = 1
		}
		t := start + int64(r.F()*float64(span))
		if o.bound && r.P(60) {
			base := start / 1e9 * 1e9
			t = base + int64(r.N(int(span/win)+2))*win + int64(pick(r, 0, 0, 1, -1, 1000, -1000, 1e6, 5e8, -1e9, 1e9, 1e9-1, 2e9))
			if r.P(20) {
				t = end + int64(pick(r, 0, -1, -1e9, -1e9-1, -2e9, 1, 1e9, 60*1e9, 3600*1e9))
			}
		} else if r.P(10) {
			t = start - int64(r.N(7200))*1e9 // outside
		} else if r.P(5) {
			t = end + int64(r.N(3*3600))*1e9
		}
		id := hexID(r, 32)
		if n := len(j.Traces); n > 0 && r.P(12) { // ids that differ in one half only
			if o := j.Traces[r.N(n)].ID; r.P(50) {
				id = id[:16] + o[16:]
			} else {
				id = o[:16] + id[16:]
			}
		}
		if used[id] {
			continue
		}
		used[id] = true
		j.Traces = append(j.Traces, genTrace(r, id, t, int64(d)*1e6, svc, svcs, o))
	}
	if n := len(j.Traces); n > 0 && o.spans > 1 && r.P(3) { // a trace that carries bodies
		t := j.Traces[r.N(n)]
		t.Spans[r.N(len(t.Spans))].KB = pick(r, 60, 1000, 4090, 4200, 6000)
	}
	sc.Jaeger = j
	sc.Truth = &Truth{}
	return sc
}

// genTrace makes one trace whose first span starts at t.
func genTrace(r *Rng, id string, t, minDur int64, svc string, svcs []string, o jOpts) TraceSpec {
	tr := TraceSpec{ID: id}
	dur := minDur + int64(pick(r, 0, 0, 1, -1, 1e6, 5e8, 3e9, 60*1e9, r.N(int(2e9))))
	if dur < 0 {
		dur = 0
	}
	names := []string{"GET /", "POST /users", "SELECT", "handler", "rpc.Call", "GET /a?b=1&c=<x>"}
	if r.P(12) {
		names = append(names, "SELECT "+strings.Repeat("a_rather_long_column, ", pick(r, 6, 13, 60, 900))+"x FROM t")
	}
	if o.odd {
		names = append(names, "</script>", "日本 🙂", "\"quoted\"", "a\\b", "x\u2028y", "line1\nline2")
	}
	if r.P(5) {
		names = append(names, " padded ", "trailing\t", "\nleading", "two  blanks", "SELECT", "select")
	}
	used := map[string]bool{}
	small := r.P(30) // some tracers count
	nid := func() string {
		if small {
			s := fmt.Sprintf("%016x", len(used)+1)
			used[s] = true
			return s
		}
		for {
			s := hexID(r, 16)
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	mk := func(parent string, s string, a, b int64) SpanSpec {
		sp := SpanSpec{ID: nid(), Parent: parent, Name: names[r.N(len(names))], Service: s, Start: a, End: b, Extra: r.N(16)}
		return sp
	}
	rootSvc := svc
	if r.P(25) {
		rootSvc = svcs[r.N(len(svcs))]
	}
	if o.odd && r.P(3) {
		rootSvc = ""
	}
	root := mk("", rootSvc, t, t+dur)
	if r.P(8) { // an orphan: its parent was not stored
		root.Parent = nid()
	}
	tr.Spans = append(tr.Spans, root)
	n := 0
	if o.spans > 1 {
		n = r.N(o.spans)
	}
	sameStart := r.P(20)
	if o.spans > 1 && r.P(6) { // two services with the same share
		for _, s := range svcs {
			if s != root.Service {
				tr.Spans[0].End = t + dur/2*2
				tr.Spans = append(tr.Spans, mk(root.ID, s, t, t+dur/2))
				return tr
			}
		}
	}
	for k := 0; k < n; k++ {
		p := tr.Spans[r.N(len(tr.Spans))]
		if r.P(40) {
			p = tr.Spans[len(tr.Spans)-1]
		}
		s := p.Service
		if r.P(55) {
			s = svcs[r.N(len(svcs))]
		}
		pd := p.End - p.Start
		a := p.Start + int64(r.F()*float64(pd))
		b := a + int64(r.F()*float64(p.End-a))
		switch r.N(12) {
		case 0: // outlives its parent
			b = p.End + int64(r.N(int(1e9)))
		case 1: // clock skew
			a -= int64(r.N(int(2e9)))
		case 2: // starts after its parent ended
			a = p.End + int64(r.N(int(1e9)))
			b = a + int64(r.N(int(1e9)))
		case 3:
			a, b = p.Start, p.End
		}
		if sameStart {
			a = p.Start
			if b < a {
				b = a
			}
		}
		sp := mk(p.ID, s, a, b)
		if r.P(25) {
			sp.DB = dbSystems[r.N(len(dbSystems))]
		}
		if o.bound && r.P(15) { // long-running trace reaching into other windows
			sp.Service = svc
			sp.Start = p.Start + int64(pick(r, 1800, 3600, 1801, 7200))*1e9
			sp.End = sp.Start + minDur
		}
		tr.Spans = append(tr.Spans, sp)
	}
	if o.spans > 1 && r.P(7) { // the same call over and over
		p := tr.Spans[r.N(len(tr.Spans))]
		s, db := svcs[r.N(len(svcs))], ""
		if r.P(60) {
			s, db = p.Service, dbSystems[r.N(len(dbSystems))]
		}
		for k, n := 0, r.Range(6, 60); k < n; k++ {
			pd := p.End - p.Start
			a := p.Start + int64(r.F()*float64(pd))
			sp := mk(p.ID, s, a, a+int64(r.F()*float64(p.End-a)/4))
			sp.DB = db
			tr.Spans = append(tr.Spans, sp)
		}
	}
	if r.P(7) && o.spans > 1 { // a second root
		x := mk("", svcs[r.N(len(svcs))], t+int64(r.N(1000)), t+1000+dur)
		tr.Spans = append(tr.Spans, x)
		if r.P(60) {
			tr.Spans = append(tr.Spans, mk(x.ID, svcs[r.N(len(svcs))], x.Start+1, x.End))
		}
	}
	return tr
}

// ---- model of what the report must show

type mSpan struct {
	SpanSpec
	kids []*mSpan // all children in the trace
	kept []*mSpan // children in the shown tree, by start
	svc  string   // service as shown
	top  bool
}

type mTree struct {
	trace string
	root  *mSpan
	count int
	most  map[string]bool
	most0 bool // nobody consumed any time
}

func (t *mTree) key() string { return t.trace + "/" + t.root.ID }
func (t *mTree) dur() int64  { return t.root.End - t.root.Start }

func model(ts TraceSpec) []*mTree {
	by := map[string]*mSpan{}
	var all []*mSpan
	for _, s := range ts.Spans {
		m := &mSpan{SpanSpec: s}
		by[s.ID] = m
		all = append(all, m)
	}
	var out []*mTree
	for _, m := range all {
		if p := by[m.Parent]; m.Parent != "" && p != nil {
			p.kids = append(p.kids, m)
		} else {
			m.top = true
		}
	}
	var build func(m *mSpan, parent *mSpan, keeper *mSpan)
	build = func(m, parent, keeper *mSpan) {
		m.svc = m.Service
		leafDB := len(m.kids) == 0 && m.DB != ""
		keep := parent == nil || parent.Service != m.Service || leafDB
		if leafDB {
			m.svc = m.DB + " (" + m.Service + ")"
		}
		if keep {
			if keeper != nil {
				keeper.kept = append(keeper.kept, m)
			}
			keeper = m
		}
		for _, k := range m.kids {
			build(k, m, keeper)
		}
	}
	for _, m := range all {
		if !m.top {
			continue
		}
		build(m, nil, nil)
		t := &mTree{trace: ts.ID, root: m}
		counts := map[string]int{}
		own := map[string]int64{}
		var walk func(s *mSpan)
		walk = func(s *mSpan) {
			counts[s.svc]++
			own[s.svc] += ownTime(s)
			for _, k := range s.kept {
				walk(k)
			}
		}
		walk(m)
		best := int64(0)
		for s, c := range counts {
			t.count = maxInt(t.count, c)
			if own[s] > best {
				best = own[s]
			}
		}
		t.most = map[string]bool{}
		t.most0 = best == 0
		for s := range counts {
			if own[s] == best {
				t.most[s] = true
			}
		}
		out = append(out, t)
	}
	return out
}

// ownTime: time of a span not covered by any of its shown children.
func ownTime(s *mSpan) int64 {
	type iv struct{ a, b int64 }
	var ivs []iv
	for _, k := range s.kept {
		a, b := k.Start, k.End
		if a < s.Start {
			a = s.Start
		}
		if b > s.End {
			b = s.End
		}
		if a < b {
			ivs = append(ivs, iv{a, b})
		}
	}
	for i := 1; i < len(ivs); i++ {
		for k := i; k > 0 && ivs[k].a < ivs[k-1].a; k-- {
			ivs[k], ivs[k-1] = ivs[k-1], ivs[k]
		}
	}
	free, at := int64(0), s.Start
	for _, v := range ivs {
		if v.a > at {
			free += v.a - at
		}
		if v.b > at {
			at = v.b
		}
	}
	return free + s.End - at
}

// ---- Performance Insights scenarios

type piOpts struct {
	inst   int
	chatty bool
	paging bool
	odd    bool
	points int
	fleet  bool
}

var engines = []string{"mysql", "mysql", "mysql", "postgres", "aurora-mysql", "mariadb", "aurora-postgresql", "oracle-ee"}

const longSQL = "SELECT users.id, users.name, users.email, users.created_at, users.updated_at, tasks.id, tasks.title, tasks.status FROM users INNER JOIN tasks ON tasks.user_id = users.id WHERE users.email = 'x' AND tasks.status = "

func piPeriod(sc *Scenario) (int64, int64) {
	now := sc.StartUnix*1e9 + sc.StartNano
	start := now - 7*24*3600*1e9
	for i, a := range sc.Args {
		if a == "--start-from" && i+1 < len(sc.Args) {
			t, err := time.Parse(time.RFC3339, sc.Args[i+1])
			if err != nil {
				return 0, 0
			}
			start = t.UnixNano()
		}
	}
	return start, start + 7*24*3600*1e9
}

func genPI(r *Rng, prop string, seed uint64, o piOpts) *Scenario {
	sc := baseScenario(r, prop, "pi", seed)
	a := &AWSSpec{Region: pick(r, "ap-northeast-1", "us-east-1", "eu-west-1"), AccessKey: "AKIA" + fmt.Sprint(1000+r.N(9000)), SecretKey: pick(r, "wJalrXUtnFEMI/K7MDENG", "s+cr/et=key"), RpcMs: int64(pick(r, 0, 5, 100))}
	sc.AWS = a
	sc.Env["AWS_REGION"], sc.Env["AWS_ACCESS_KEY_ID"], sc.Env["AWS_SECRET_ACCESS_KEY"] = a.Region, a.AccessKey, a.SecretKey
	sc.Env["SSL_CERT_FILE"] = "@SCRATCH@/ca.pem"
	sc.Env["AWS_EC2_METADATA_DISABLED"] = "true"
	sc.Args = []string{"db", "dig", "performance-insights", "-o", "out.html"}
	now := sc.StartUnix*1e9 + sc.StartNano
	if r.P(65) {
		base := now - int64(r.N(30*24*3600))*1e9
		switch r.N(5) {
		case 0:
			base = base / 1e9 / 3600 * 3600 * 1e9
		case 1:
			base = base/1e9/3600*3600*1e9 + int64(pick(r, 1, 3599, 300, 299, 301, 1800))*1e9
		}
		sc.Args = append(sc.Args, "--start-from", stamp(r, base))
	}
	start, end := piPeriod(sc)
	lo, hi := floor5(float64(start)/1e9), ceil5(float64(end)/1e9)
	sqls := []string{"SELECT * FROM users WHERE id = ?", "INSERT INTO tasks(user_id...", "select 1", "UPDATE t SET a = ?", "SELECT name FROM tasks t",
		"DELETE FROM logs WHERE at < ?", "COMMIT", "SELECT 1 ", longSQL + "1", longSQL + "2", longSQL + longSQL + longSQL, "select count(*) from users u join tasks t on t.user_id = u.id", "SELECT ? FROM dual", "SELECT 1", "select  1", "COMMIT ", "Select Name From tasks t"}
	if o.odd {
		sqls = append(sqls, "SELECT '</script>'", "SELECT '日本' -- 🙂", "SELECT \"a\\b\"\n FROM x", "SELECT 'a&b'", "")
	}
	n := r.Range(1, o.inst)
	if r.P(4) {
		n = 0
	}
	busy := int64(0)
	if o.fleet { // many instances working at the same time
		n, busy = r.Range(8, 28), lo+int64(r.N(int(hi-lo)/3600))*3600
	}
	for k := 0; k < n; k++ {
		in := InstSpec{ID: fmt.Sprintf("%s-%d", pick(r, "db", "prod", "reader"), k), ResID: fmt.Sprintf("db-%s", hexID(r, 10)), Engine: pick(r, engines...), Status: pick(r, "available", "available", "modifying", "backing-up", "stopped")}
		for _, g := range []string{"db.sql", "db.sql_tokenized"} {
			m, have := r.N(o.points/4+2), 0
			if o.paging && r.P(15) {
				m = 12
			}
			for ; m > 0 && have < 10; m-- {
				ms := MetricSpec{Group: g, SQL: sqls[r.N(len(sqls))], TokID: hexID(r, 8)}
				if g == "db.sql" && len(in.Metrics) > 0 && r.P(50) { // several statements of one digest
					ms.TokID = in.Metrics[r.N(len(in.Metrics))].TokID
				}
				dup := false
				for _, e := range in.Metrics {
					if e.Group == g && e.SQL == ms.SQL {
						dup = true
					}
				}
				if dup {
					continue
				}
				have++
				ts, last := map[int64]bool{}, int64(0)
				for q := r.N(o.points); q > 0; q-- {
					t := lo + 300 + int64(r.N(int(hi-lo)/300))*300
					switch r.N(8) {
					case 0:
						t = lo + 300
					case 1:
						t = hi - int64(r.N(3))*300
					case 2: // seams between half-day windows
						t = lo + int64(r.N(15))*43200 + int64(pick(r, 0, -300, 300, 600))
					case 3: // seams between hours
						t = t/3600*3600 + int64(pick(r, 0, -300, 300))
					}
					if busy > 0 && r.P(90) {
						t = busy/3600*3600 + int64(r.N(24))*300
					}
					if last > 0 && r.P(40) { // several points within one hour
						t = last/3600*3600 + int64(r.N(12))*300
					}
					if t <= lo || t > hi || ts[t] {
						continue
					}
					ts[t], last = true, t
				}
				unit := 1024.0
				if r.P(15) { // hardly any load
					unit = 1 << 20
				}
				for t := lo + 300; t <= hi; t += 300 {
					if ts[t] {
						ms.Points = append(ms.Points, PtSpec{t, float64(r.Range(1, 4000)) / unit})
					}
				}
				in.Metrics = append(in.Metrics, ms)
			}
		}
		a.Instances = append(a.Instances, in)
	}
	if n > 0 && r.P(85) {
		a.Instances[r.N(n)].Engine = "mysql"
	}
	for k := range a.Instances {
		if o.fleet && r.P(50) {
			a.Instances[k].Engine = "mysql"
		}
	}
	a.Chatty = o.chatty
	if o.paging {
		a.RdsPage = pick(r, 0, 1, 2, 3)
		a.PiPage = pick(r, 0, 1, 2, 3)
		a.PiEmpty = r.P(25)
		if r.P(30) {
			a.PiSplit, a.PiPage = true, pick(r, 1, 4, 10, 10)
		}
	}
	sc.Truth = &Truth{}
	return sc
}
