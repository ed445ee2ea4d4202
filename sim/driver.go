package zzverifsim

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Case is one decided item: one or several executions judged together.
type Case struct {
	Scs []*Scenario
}

type Violation struct {
	Msg string
	Sig string // stable class of the violation
}

func viol(sig, f string, a ...any) *Violation { return &Violation{Sig: sig, Msg: fmt.Sprintf(f, a...)} }

// Prop is one property with its generator and its oracle.
type Prop struct {
	ID    string
	Gen   func(r *Rng, seed uint64) *Case
	Check func(c *Case, outs []*Outcome) *Violation
	// Live: does this run exercise the property (non-vacuity)?
	Live            func(c *Case, outs []*Outcome) bool
	Quick, Thorough int
	Rule            string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type runner struct {
	self string
	work string
	seq  int
	mu   sync.Mutex
	free []string
}

func (rn *runner) dir() string {
	rn.mu.Lock()
	defer rn.mu.Unlock()
	if n := len(rn.free); n > 0 {
		d := rn.free[n-1]
		rn.free = rn.free[:n-1]
		return d
	}
	rn.seq++
	d := filepath.Join(rn.work, fmt.Sprintf("r%d", rn.seq))
	os.MkdirAll(filepath.Join(d, "out"), 0o755)
	return d
}

func (rn *runner) release(d string) {
	ents, _ := os.ReadDir(filepath.Join(d, "out"))
	for _, e := range ents {
		os.RemoveAll(filepath.Join(d, "out", e.Name()))
	}
	rn.mu.Lock()
	rn.free = append(rn.free, d)
	rn.mu.Unlock()
}

type capBuf struct {
	b   bytes.Buffer
	max int
}

func (c *capBuf) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		c.b.Write(p[:minInt(len(p), c.max-c.b.Len())])
	}
	return len(p), nil
}

// run executes one scenario in a fresh process.
func (rn *runner) run(sc *Scenario) *Outcome {
	d := rn.dir()
	defer rn.release(d)
	if sc.OutIsDir && sc.OutName != "" {
		os.Mkdir(filepath.Join(d, "out", sc.OutName), 0o755)
	} else if sc.PreOutput != nil && sc.OutName != "" {
		os.WriteFile(filepath.Join(d, "out", sc.OutName), []byte(*sc.PreOutput), 0o644)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return &Outcome{Internal: err.Error()}
	}
	or, ow, err := os.Pipe()
	if err != nil {
		return &Outcome{Internal: err.Error()}
	}
	cmd := exec.Command(rn.self)
	cmd.Dir = filepath.Join(d, "out")
	cmd.Env = []string{"GR_SIM_CHILD=1", "GR_SIM_DIR=" + d, "HOME=" + d, "PATH=/usr/bin:/bin", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "TMPDIR=" + d, "GOTRACEBACK=single"}
	for k, v := range sc.Env {
		v = strings.ReplaceAll(v, "@SCRATCH@", d)
		cmd.Env = append(cmd.Env, k+"="+v)
	}
	so, se := &capBuf{max: 200000}, &capBuf{max: 200000}
	cmd.Stdout, cmd.Stderr = so, se
	cmd.ExtraFiles = []*os.File{pr, ow}
	if err := cmd.Start(); err != nil {
		return &Outcome{Internal: err.Error()}
	}
	pr.Close()
	ow.Close()
	go func() {
		b, _ := json.Marshal(sc)
		pw.Write(b)
		pw.Close()
	}()
	timer := time.AfterFunc(40*time.Second, func() { cmd.Process.Kill() })
	b, _ := io.ReadAll(or)
	or.Close()
	werr := cmd.Wait()
	killed := !timer.Stop()
	o := &Outcome{}
	if err := json.Unmarshal(b, o); err != nil || len(b) == 0 {
		o.Crashed = true
		o.CrashMsg = fmt.Sprintf("%v killed=%v", werr, killed)
		if killed {
			o.Crashed = false
			o.Hang, o.Exit = true, -2 // runs without end and without waiting for anything
		}
	}
	o.Stderr, o.Stdout = strings.ReplaceAll(se.b.String(), d, "@SCRATCH@"), strings.ReplaceAll(so.b.String(), d, "@SCRATCH@")
	return o
}

// histHash identifies an execution: order and content of everything that happened, without times.
func histHash(o *Outcome) uint64 {
	h := fnv.New64a()
	for _, e := range o.Events {
		fmt.Fprintf(h, "%s|%s|%d|%s|%v\n", e.Kind, e.Class, e.Nth, e.Text, e.Ok)
	}
	fmt.Fprintf(h, "%d", o.Exit)
	return h.Sum64()
}

// fullHash covers everything including simulated times and the output file.
func fullHash(o *Outcome) uint64 {
	h := fnv.New64a()
	b, _ := json.Marshal(o)
	h.Write(b)
	return h.Sum64()
}

type knownFinding struct{ prop, sig, text string }

func loadKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := knownFinding{text: strings.TrimSpace(l[6:])}
		for _, w := range strings.Fields(l) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				k.prop = v
			}
			if v, ok := strings.CutPrefix(w, "sig="); ok {
				k.sig = v
			}
		}
		out = append(out, k)
	}
	return out
}

type stats struct {
	mu        sync.Mutex
	cases     int
	runs      int
	live      int
	simNs     int64
	fired     map[string]int
	hist      map[uint64]bool
	liveHist  map[uint64]bool
	internal  []string
	kinds     map[string]int
	exits     map[int]int
	samples   []any
	detChecks int
	detBad    int
	known     map[string]int
}

type found struct {
	c    *Case
	v    *Violation
	idx  int
	outs []*Outcome
}

func driverMain() int {
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: driver PROP quick|thorough | replay FILE | show PROP N")
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	self, _ := os.Executable()
	work, err := os.MkdirTemp(filepath.Join(verif, ".work"), "run")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(work)
	rn := &runner{self: self, work: work}
	switch args[0] {
	case "replay":
		return replay(rn, args[1])
	case "show":
		p := props[args[1]]
		n, _ := strconv.Atoi(args[2])
		c := p.Gen(caseRng(p.ID, seedEnv(), n))
		return showCase(rn, p, c)
	}
	p := props[args[0]]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		return 2
	}
	tier := "quick"
	if len(args) > 1 {
		tier = args[1]
	}
	return decide(rn, p, tier, verif)
}

func seedEnv() uint64 {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

func caseRng(id string, seed uint64, i int) (*Rng, uint64) {
	r := NewRng(hashStr(id), seed, uint64(i))
	return r, r.s
}

func (rn *runner) runCase(c *Case) []*Outcome {
	outs := make([]*Outcome, len(c.Scs))
	for i, sc := range c.Scs {
		outs[i] = rn.run(sc)
		if outs[i].Crashed && outs[i].Internal == "" {
			if again := rn.run(sc); !again.Crashed {
				again.Internal = "crash did not repeat: " + outs[i].CrashMsg
				outs[i] = again
			}
		}
	}
	return outs
}

// needsAnswer: properties about the content of reports; a healthy run has to deliver one.
var needsAnswer = map[string]bool{"P04": true, "P07": true, "P08": true, "P09": true, "P10": true, "P11": true, "P12": true, "P13": true, "P14": true}

// judge applies the property's oracle; simulator trouble is never a violation.
func judge(p *Prop, c *Case, outs []*Outcome) *Violation {
	for _, o := range outs {
		if o.Internal != "" {
			return nil
		}
	}
	for i, o := range outs {
		if o.Crashed {
			if p.ID == "P17" {
				return viol("crash", "the process died: %s: %.300s", o.CrashMsg, lastLines(o.Stderr, 12))
			}
			if len(c.Scs[i].Faults) == 0 && len(c.Scs[i].Disk) == 0 && needsAnswer[p.ID] {
				return noAnswer(c.Scs[i], o)
			}
			return nil
		}
	}
	return p.Check(c, outs)
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " / ")
}

func decide(rn *runner, p *Prop, tier, verif string) int {
	t0 := time.Now()
	seed := seedEnv()
	n := p.Quick
	cap := 200 * time.Second
	if tier == "thorough" {
		n = p.Thorough
		cap = 780 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("GR_SIM_CASES")); err == nil && v > 0 {
		n = v
	}
	if v, err := strconv.Atoi(os.Getenv("GR_SIM_CAP")); err == nil && v > 0 {
		cap = time.Duration(v) * time.Second
	}
	detEvery := 16
	if v, err := strconv.Atoi(os.Getenv("GR_SIM_DETEVERY")); err == nil && v > 0 {
		detEvery = v
	}
	known := loadKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	st := &stats{fired: map[string]int{}, hist: map[uint64]bool{}, liveHist: map[uint64]bool{}, kinds: map[string]int{}, exits: map[int]int{}, known: map[string]int{}}
	var bad *found
	var next int
	var wg sync.WaitGroup
	workers := 8
	if v, err := strconv.Atoi(os.Getenv("GR_SIM_WORKERS")); err == nil && v > 0 {
		workers = v
	}
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				st.mu.Lock()
				i := next
				next++
				stop := bad != nil || i >= n || time.Since(t0) > cap
				st.mu.Unlock()
				if stop {
					return
				}
				c := p.Gen(caseRng(p.ID, seed, i))
				outs := rn.runCase(c)
				v := judge(p, c, outs)
				if v != nil && judge(p, c, rn.runCase(c)) == nil {
					// a violation counts only if it repeats exactly
					outs[0].Internal = "violation did not repeat: " + v.Msg
					v = nil
				}
				det := -1
				if i%detEvery == 3%detEvery {
					// repeatability of a sample: same scenario, same execution
					again := rn.run(c.Scs[0])
					det = 0
					if fullHash(again) != fullHash(outs[0]) {
						det = 1
						fmt.Fprintf(os.Stderr, "case %d: repeated run differs\n", i)
						if os.Getenv("GR_SIM_DETDIFF") != "" {
							for k := range again.Events {
								if k >= len(outs[0].Events) || again.Events[k] != outs[0].Events[k] {
									fmt.Fprintf(os.Stderr, "  event %d: %+v\n", k, again.Events[k])
									if k < len(outs[0].Events) {
										fmt.Fprintf(os.Stderr, "       vs %+v\n", outs[0].Events[k])
									}
									break
								}
							}
							fmt.Fprintf(os.Stderr, "  sim %d %d exit %d %d stderr %.300q %.300q\n", again.SimNs, outs[0].SimNs, again.Exit, outs[0].Exit, again.Stderr, outs[0].Stderr)
						}
					}
				}
				st.mu.Lock()
				st.add(p, c, outs)
				if det >= 0 {
					st.detChecks++
					st.detBad += det
				}
				if v != nil {
					if k := matchKnown(known, p.ID, v); k != nil {
						st.known[k.text]++
					} else if bad == nil || i < bad.idx {
						bad = &found{c, v, i, outs}
					}
				}
				st.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, k := range known {
		if k.prop == p.ID {
			fmt.Printf("KNOWN-FINDING: %s\n", k.text)
		}
	}
	code := 0
	viols := 0
	if bad != nil {
		// a violation counts only if it repeats exactly
		outs := rn.runCase(bad.c)
		v := judge(p, bad.c, outs)
		if v == nil {
			st.internal = append(st.internal, "violation did not repeat: "+bad.v.Msg)
		} else {
			small, sv, tried := shrink(rn, p, bad.c, v)
			file := writeReplay(verif, p, small, sv, bad.idx, seed, tried, rn)
			fmt.Printf("%s: %s\n", p.ID, sv.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
			viols = 1
			code = 1
		}
	}
	if len(st.internal) > 0 {
		fmt.Fprintf(os.Stderr, "simulator trouble in %d run(s): %s\n", len(st.internal), st.internal[0])
		if code == 0 && (len(st.internal) > st.runs/20 || st.runs == 0) {
			code = 3
		}
	}
	if st.detBad > 0 {
		fmt.Fprintf(os.Stderr, "%d of %d repeated runs differed\n", st.detBad, st.detChecks)
	}
	writeEvidence(verif, p, tier, seed, st, time.Since(t0), viols)
	fmt.Printf("%s %s: %d cases, %d runs (%d exercising the property), %d distinct executions, %.1f h simulated, %.1f s\n",
		p.ID, tier, st.cases, st.runs, st.live, len(st.hist), float64(st.simNs)/3.6e12, time.Since(t0).Seconds())
	return code
}

func matchKnown(ks []knownFinding, id string, v *Violation) *knownFinding {
	for i := range ks {
		if ks[i].prop == id && ks[i].sig == v.Sig {
			return &ks[i]
		}
	}
	return nil
}

func (st *stats) add(p *Prop, c *Case, outs []*Outcome) {
	st.cases++
	live := p.Live == nil || p.Live(c, outs)
	if live {
		st.live += len(outs)
	}
	for i, o := range outs {
		st.runs++
		st.simNs += o.SimNs
		for k, v := range o.Fired {
			st.fired[k] += v
		}
		h := histHash(o)
		st.hist[h] = true
		if live {
			st.liveHist[h] = true
		}
		if o.Internal != "" {
			st.internal = append(st.internal, o.Internal)
		}
		st.kinds[c.Scs[i].Kind]++
		st.exits[o.Exit]++
		if len(st.samples) < 6 && live && i == 0 {
			sc := c.Scs[i]
			st.samples = append(st.samples, map[string]any{"seed": sc.Seed, "kind": sc.Kind, "args": sc.Args, "faults": sc.Faults, "disk": sc.Disk, "actors": sc.Actors, "exit": o.Exit, "events": len(o.Events), "sim_ms": o.SimNs / 1e6})
		}
	}
}

func writeEvidence(verif string, p *Prop, tier string, seed uint64, st *stats, wall time.Duration, viols int) {
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                 st.runs,
			"distinct_nontrivial":         len(st.liveHist),
			"rule":                        p.Rule,
			"samples":                     st.samples,
			"cases":                       st.cases,
			"runs_exercising_property":    st.live,
			"distinct_executions":         len(st.hist),
			"distinct_executions_measure": "hash of the recorded event history (dials, requests with text, replies, faults, actor and clock events, exit) without times",
			"simulated_hours":             float64(st.simNs) / 3.6e12,
			"runs_per_hour":               int(float64(st.runs) / wall.Hours()),
			"seeds_per_hour":              int(float64(st.cases) / wall.Hours()),
			"faults_injected":             st.fired,
			"scenario_kinds":              st.kinds,
			"exit_statuses":               st.exits,
			"repeatability":               map[string]int{"scenarios_run_twice": st.detChecks, "differing": st.detBad},
			"simulator_trouble":           len(st.internal),
			"known_findings_met":          st.known,
			"real_components":             "the whole gr binary built from /repo's working tree: cobra commands, services, parsers, report writer, and the third-party drivers it uses (go-sql-driver/mysql, lib/pq, net/http, grpc, aws-sdk-go-v2, database/sql, crypto/tls)",
			"simulated_components":        "scheduler and random order of the Go runtime, clocks and timers, TCP, disk errors, process exit, MySQL/PostgreSQL/Hasura/Jaeger/RDS/Performance Insights servers, other database clients; the compiled front end (client/dist) is a stub",
		},
		"assumptions": []string{
			"the simulated servers follow the documented wire protocols and catalogue contents for the statements the tool sends",
			"one OS thread runs the process (GOMAXPROCS=1): goroutine interleavings are explored at blocking points and scheduler choices, not at every memory access",
		},
		"wall_s":     wall.Seconds(),
		"violations": viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644)
}

// ---- minimising and replaying

type replayFile struct {
	Property  string
	Violation string
	Sig       string
	CaseIndex int
	BaseSeed  uint64
	Shrink    string
	Trace     [][]string // what happened, for people
	Scenarios []*Scenario
}

func trace(o *Outcome) []string {
	var out []string
	for _, e := range o.Events {
		s := fmt.Sprintf("%10.3fms %s", float64(e.T)/1e6, e.Kind)
		if e.Class != "" {
			s += fmt.Sprintf(" %s#%d", e.Class, e.Nth)
		}
		if e.Text != "" {
			t := e.Text
			if len(t) > 160 {
				t = t[:160] + "..."
			}
			s += " " + t
		}
		if e.Kind == "reply" {
			s += fmt.Sprintf(" ok=%v", e.Ok)
		}
		out = append(out, s)
	}
	return out
}

func writeReplay(verif string, p *Prop, c *Case, v *Violation, idx int, seed uint64, tried string, rn *runner) string {
	rf := &replayFile{Property: p.ID, Violation: v.Msg, Sig: v.Sig, CaseIndex: idx, BaseSeed: seed, Shrink: tried, Scenarios: c.Scs}
	for _, o := range rn.runCase(c) {
		rf.Trace = append(rf.Trace, trace(o))
	}
	b, _ := json.MarshalIndent(rf, "", " ")
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, idx))
	os.WriteFile(f, b, 0o644)
	return f
}

func replay(rn *runner, file string) int {
	b, err := os.ReadFile(file)
	rf := &replayFile{}
	if err == nil {
		err = json.Unmarshal(b, rf)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rf.Property]
	c := &Case{Scs: rf.Scenarios}
	return showResult(p, c, rn.runCase(c), file)
}

func showCase(rn *runner, p *Prop, c *Case) int {
	b, _ := json.MarshalIndent(c.Scs, "", " ")
	fmt.Println(string(b))
	return showResult(p, c, rn.runCase(c), "-")
}

func showResult(p *Prop, c *Case, outs []*Outcome, file string) int {
	for i, o := range outs {
		fmt.Printf("--- run %d: exit %d hang=%v crashed=%v internal=%q panic=%.500q sim=%dms out=%v(%d bytes) fired=%v conns=%v\n", i, o.Exit, o.Hang, o.Crashed, o.Internal, o.Panic, o.SimNs/1e6, o.HasOut, len(o.Out), o.Fired, o.Conns)
		for _, t := range trace(o) {
			fmt.Println(t)
		}
		fmt.Printf("stderr: %s\n", lastLines(o.Stderr, 15))
		if o.HasOut {
			if r, err := ParseReport(o.Out); err == nil {
				b, _ := json.Marshal(r.raw)
				fmt.Printf("report: %.3000s\n", b)
			} else {
				fmt.Printf("report: %v\n", err)
			}
		}
	}
	if v := judge(p, c, outs); v != nil {
		fmt.Printf("%s: [%s] %s\n", p.ID, v.Sig, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	fmt.Println("no violation")
	return 0
}

func cloneCase(c *Case) *Case {
	n := &Case{}
	for _, s := range c.Scs {
		n.Scs = append(n.Scs, s.Clone())
	}
	return n
}

// shrink removes everything that is not needed for the same violation.
func shrink(rn *runner, p *Prop, c *Case, v *Violation) (*Case, *Violation, string) {
	t0 := time.Now()
	tried, kept := 0, 0
	cur, curV := c, v
	try := func(f func(*Case) bool) bool {
		if time.Since(t0) > 25*time.Second || tried > 400 {
			return false
		}
		n := cloneCase(cur)
		if !f(n) {
			return false
		}
		tried++
		nv := judge(p, n, rn.runCase(n))
		if nv == nil || nv.Sig != v.Sig {
			return false
		}
		cur, curV = n, nv
		kept++
		return true
	}
	each := func(f func(*Scenario) bool) func(*Case) bool {
		return func(c *Case) bool {
			any := false
			for _, s := range c.Scs {
				if f(s) {
					any = true
				}
			}
			return any
		}
	}
	// sweep tries to delete the elements of a list one by one, keeping at least min
	sweep := func(n func(*Scenario) int, del func(*Scenario, int), min int) {
		for k := 0; k < n(cur.Scs[0]) && n(cur.Scs[0]) > min; {
			if !try(each(func(s *Scenario) bool {
				if k >= n(s) || n(s) <= min {
					return false
				}
				del(s, k)
				return true
			})) {
				k++
			}
		}
	}
	for round := 0; round < 3; round++ {
		before := kept
		sweep(func(s *Scenario) int { return len(s.Faults) }, func(s *Scenario, k int) { s.Faults = append(s.Faults[:k:k], s.Faults[k+1:]...) }, 0)
		sweep(func(s *Scenario) int { return len(s.Disk) }, func(s *Scenario, k int) { s.Disk = append(s.Disk[:k:k], s.Disk[k+1:]...) }, 0)
		sweep(func(s *Scenario) int { return len(s.Actors) }, func(s *Scenario, k int) { s.Actors = append(s.Actors[:k:k], s.Actors[k+1:]...) }, 0)
		try(each(func(s *Scenario) bool { ch := len(s.WallSteps) > 0; s.WallSteps = nil; return ch }))
		try(each(func(s *Scenario) bool { ch := s.Net.FragPct != 0; s.Net.FragPct = 0; return ch }))
		try(each(func(s *Scenario) bool { ch := s.Net.JitterUs != 0; s.Net.JitterUs = 0; return ch }))
		try(each(func(s *Scenario) bool { ch := s.Net.MinUs != 100; s.Net.MinUs = 100; return ch }))
		if len(cur.Scs) == 1 {
			try(each(func(s *Scenario) bool { ch := s.RandSeed != 1; s.RandSeed = 1; return ch }))
			try(each(func(s *Scenario) bool { ch := s.SchedSeed != 1; s.SchedSeed = 1; return ch }))
		}
		try(each(func(s *Scenario) bool { ch := s.TZOff != 0; s.TZOff = 0; return ch }))
		sweep(func(s *Scenario) int {
			if s.Jaeger == nil {
				return 0
			}
			return len(s.Jaeger.Traces)
		}, func(s *Scenario, k int) { s.Jaeger.Traces = append(s.Jaeger.Traces[:k:k], s.Jaeger.Traces[k+1:]...) }, 1)
		sweep(func(s *Scenario) int {
			if s.AWS == nil {
				return 0
			}
			return len(s.AWS.Instances)
		}, func(s *Scenario, k int) { s.AWS.Instances = append(s.AWS.Instances[:k:k], s.AWS.Instances[k+1:]...) }, 1)
		if kept == before {
			break
		}
	}
	return cur, curV, fmt.Sprintf("%d smaller executions tried, %d kept", tried, kept)
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
