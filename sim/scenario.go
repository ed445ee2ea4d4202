// Package zzverifsim is the deterministic simulator for GravityR. It is compiled into the
// gr binary through a build overlay only (see /verif/mkoverlay.py); it is not part of the tool.
package zzverifsim

import (
	"encoding/json"
	"hash/fnv"
)

// Scenario is one complete simulated execution: it is the replay file.
type Scenario struct {
	Prop string
	Kind string // generator variant, for statistics
	Seed uint64

	Cmd  string // mysql postgres hasura pi jaeger
	Args []string
	Env  map[string]string

	RandSeed  uint64 // map iteration, select, math/rand
	SchedSeed uint64 // goroutine order

	StartUnix int64 // simulated wall clock at start (seconds)
	StartNano int64
	TZOff     int // local zone of the process, seconds east
	WallSteps []WallStep

	OutName   string  // file name of -o inside the scratch dir; "" = no -o given
	PreOutput *string // previous content of that file
	OutIsDir  bool    `json:",omitempty"` // a directory is there

	Net    NetSpec
	Faults []Fault
	Disk   []DiskFault
	Actors []Action

	DB     *DBSpec
	Jaeger *JaegerSpec
	AWS    *AWSSpec

	BadCert string `json:",omitempty"` // somebody else answers at the address: host, ca or expired certificate

	MaxSim int64 // simulated-time limit, ms

	Truth *Truth // what the generator knows about the query; used by oracles only
}

type WallStep struct {
	AtMs    int64 // after start
	DeltaMs int64
}

type NetSpec struct {
	Seed     uint64
	MinUs    int64 // one-way latency
	JitterUs int64
	FragPct  int // chance that a segment is split
	IdleMs   int64
}

// Fault is one injected fault. Class/Nth select the request it hits.
type Fault struct {
	Kind  string
	Class string
	Nth   int
	Arg   int64
	Text  string `json:",omitempty"`
}

type DiskFault struct {
	Kind string // open, write, close, fsync
	Err  string // ENOSPC EIO EACCES EDQUOT
	At   int64  // byte offset for write
}

// Action is something another client does to the database.
type Action struct {
	Class string // before the Nth request of this class
	Nth   int
	Op    string // addindex dropindex
	Index IndexSpec
}

type Truth struct {
	Expect      []IdxT            `json:",omitempty"` // expected suggestions when no existing index matches
	Known       bool              // Expect is authoritative
	Requested   []IdxT            `json:",omitempty"` // parsed -i values
	BadIndexArg bool              `json:",omitempty"`
	NotSelect   bool              `json:",omitempty"` // query must be refused
	Fails       bool              `json:",omitempty"` // command must fail for a non-fault reason
	Secrets     []string          `json:",omitempty"`
	Extra       map[string]string `json:",omitempty"`
}

type IdxT struct {
	Table string
	Cols  []string
}

func (i IdxT) Key() string {
	s := i.Table + ":"
	for k, c := range i.Cols {
		if k > 0 {
			s += "+"
		}
		s += c
	}
	return s
}

// Event is one entry of the recorded history.
type Event struct {
	T     int64  // simulated ns since start
	Kind  string // dial req reply fault exit file actor ...
	Class string `json:",omitempty"`
	Nth   int    `json:",omitempty"`
	Text  string `json:",omitempty"`
	Ok    bool   `json:",omitempty"`
	Dur   int64  `json:",omitempty"`
	Idx   string `json:",omitempty"` // indexes present (own trial ones), for exec
}

type Outcome struct {
	Exit     int
	Panic    string `json:",omitempty"`
	Hang     bool   `json:",omitempty"`
	SimNs    int64
	Events   []Event
	Fired    map[string]int
	Stderr   string
	Stdout   string
	HasOut   bool   // output file exists at exit
	Out      []byte // its content
	DB       *DBFinal
	AWS      *AWSFinal
	Jaeger   *JaegerFinal
	Conns    []ConnInfo
	Files    []string // other files the process created or opened for writing
	Internal string   `json:",omitempty"` // simulator error
	Crashed  bool     `json:",omitempty"` // process died without outcome
	CrashMsg string   `json:",omitempty"`
}

type ConnInfo struct {
	Addr   string
	User   string `json:",omitempty"`
	DB     string `json:",omitempty"`
	AuthOK bool
	Note   string `json:",omitempty"`
}

func (s *Scenario) Clone() *Scenario {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// ---- deterministic PRNG (splitmix64)

type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{}
	for _, p := range parts {
		r.s = mix64(r.s ^ (p + 0x9e3779b97f4a7c15))
	}
	return r
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (r *Rng) U64() uint64 { r.s += 0x9e3779b97f4a7c15; return mix64(r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(a, b int) int   { return a + r.N(b-a+1) }
func (r *Rng) P(pct int) bool       { return r.N(100) < pct }
func (r *Rng) F() float64           { return float64(r.U64()>>11) / (1 << 53) }
func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }
func shuffle[T any](r *Rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
