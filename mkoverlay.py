#!/usr/bin/env python3
"""Generate the build overlay that turns GravityR into its own deterministic simulator.

usage: mkoverlay.py OUTDIR

Writes OUTDIR/overlay.json. Nothing in /repo or GOROOT is modified: the overlay
 - patches a handful of Go standard-library files (clock, randomness, scheduler,
   dialling, file I/O, process exit) so that they are decided by the simulator;
 - adds the harness (package sim) and an init hook to package main of /repo;
 - adds stand-ins for the (unbuilt) front-end assets that the binary embeds.
Every patch asserts that its anchor text exists exactly once, so a toolchain
change makes the check stop with an error instead of silently losing a seam.
"""
import json, os, subprocess, sys

OUT = os.path.abspath(sys.argv[1])
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
GOROOT = subprocess.check_output(["go", "env", "GOROOT"], text=True, cwd=REPO).strip()
SRC = os.path.join(GOROOT, "src")
os.makedirs(OUT, exist_ok=True)
replace = {}


def patch(rel, edits):
    p = os.path.join(SRC, rel)
    s = open(p).read()
    for old, new in edits:
        if s.count(old) != 1:
            sys.exit("mkoverlay: anchor occurs %d times in %s: %r" % (s.count(old), p, old))
        s = s.replace(old, new)
    dst = os.path.join(OUT, rel.replace("/", "__"))
    write(dst, s)
    replace[p] = dst


def add(path, text):
    dst = os.path.join(OUT, "new__" + path.strip("/").replace("/", "__"))
    write(dst, text)
    replace[path] = dst


def write(dst, s):
    if os.path.exists(dst) and open(dst).read() == s:
        return
    with open(dst, "w") as f:
        f.write(s)


# ---------------------------------------------------------------- runtime: randomness + scheduler
add(os.path.join(SRC, "runtime/zz_sim.go"), '''package runtime

// Simulator state. simOn is set once, by the simulated process, before its bubble starts.
var simOn bool
var simRandState uint64  // select order, map iteration, math/rand inside the bubble
var simSchedState uint64 // run-queue order of bubble goroutines
var simTick uint32       // bubble goroutines scheduled so far
var simInitState uint64 = 0x9e3779b97f4a7c15

// SimStart switches this process to simulated randomness and scheduling.
func SimStart(seed, sched uint64) {
	simRandState = seed*0xbf58476d1ce4e5b9 + 0x1234567
	simSchedState = sched*0x94d049bb133111eb + 0x7654321
	simOn = true
}

//go:nosplit
func simMix(p *uint64) uint64 {
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simBubbled() bool {
	if !simOn {
		return false
	}
	gp := getg() // not on a system stack: thread creation and the like must not consume the stream
	return gp == gp.m.curg && gp.bubble != nil
}

// simChoice is used where the program can see the choice: select order, order of equal timers.
func simChoice(n uint32) uint32 {
	gp := getg().m.curg
	if simOn && gp != nil && gp.bubble != nil {
		return uint32((uint64(uint32(simMix(&simRandState))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}

//go:nosplit
func simSkipNext(gp *g) bool {
	return simOn && gp.bubble != nil && simMix(&simSchedState)&1 == 0
}

//go:nosplit
func simSchedN(i uint32) uint32 {
	if !simOn {
		return i - 1
	}
	return uint32((uint64(uint32(simMix(&simSchedState))) * uint64(i)) >> 32)
}
''')
patch("runtime/rand.go", [
    ("	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&",
     "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&"),
    ("func rand() uint64 {\n", "func rand() uint64 {\n	if simBubbled() {\n		return simMix(&simRandState)\n	}\n"),
    ("func maps_rand() uint64 {\n	return rand()",
     "func maps_rand() uint64 {\n	if !simBubbled() {\n		return simMix(&simInitState)\n	}\n	return rand()"),
])
patch("runtime/select.go", [("j := cheaprandn(uint32(norder + 1))", "j := simChoice(uint32(norder + 1))")])
patch("runtime/time.go", [("t.rand = cheaprand()", "t.rand = simChoice(1 << 31)")])
patch("runtime/proc.go", [
    ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simOn {\n		return 0\n	}\n"),
    ("		mp.p.ptr().schedtick++\n", "		mp.p.ptr().schedtick++\n		if simOn && gp.bubble != nil {\n			simTick++\n		}\n"),
    ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if (!simOn && pp.schedtick%61 == 0 || simOn && simTick%7 == 0) && !sched.runq.empty() {"),
    ("	if randomizeScheduler && next && randn(2) == 0 {", "	if next && simSkipNext(gp) {"),
    ("""	if randomizeScheduler {
		for i := uint32(1); i <= n; i++ {
			j := cheaprandn(i + 1)
			batch[i]""", """	if simOn {
		for i := uint32(1); i <= n; i++ {
			j := simSchedN(i + 1)
			batch[i]"""),
    ("""	if randomizeScheduler {
		off := func(o uint32) uint32 {
			return (pp.runqtail + o) % uint32(len(pp.runq))
		}
		for i := uint32(1); i < n; i++ {
			j := cheaprandn(i + 1)""", """	if simOn {
		off := func(o uint32) uint32 {
			return (pp.runqtail + o) % uint32(len(pp.runq))
		}
		for i := uint32(1); i < n; i++ {
			j := simSchedN(i + 1)"""),
])
# Mutex starvation mode is entered by real elapsed time: not repeatable, so never.
patch("internal/sync/mutex.go", [("starvationThresholdNs = 1e6", "starvationThresholdNs = 1e15")])
# ---------------------------------------------------------------- time: wall-clock steps, fixed init time
patch("time/time.go", [
    ("func Now() Time {\n	sec, nsec, mono := runtimeNow()\n",
     """// SimWallOffset is added to the wall clock (never to the monotonic clock) inside the simulation.
var SimWallOffset int64

var simChild = func() bool { _, ok := syscall.Getenv("GR_SIM_CHILD"); return ok }()

// SimRealNow returns the real time.
func SimRealNow() Time {
	sec, nsec, _ := runtimeNow()
	return Time{uint64(nsec), sec + unixToInternal, UTC}
}

func simNow(sec int64, nsec int32) (int64, int32) {
	if !runtimeIsBubbled() {
		return 946684800, 0
	}
	n := sec*1e9 + int64(nsec) + SimWallOffset
	return n / 1e9, int32(n % 1e9)
}

func Now() Time {
	sec, nsec, mono := runtimeNow()
	if simChild {
		if runtimeIsBubbled() {
			mono = runtimeNano() // the simulated process has a monotonic clock
		}
		sec, nsec = simNow(sec, nsec)
	}
"""),
    ('import (\n', 'import (\n	"syscall"\n'),
])
# ---------------------------------------------------------------- net: every outgoing connection
patch("net/dial.go", [
    ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n",
     """// SimDial, when set, owns every outgoing connection.
var SimDial func(ctx context.Context, network, address string) (Conn, error)

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	ctx, cancel := d.dialCtx(ctx)
	defer cancel()
	if SimDial != nil {
		return SimDial(ctx, network, address)
	}
"""),
])
# ---------------------------------------------------------------- syscall: files; os: exit
patch("syscall/syscall_linux.go", [
    ("func Open(path string, mode int, perm uint32) (fd int, err error) {\n	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n}",
     """// SimFS, when set, is asked before (and told after) each file operation of this process.
var SimFS interface {
	Open(path string, mode int) error
	Opened(path string, mode int, fd int)
	Write(fd int, p []byte) (limit int, err error)
	Close(fd int) error
	Sync(fd int) error
	Rename(from, to string) error
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	if SimFS != nil {
		if err := SimFS.Open(path, mode); err != nil {
			return -1, err
		}
		fd, err = openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
		if err == nil {
			SimFS.Opened(path, mode, fd)
		}
		return fd, err
	}
	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
}"""),
    ("func Rename(oldpath string, newpath string) (err error) {\n",
     "func Rename(oldpath string, newpath string) (err error) {\n	if SimFS != nil {\n		if err := SimFS.Rename(oldpath, newpath); err != nil {\n			return err\n		}\n	}\n"),
])
patch("syscall/syscall_unix.go", [
    ("		n, err = write(fd, p)\n", """		if SimFS != nil {
			limit, serr := SimFS.Write(fd, p)
			if serr != nil {
				return -1, serr
			}
			p = p[:limit]
		}
		n, err = write(fd, p)
"""),
])
patch("syscall/zsyscall_linux_amd64.go", [
    ("func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n	var serr error\n	if SimFS != nil {\n		serr = SimFS.Close(fd)\n	}\n	defer func() {\n		if err == nil && serr != nil {\n			err = serr\n		}\n	}()\n"),
    ("func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n	if SimFS != nil {\n		if serr := SimFS.Sync(fd); serr != nil {\n			return serr\n		}\n	}\n"),
])
patch("os/proc.go", [
    ("func Exit(code int) {\n", "func Exit(code int) {\n	if SimExit != nil {\n		SimExit(code)\n	}\n"),
    ("func runtime_beforeExit(exitCode int) // implemented in runtime",
     "// SimRandOn replaces the kernel's random bytes by a seeded stream.\nvar SimRandOn bool\nvar SimRandState uint64\n\n// SimExit, when set, is called instead of ending the process.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit(exitCode int) // implemented in runtime"),
])
patch("crypto/internal/sysrand/rand.go", [
    ("func Read(b []byte) {\n", """func Read(b []byte) {
	if os.SimRandOn {
		for i := range b {
			os.SimRandState += 0x9e3779b97f4a7c15
			z := os.SimRandState
			z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
			z = (z ^ (z >> 27)) * 0x94d049bb133111eb
			b[i] = byte(z >> 40)
		}
		return
	}
"""),
])
# ---------------------------------------------------------------- synctest: plain entry point
add(os.path.join(SRC, "testing/synctest/zz_sim.go"), '''package synctest

import isync "internal/synctest"

// SimRun runs f in a bubble without a testing.T.
func SimRun(f func()) { isync.Run(f) }
''')

# ---------------------------------------------------------------- the harness
for f in sorted(os.listdir(os.path.join(VERIF, "sim"))):
    if f.endswith(".go"):
        replace[os.path.join(REPO, "zzverifsim", f)] = os.path.join(VERIF, "sim", f)
add(os.path.join(REPO, "zz_verif_sim.go"), '''package main

import sim "github.com/mrasu/GravityR/zzverifsim"

func init() { sim.Takeover(main) }
''')
# Stand-ins for the compiled front end (client/dist is not built here).
for n in ("main", "mermaid"):
    add(os.path.join(REPO, "client/dist/assets/%s.js" % n), '"use strict";/*%s-js*/window.grLoaded=1;\n' % n)
    add(os.path.join(REPO, "client/dist/assets/%s.css" % n), 'body{margin:0}/*%s-css*/\n' % n)

write(os.path.join(OUT, "overlay.json"), json.dumps({"Replace": replace}, indent=1, sort_keys=True))
