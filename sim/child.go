package zzverifsim

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing/synctest"
	"time"
)

// Takeover is called from an init function of package main. It does nothing unless the process
// was started as a simulation (child) or as the simulation driver.
func Takeover(realMain func()) {
	switch {
	case os.Getenv("GR_SIM_CHILD") != "":
		runChild(realMain)
	case os.Getenv("GR_SIM") == "driver":
		os.Exit(driverMain())
	}
}

const bubbleEpoch = 946684800 // synctest bubbles start at 2000-01-01

func runChild(realMain func()) {
	in := os.NewFile(3, "scenario")
	b, err := io.ReadAll(in)
	in.Close()
	sc := &Scenario{}
	if err == nil {
		err = json.Unmarshal(b, sc)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim: bad scenario:", err)
		syscall.Exit(97)
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	scratch := os.Getenv("GR_SIM_DIR")
	out := os.NewFile(4, "outcome")
	w := &World{sc: sc, scratch: scratch, fired: map[string]int{}, listeners: map[string]*simListener{}, counts: map[string]int{}}
	var pfd [2]int
	syscall.Pipe2(pfd[:], syscall.O_NONBLOCK|syscall.O_CLOEXEC)
	w.fdEmpty = uintptr(pfd[0])
	nfd, _ := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
	w.fdEOF = uintptr(nfd)
	if pemb := sc.caPEM(); pemb != nil {
		os.WriteFile(filepath.Join(scratch, "ca.pem"), pemb, 0o600)
	}
	outPath := ""
	if sc.OutName != "" {
		outPath = filepath.Join(scratch, "out", sc.OutName)
	}
	os.Unsetenv("GR_SIM_CHILD")
	os.Unsetenv("GR_SIM_DIR")
	os.Args = append([]string{"gr"}, sc.Args...)
	if sc.TZOff != 0 {
		time.Local = time.FixedZone("SIM", sc.TZOff)
	} else {
		time.Local = time.UTC
	}
	time.SimWallOffset = (sc.StartUnix-bubbleEpoch)*1e9 + sc.StartNano
	w.fs = newFS(w, outPath)
	fin := false
	finish := func(code int, panicMsg string, hang bool) {
		if fin {
			runtime.Gosched()
			syscall.Exit(98)
		}
		fin = true
		w.log(Event{Kind: "exit", Text: fmt.Sprint(code)})
		simNs := int64(time.Since(w.t0))
		w.frozen = true
		syscall.SimFS = nil
		w.fs.finish()
		o := &Outcome{Exit: code, Panic: panicMsg, Hang: hang, SimNs: simNs, Events: w.events, Fired: w.fired, Conns: w.conns, Internal: w.internal}
		if outPath != "" {
			if c, err := os.ReadFile(outPath); err == nil {
				o.HasOut, o.Out = true, c
			}
		}
		o.Files = w.fs.others()
		if w.db != nil {
			o.DB = w.db.final()
		}
		if w.aws != nil {
			o.AWS = w.aws.final()
		}
		if w.jg != nil {
			o.Jaeger = w.jg.final()
		}
		b, err := json.Marshal(o)
		if err != nil {
			fmt.Fprintln(os.Stderr, "sim: outcome:", err)
			syscall.Exit(97)
		}
		for len(b) > 0 {
			n, err := syscall.Write(4, b)
			if err != nil {
				syscall.Exit(97)
			}
			b = b[n:]
		}
		syscall.Exit(0)
	}
	_ = out
	runtime.SimStart(sc.RandSeed, sc.SchedSeed)
	synctest.SimRun(func() {
		w.t0 = time.Now()
		net.SimDial = w.dial
		os.SimRandState = mix64(sc.RandSeed ^ 0xabcdef)
		os.SimRandOn = true
		os.SimExit = func(code int) { finish(code, "", false) }
		w.start()
		max := sc.MaxSim
		if max == 0 {
			max = 3600_000
		}
		time.AfterFunc(time.Duration(max)*time.Millisecond, func() { finish(-1, "", true) })
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i > 0 {
						st = st[i:]
					}
					if len(st) > 3000 {
						st = st[:3000]
					}
					finish(2, fmt.Sprint(r)+"\n"+st, false)
				}
			}()
			syscall.SimFS = w.fs
			realMain()
			finish(0, "", false)
		}()
		<-done
	})
	syscall.Exit(96)
}
