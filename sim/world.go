package zzverifsim

import (
	"fmt"
	"time"
)

// World is everything around the process under test: network, servers, clock, other clients.
type World struct {
	sc        *Scenario
	t0        time.Time
	connSeq   int
	dialNth   int
	frozen    bool
	soft      bool // the next broken connection ends with FIN instead of RST
	fdEOF     uintptr
	fdEmpty   uintptr
	conns     []ConnInfo
	fired     map[string]int
	listeners map[string]*simListener
	events    []Event
	counts    map[string]int
	db        *dbState
	jg        *jaegerState
	aws       *awsState
	internal  string
	fs        *simFS
	done_     bool
	scratch   string
}

func (w *World) log(e Event) {
	if w.frozen {
		return
	}
	e.T = int64(time.Since(w.t0))
	if len(w.events) < 20000 {
		w.events = append(w.events, e)
	}
}

func (w *World) fire(f *Fault) {
	if w.frozen {
		return
	}
	w.fired[f.Class+"/"+f.Kind]++
	w.log(Event{Kind: "fault", Class: f.Class, Nth: f.Nth, Text: fmt.Sprintf("%s %d", f.Kind, f.Arg)})
	if f.Text == "fin" {
		w.fired[f.Class+"/"+f.Kind+"(fin)"]++
	}
}

// note records that the simulator itself met something it cannot model.
func (w *World) note(s string) {
	if w.internal == "" {
		w.internal = s
	}
}

func (w *World) listen(addr string) *simListener {
	l := newListener(addr)
	w.listeners[addr] = l
	return l
}

// start brings up the backends.
func (w *World) start() {
	sc := w.sc
	if sc.DB != nil {
		w.db = newDB(w, sc.DB)
		l := w.listen(sc.DB.Addr)
		switch sc.Cmd {
		case "mysql":
			go acceptLoop(l, func(c *simConn) { w.serveMySQL(c) })
		case "postgres":
			go acceptLoop(l, func(c *simConn) { w.servePG(c) })
		case "hasura":
			w.serveHasura(l)
		}
	}
	if sc.Jaeger != nil {
		w.serveJaeger(w.listen(sc.Jaeger.Addr))
	}
	if sc.AWS != nil {
		w.serveAWS()
	}
	for _, st := range sc.WallSteps {
		st := st
		time.AfterFunc(time.Duration(st.AtMs)*time.Millisecond, func() {
			time.SimWallOffset += st.DeltaMs * 1e6
			w.fired["clock/step"]++
			w.log(Event{Kind: "clock", Text: fmt.Sprint(st.DeltaMs)})
		})
	}
}

func acceptLoop(l *simListener, f func(*simConn)) {
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go f(c.(*simConn))
	}
}
