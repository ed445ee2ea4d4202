package zzverifsim

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"
)

// ---- simulated TCP

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

type segment struct {
	at   time.Time
	data []byte
	fin  bool
	rst  bool
}

// half is one direction of a connection.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	q      []segment
	eof    bool
	reset  bool
	last   time.Time // arrival time of the last queued segment (FIFO)
	rdl    time.Time // read deadline of the reader
	closed bool      // reader closed its end
}

func newHalf() *half {
	h := &half{}
	h.cond = sync.NewCond(&h.mu)
	return h
}

type simConn struct {
	id            int
	w             *World
	in, out       *half
	local, remote simAddr
	client        bool
	wclosed       bool
	seq           uint64
	ci            int // index in World.conns
}

func (w *World) newPair(addr string) (*simConn, *simConn) {
	w.connSeq++
	a, b := newHalf(), newHalf()
	cl := simAddr(fmt.Sprintf("10.0.0.1:%d", 40000+w.connSeq))
	c := &simConn{id: w.connSeq, w: w, in: a, out: b, local: cl, remote: simAddr(addr), client: true}
	s := &simConn{id: w.connSeq, w: w, in: b, out: a, local: simAddr(addr), remote: cl}
	return c, s
}

func (c *simConn) latency() time.Duration {
	c.seq++
	n := c.w.sc.Net
	r := NewRng(n.Seed, uint64(c.id)*2+b2u(c.client), c.seq)
	us := n.MinUs
	if n.JitterUs > 0 {
		us += int64(r.U64() % uint64(n.JitterUs+1))
	}
	return time.Duration(us) * time.Microsecond
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (h *half) push(s segment) {
	h.mu.Lock()
	if s.at.Before(h.last) {
		s.at = h.last
	}
	h.last = s.at
	if !h.closed {
		h.q = append(h.q, s)
	}
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (c *simConn) Read(p []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		now := time.Now()
		if !h.rdl.IsZero() && !now.Before(h.rdl) {
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		if len(h.q) > 0 {
			s := &h.q[0]
			if !s.at.After(now) {
				if s.rst {
					h.reset = true
					return 0, c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
				}
				if s.fin {
					h.eof = true
					return 0, io.EOF
				}
				if len(p) == 0 {
					return 0, nil
				}
				n := copy(p, s.data)
				s.data = s.data[n:]
				if len(s.data) == 0 {
					h.q = h.q[1:]
				}
				return n, nil
			}
			// wait for its arrival
			wake := s.at
			if !h.rdl.IsZero() && h.rdl.Before(wake) {
				wake = h.rdl
			}
			h.wakeAt(wake)
		} else if !h.rdl.IsZero() {
			h.wakeAt(h.rdl)
		}
		h.cond.Wait()
	}
}

func (h *half) wakeAt(t time.Time) {
	time.AfterFunc(time.Until(t), func() {
		h.mu.Lock()
		h.cond.Broadcast()
		h.mu.Unlock()
	})
}

func (c *simConn) Write(p []byte) (int, error) {
	if c.wclosed {
		return 0, c.operr("write", net.ErrClosed)
	}
	if c.w.frozen {
		return 0, c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	// A reset that has already arrived fails the write.
	c.in.mu.Lock()
	rst := c.in.reset
	if !rst && len(c.in.q) > 0 {
		s := c.in.q[0]
		rst = s.rst && !s.at.After(time.Now())
	}
	c.in.mu.Unlock()
	if rst {
		return 0, c.operr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	data := append([]byte(nil), p...)
	n := c.w.sc.Net
	for len(data) > 0 {
		k := len(data)
		if n.FragPct > 0 && k > 1 {
			r := NewRng(n.Seed, 77, uint64(c.id)*2+b2u(c.client), c.seq)
			if r.P(n.FragPct) {
				k = 1 + r.N(k-1)
			}
		}
		c.out.push(segment{at: time.Now().Add(c.latency()), data: data[:k]})
		data = data[k:]
	}
	return len(p), nil
}

func (c *simConn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *simConn) Close() error {
	if c.wclosed {
		return c.operr("close", net.ErrClosed)
	}
	c.wclosed = true
	c.out.push(segment{at: time.Now().Add(c.latency()), fin: true})
	c.in.mu.Lock()
	c.in.closed = true
	c.in.q = nil
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	return nil
}

// finNow closes the connection so that the peer sees the end together with the last data.
func (c *simConn) finNow() {
	c.wclosed = true
	c.out.push(segment{at: time.Now(), fin: true})
	c.in.mu.Lock()
	c.in.closed = true
	c.in.q = nil
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// abort breaks the connection: with a reset, or silently with FIN when the fault says so.
func (c *simConn) abort() {
	c.wclosed = true
	c.out.push(segment{at: time.Now().Add(c.latency()), rst: !c.w.soft, fin: c.w.soft})
	c.in.mu.Lock()
	c.in.closed = true
	c.in.q = nil
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }
func (c *simConn) SetDeadline(t time.Time) error {
	return c.SetReadDeadline(t)
}
func (c *simConn) SetReadDeadline(t time.Time) error {
	c.in.mu.Lock()
	c.in.rdl = t
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
	return nil
}
func (c *simConn) SetWriteDeadline(t time.Time) error { return nil }

// SyscallConn lets the MySQL driver's liveness check (a non-blocking read on the raw socket)
// see whether the peer has closed: it is handed /dev/null (end of file) or an empty pipe (EAGAIN).
func (c *simConn) SyscallConn() (syscall.RawConn, error) {
	if !c.client {
		return nil, errors.New("not supported")
	}
	return rawConn{c}, nil
}

type rawConn struct{ c *simConn }

func (r rawConn) Control(f func(fd uintptr)) error { return errors.New("not supported") }
func (r rawConn) Write(f func(fd uintptr) bool) error {
	return errors.New("not supported")
}
func (r rawConn) Read(f func(fd uintptr) bool) error {
	h := r.c.in
	h.mu.Lock()
	dead := h.eof || h.reset || h.closed
	if !dead && len(h.q) > 0 && !h.q[0].at.After(time.Now()) {
		dead = h.q[0].fin || h.q[0].rst
	}
	h.mu.Unlock()
	if dead {
		f(r.c.w.fdEOF)
	} else {
		f(r.c.w.fdEmpty)
	}
	return nil
}

// ---- listeners

type simListener struct {
	addr string
	ch   chan net.Conn
	done chan struct{}
}

func newListener(addr string) *simListener {
	return &simListener{addr: addr, ch: make(chan net.Conn, 64), done: make(chan struct{})}
}
func (l *simListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *simListener) Close() error   { return nil }
func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

// dial is the only way out of the simulated process.
func (w *World) dial(ctx context.Context, network, address string) (net.Conn, error) {
	w.dialNth++
	nth := w.dialNth - 1
	w.log(Event{Kind: "dial", Class: "dial", Nth: nth, Text: network + " " + address})
	w.conns = append(w.conns, ConnInfo{Addr: address})
	ci := len(w.conns) - 1
	operr := func(err error) error {
		return &net.OpError{Op: "dial", Net: network, Addr: simAddr(address), Err: err}
	}
	if w.frozen {
		return nil, operr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	if err := ctx.Err(); err != nil {
		return nil, operr(err)
	}
	rtt := 2 * time.Duration(w.sc.Net.MinUs) * time.Microsecond
	for i := range w.sc.Faults {
		f := &w.sc.Faults[i]
		if f.Class != "dial" || f.Nth != nth {
			continue
		}
		w.fire(f)
		switch f.Kind {
		case "refuse":
			time.Sleep(rtt)
			return nil, operr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
		case "timeout":
			t := time.NewTimer(time.Duration(f.Arg) * time.Millisecond)
			select {
			case <-t.C:
				return nil, operr(os.NewSyscallError("connect", syscall.ETIMEDOUT))
			case <-ctx.Done():
				return nil, operr(ctx.Err())
			}
		case "slow":
			t := time.NewTimer(time.Duration(f.Arg) * time.Millisecond)
			select {
			case <-t.C:
			case <-ctx.Done():
				return nil, operr(ctx.Err())
			}
		}
	}
	if w.sc.deadBackend(time.Since(w.t0)) {
		w.fired["dead_backend"]++
		if w.deadKind() == "blackhole" {
			select {
			case <-ctx.Done():
				return nil, operr(ctx.Err())
			case <-time.After(127 * time.Second): // the kernel's own SYN retry limit
				return nil, operr(os.NewSyscallError("connect", syscall.ETIMEDOUT))
			}
		}
		time.Sleep(rtt)
		return nil, operr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l := w.listeners[address]
	if l == nil || (network == "unix") != strings.HasPrefix(address, "/") {
		w.log(Event{Kind: "unknown-address", Text: address})
		time.Sleep(rtt)
		return nil, operr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	time.Sleep(rtt)
	c, s := w.newPair(address)
	c.ci, s.ci = ci, ci
	w.conns[ci].Note = "connected"
	l.ch <- s
	return c, nil
}

// deadBackend: a "dead" fault makes every dial fail until Arg ms after start (Arg<0: forever).
func (s *Scenario) deadBackend(since time.Duration) bool {
	for _, f := range s.Faults {
		if f.Class == "backend" && (f.Kind == "down" || f.Kind == "blackhole") {
			if f.Arg < 0 || since < time.Duration(f.Arg)*time.Millisecond {
				return true
			}
		}
	}
	return false
}

func (w *World) deadKind() string {
	for _, f := range w.sc.Faults {
		if f.Class == "backend" {
			return f.Kind
		}
	}
	return ""
}
