package zzverifsim

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// simFS decides what file operations of the process do. Files really exist, in the scratch
// directory; faults (errors, short and lost writes) apply to the output file only.
type simFS struct {
	w    *World
	out  string // absolute path of the output file
	mu   sync.Mutex
	fds  map[int]*fdState
	seen map[string]bool  // files opened for writing
	bad  map[string]int64 // path -> durable length (deferred write error never noticed)
}

type fdState struct {
	path    string
	written int64
}

func newFS(w *World, out string) *simFS {
	return &simFS{w: w, out: out, fds: map[int]*fdState{}, seen: map[string]bool{}, bad: map[string]int64{}}
}

func errno(s string) error {
	switch s {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EDQUOT":
		return syscall.EDQUOT
	case "EACCES":
		return syscall.EACCES
	case "EROFS":
		return syscall.EROFS
	}
	return syscall.EIO
}

func (f *simFS) fault(kind string) *DiskFault {
	for i := range f.w.sc.Disk {
		if f.w.sc.Disk[i].Kind == kind {
			return &f.w.sc.Disk[i]
		}
	}
	return nil
}

func (f *simFS) fire(d *DiskFault) {
	if f.w.frozen {
		return
	}
	f.w.fired["disk/"+d.Kind+"/"+d.Err]++
	f.w.events = append(f.w.events, Event{Kind: "fault", Class: "disk", Text: d.Kind + " " + d.Err})
}

func writing(mode int) bool { return mode&(syscall.O_WRONLY|syscall.O_RDWR) != 0 }

// tracked: the output file, or any file next to it that might later be renamed onto it.
func (f *simFS) tracked(path string) bool {
	p, _ := filepath.Abs(path)
	return f.out != "" && (p == f.out || filepath.Dir(p) == filepath.Dir(f.out))
}

func (f *simFS) Open(path string, mode int) error {
	if !writing(mode) || !f.tracked(path) {
		return nil
	}
	if d := f.fault("open"); d != nil {
		f.fire(d)
		return errno(d.Err)
	}
	return nil
}

func (f *simFS) Opened(path string, mode, fd int) {
	if !writing(mode) {
		return
	}
	p, _ := filepath.Abs(path)
	f.mu.Lock()
	f.seen[p] = true
	if f.tracked(path) {
		f.fds[fd] = &fdState{path: p}
	}
	f.mu.Unlock()
}

func (f *simFS) Write(fd int, p []byte) (int, error) {
	f.mu.Lock()
	st := f.fds[fd]
	f.mu.Unlock()
	if st == nil {
		return len(p), nil
	}
	if d := f.fault("write"); d != nil {
		room := d.At - st.written
		if room <= 0 {
			f.fire(d)
			return 0, errno(d.Err)
		}
		if int64(len(p)) > room {
			st.written += room
			return int(room), nil // short write; the next one fails
		}
	}
	st.written += int64(len(p))
	return len(p), nil
}

// Close reports a deferred write error (NFS, quota, delayed allocation) and loses the tail.
func (f *simFS) Close(fd int) error {
	f.mu.Lock()
	st := f.fds[fd]
	delete(f.fds, fd)
	f.mu.Unlock()
	if st == nil || st.written == 0 {
		return nil
	}
	if d := f.fault("close"); d != nil && st.written > d.At {
		f.fire(d)
		f.lose(st.path, d.At)
		return errno(d.Err)
	}
	return nil
}

func (f *simFS) Sync(fd int) error {
	f.mu.Lock()
	st := f.fds[fd]
	f.mu.Unlock()
	if st == nil {
		return nil
	}
	if d := f.fault("close"); d != nil && st.written > d.At {
		f.fire(d)
		f.lose(st.path, d.At)
		return errno(d.Err)
	}
	return nil
}

func (f *simFS) Rename(from, to string) error {
	if !f.tracked(to) {
		return nil
	}
	if d := f.fault("rename"); d != nil {
		f.fire(d)
		return errno(d.Err)
	}
	return nil
}

func (f *simFS) lose(path string, at int64) {
	syscall.Truncate(path, at)
}

// finish applies the deferred error to files the process never closed.
func (f *simFS) finish() {
	d := f.fault("close")
	if d == nil {
		return
	}
	for _, st := range f.fds {
		if st.written > d.At {
			f.w.fired["disk/close/"+d.Err]++
			syscall.Truncate(st.path, d.At)
		}
	}
}

func (f *simFS) others() []string {
	var out []string
	for p := range f.seen {
		if p == f.out || p == "/dev/null" || strings.HasPrefix(p, "/proc/") {
			continue
		}
		if _, err := os.Lstat(p); err == nil {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}
