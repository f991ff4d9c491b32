// Package srv drives receiver servers of the code under test: it manages the
// srvhost process and plays client sessions over real TCP connections.
package srv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verif/pbt"
)

// Host is a srvhost process.
type Host struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	mu     sync.Mutex
	stderr *tailBuf
	exited chan struct{}
	nextID int
	files  int // limit set by LimitFiles
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		// keep the beginning (a panic message) and drop the rest
		t.b = t.b[:1<<16]
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// Start launches the process.
func Start() (*Host, error) {
	h := &Host{stderr: &tailBuf{}, exited: make(chan struct{})}
	h.cmd = exec.Command(filepath.Join(pbt.BinDir, "srvhost"))
	h.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=single")
	h.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if h.in, err = h.cmd.StdinPipe(); err != nil {
		return nil, pbt.Inconclusivef("srvhost: %v", err)
	}
	o, err := h.cmd.StdoutPipe()
	if err != nil {
		return nil, pbt.Inconclusivef("srvhost: %v", err)
	}
	h.out = bufio.NewReaderSize(o, 1<<20)
	h.cmd.Stderr = h.stderr
	if err := h.cmd.Start(); err != nil {
		return nil, pbt.Inconclusivef("srvhost: %v", err)
	}
	go func() {
		h.cmd.Wait()
		close(h.exited)
	}()
	return h, nil
}

// Kill ends the process.
func (h *Host) Kill() {
	if h.cmd.Process != nil {
		h.cmd.Process.Kill()
	}
	<-h.exited
}

// Alive tells whether the process still runs.
func (h *Host) Alive() bool {
	select {
	case <-h.exited:
		return false
	default:
		return true
	}
}

// Stderr is what the process wrote to its standard error.
func (h *Host) Stderr() string { return h.stderr.String() }

type request struct {
	Op     string
	ID     string           `json:",omitempty"`
	Addr   string           `json:",omitempty"`
	TTLms  int64            `json:",omitempty"`
	Stores int              `json:",omitempty"`
	Fail   [][2]int64       `json:",omitempty"`
	Delay  map[string]int64 `json:",omitempty"`
	WaitS  int              `json:",omitempty"`
	Hold   [][2]int64       `json:",omitempty"`
}

// RawSave is one call of Save as a store saw it.
type RawSave struct {
	S int    `json:"s"`
	B string `json:"b"`
	E string `json:"e"`
}

type answer struct {
	Ok         bool      `json:"ok"`
	Err        string    `json:"err"`
	Saves      []RawSave `json:"saves"`
	Returned   bool      `json:"returned"`
	Goroutines int       `json:"goroutines"`
	Held       int       `json:"held"`
	Heap       uint64    `json:"heap"`
}

// ErrDied: the server process ended.
var ErrDied = errors.New("the server process died")

// Died describes the end of the process.
func (h *Host) Died() error {
	select {
	case <-h.exited:
	case <-time.After(5 * time.Second):
		return fmt.Errorf("%w (control connection lost)", ErrDied)
	}
	return fmt.Errorf("%w: %s\n%s", ErrDied, h.cmd.ProcessState, clipS(h.Stderr(), 3000))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (h *Host) call(q request) (answer, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	var a answer
	b, _ := json.Marshal(q)
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := h.in.Write(append(b, '\n')); err != nil {
			ch <- res{nil, err}
			return
		}
		l, err := h.out.ReadBytes('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			return a, h.Died()
		}
		return a, json.NewDecoder(bytes.NewReader(r.line)).Decode(&a)
	case <-time.After(60 * time.Second):
		return a, pbt.Soft("the server process does not answer (control request %s)", q.Op)
	}
}

// Server is one running receiver server.
type Server struct {
	H      *Host
	ID     string
	Addr   string
	Stores int
	TTL    time.Duration
	// noClose: seen not to close connections the client has ended
	noClose atomic.Bool
}

var (
	addrMu  sync.Mutex
	addrSeq int
)

// FreshAddr picks a loopback address no other shard uses.
func FreshAddr() string {
	addrMu.Lock()
	addrSeq++
	n := addrSeq
	addrMu.Unlock()
	pid := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 10+pid>>8&0x7F, pid&0xFF, 1+n%200)
	for i := 0; i < 50; i++ {
		port := 20000 + (n*37+i*7919+pid)%10000
		a := fmt.Sprintf("%s:%d", ip, port)
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
			return a
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "127.0.0.1:5999"
	}
	defer l.Close()
	return l.Addr().String()
}

// NewServer starts a server in the host and waits until it accepts.
func (h *Host) NewServer(ttl time.Duration, stores int) (*Server, error) {
	h.mu.Lock()
	h.nextID++
	id := fmt.Sprint("s", h.nextID)
	h.mu.Unlock()
	s := &Server{H: h, ID: id, Addr: FreshAddr(), Stores: stores, TTL: ttl}
	if _, err := h.call(request{Op: "start", ID: id, Addr: s.Addr, TTLms: ttl.Milliseconds(), Stores: stores}); err != nil {
		return nil, pbt.Inconclusivef("cannot start a server: %v", err)
	}
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); time.Sleep(time.Millisecond) {
		c, err := net.DialTimeout("tcp", s.Addr, 5*time.Second)
		if err == nil {
			c.Close()
			return s, nil
		}
		if !h.Alive() {
			return nil, pbt.Inconclusivef("cannot start a server: %v", h.Died())
		}
	}
	return nil, pbt.Inconclusivef("server at %s does not listen", s.Addr)
}

// Plan sets which saves fail and how long saves take.
func (s *Server) Plan(fail [][2]int64, delay map[int64]int64) error {
	d := map[string]int64{}
	for k, v := range delay {
		d[fmt.Sprint(k)] = v
	}
	_, err := s.H.call(request{Op: "plan", ID: s.ID, Fail: fail, Delay: d})
	return err
}

// Hold makes the saves of these (store, navigation time) pairs wait for Release.
func (s *Server) Hold(h [][2]int64) error {
	_, err := s.H.call(request{Op: "hold", ID: s.ID, Hold: h})
	return err
}

// Release lets the held saves go on and ends the holding.
func (s *Server) Release() error {
	_, err := s.H.call(request{Op: "release", ID: s.ID})
	return err
}

// WaitHeld waits until n saves are being held.
func (s *Server) WaitHeld(n int, limit time.Duration) (bool, error) {
	for end := time.Now().Add(limit); ; time.Sleep(500 * time.Microsecond) {
		a, err := s.H.call(request{Op: "held", ID: s.ID})
		if err != nil || a.Held >= n {
			return err == nil, err
		}
		if time.Now().After(end) {
			return false, nil
		}
	}
}

// Take returns and forgets the recorded saves.
func (s *Server) Take() ([]RawSave, error) {
	a, err := s.H.call(request{Op: "take", ID: s.ID})
	return a.Saves, err
}

// Stop stops the server; returned tells whether its accept loop ended within
// wait seconds.
func (s *Server) Stop(wait int) (errText string, returned bool, err error) {
	a, err := s.H.call(request{Op: "stop", ID: s.ID, WaitS: wait})
	return a.Err, a.Returned, err
}

// StopAgain stops the server once more.
func (s *Server) StopAgain(wait int) (errText string, returned bool, err error) {
	a, err := s.H.call(request{Op: "again", ID: s.ID, WaitS: wait})
	return a.Err, a.Returned, err
}

// StopFresh stops a server that was never started.
func (h *Host) StopFresh() (string, error) {
	a, err := h.call(request{Op: "fresh", Addr: "127.0.0.1:1"})
	return a.Err, err
}

// Goroutines is the number of goroutines in the server process.
func (h *Host) Goroutines() (int, error) {
	a, err := h.call(request{Op: "stats"})
	return a.Goroutines, err
}

// Heap is the memory in use in the server process after a collection.
func (h *Host) Heap() (int64, error) {
	a, err := h.call(request{Op: "heap"})
	return int64(a.Heap), err
}

// Open counts what the process holds: goroutines and files.
func (h *Host) Open() (goroutines, files int, err error) {
	if goroutines, err = h.Goroutines(); err != nil {
		return
	}
	files, err = h.openFiles()
	return
}

// Pool keeps one host with servers for the configurations in use, restarting
// it after a crash.
type Pool struct {
	h       *Host
	servers map[string]*Server
}

// Get returns a server with that configuration.
func (p *Pool) Get(ttl time.Duration, stores int) (*Server, error) {
	if p.h == nil || !p.h.Alive() {
		p.Close()
		h, err := Start()
		if err != nil {
			return nil, err
		}
		p.h, p.servers = h, map[string]*Server{}
	}
	k := fmt.Sprint(ttl, stores)
	if s := p.servers[k]; s != nil {
		return s, nil
	}
	s, err := p.h.NewServer(ttl, stores)
	if err != nil {
		return nil, err
	}
	p.servers[k] = s
	return s, nil
}

// Host returns the running host (nil before the first Get).
func (p *Pool) Host() *Host { return p.h }

// Close ends the host.
func (p *Pool) Close() {
	if p.h != nil {
		p.h.Kill()
		p.h = nil
	}
}

// LimitFiles leaves the process n more file descriptors than it has open; the
// function it returns lifts the limit.
func (h *Host) LimitFiles(n int) (func(), error) {
	open, err := h.openFiles()
	if err != nil {
		return nil, err
	}
	var old syscall.Rlimit
	if e := h.prlimit(nil, &old); e != 0 {
		return nil, pbt.Inconclusivef("prlimit: %v", e)
	}
	low := old
	low.Cur = uint64(open + n)
	if e := h.prlimit(&low, nil); e != 0 {
		return nil, pbt.Inconclusivef("prlimit: %v", e)
	}
	h.files = open + n
	return func() { h.prlimit(&old, nil) }, nil
}

func (h *Host) openFiles() (int, error) {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", h.cmd.Process.Pid))
	if err != nil {
		if !h.Alive() {
			return 0, h.Died()
		}
		return 0, pbt.Inconclusivef("%v", err)
	}
	return len(d), nil
}

// FilesUsedUp tells whether the limit of LimitFiles is reached.
func (h *Host) FilesUsedUp() (bool, error) {
	n, err := h.openFiles()
	return n >= h.files, err
}

func (h *Host) prlimit(set, get *syscall.Rlimit) syscall.Errno {
	_, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(h.cmd.Process.Pid), syscall.RLIMIT_NOFILE,
		uintptr(unsafe.Pointer(set)), uintptr(unsafe.Pointer(get)), 0, 0)
	return e
}
