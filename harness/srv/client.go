package srv

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/pbt"
	"verif/ref"
)

// Limit is how long a reply or the end of a session may take before it counts
// as missing (confirmed by running the case again).
const Limit = 20 * time.Second

// Conn is a client connection that collects everything the server sends.
type Conn struct {
	C    *net.TCPConn
	s    *Server
	mu   sync.Mutex
	buf  []byte
	eof  bool
	err  error
	when time.Time // of the end
	cond *sync.Cond
}

// Dial connects to the server.
func (s *Server) Dial() (*Conn, error) {
	c, err := net.DialTimeout("tcp", s.Addr, Limit)
	if err != nil {
		if !s.H.Alive() {
			return nil, s.H.Died()
		}
		if errors.Is(err, syscall.ECONNREFUSED) {
			return nil, fmt.Errorf("the server no longer accepts connections: %v", err)
		}
		return nil, pbt.Soft("cannot connect: %v", err)
	}
	k := &Conn{C: c.(*net.TCPConn), s: s}
	k.C.SetNoDelay(true)
	k.cond = sync.NewCond(&k.mu)
	go k.read()
	return k, nil
}

func (k *Conn) read() {
	b := make([]byte, 65536)
	for {
		n, err := k.C.Read(b)
		k.mu.Lock()
		k.buf = append(k.buf, b[:n]...)
		if err != nil {
			k.eof = true
			k.when = time.Now()
			if err != io.EOF {
				k.err = err
			}
		}
		k.cond.Broadcast()
		k.mu.Unlock()
		if err != nil {
			return
		}
	}
}

// Forget drops what has arrived so far.
func (k *Conn) Forget() {
	k.mu.Lock()
	k.buf = nil
	k.mu.Unlock()
}

// Close drops the connection.
func (k *Conn) Close() { k.C.Close() }

// Reset drops the connection with a TCP reset.
func (k *Conn) Reset() {
	k.C.SetLinger(0)
	k.C.Close()
}

// wait waits until f holds.
func (k *Conn) wait(limit time.Duration, f func() bool) bool {
	t := time.AfterFunc(limit, func() { k.mu.Lock(); k.cond.Broadcast(); k.mu.Unlock() })
	defer t.Stop()
	end := time.Now().Add(limit)
	k.mu.Lock()
	defer k.mu.Unlock()
	for !f() {
		if time.Now().After(end) {
			return false
		}
		k.cond.Wait()
	}
	return true
}

// WaitReplies waits until n complete packets have arrived or the connection
// has ended; false on time-out.
func (k *Conn) WaitReplies(n int, limit time.Duration) bool {
	return k.wait(limit, func() bool { return k.eof || countFrames(k.buf) >= n })
}

func countFrames(b []byte) (n int) {
	for {
		_, l, why := ref.ParseFrame(b)
		if why != "" {
			if !strings.HasPrefix(why, "shorter") && !strings.HasSuffix(why, "cut short") {
				return 1 << 30 // not a packet: no point in waiting
			}
			return n
		}
		b = b[l:]
		n++
	}
}

// WaitEnd waits until the server has ended the connection.
func (k *Conn) WaitEnd(limit time.Duration) bool { return k.wait(limit, func() bool { return k.eof }) }

// State returns what has arrived and whether (and when) the connection ended.
func (k *Conn) State() (data []byte, ended bool, when time.Time, err error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]byte{}, k.buf...), k.eof, k.when, k.err
}

// Finish sends the end of the client's stream and collects everything until
// the server closes. A server that does not close (that is C18's matter) is
// left once the expected number of replies has arrived and nothing follows.
// late: not even the expected replies arrived in time.
func (k *Conn) Finish(expect int) (data []byte, late bool) {
	k.C.CloseWrite()
	defer k.Close()
	quiet := 1500 * time.Millisecond
	if k.s.noClose.Load() {
		quiet = 50 * time.Millisecond
	}
	if !k.WaitEnd(quiet) {
		if !k.WaitReplies(expect, Limit) {
			late = true
		} else if !k.WaitEnd(quiet) {
			k.s.noClose.Store(true)
		}
	}
	data, _, _, _ = k.State()
	return data, late
}

// Drained waits until the server has read everything sent so far, so that the
// next write arrives as a segment of its own. It is best effort.
func (k *Conn) Drained() {
	l, r := k.C.LocalAddr().(*net.TCPAddr), k.C.RemoteAddr().(*net.TCPAddr)
	for i := 0; i < 40; i++ {
		q, ok := rxQueue(r, l)
		if !ok {
			time.Sleep(200 * time.Microsecond)
			return
		}
		if q == 0 {
			// the reader may be between the read and its next one
			time.Sleep(20 * time.Microsecond)
			return
		}
		time.Sleep(20 * time.Microsecond)
	}
}

// Deaf is a client that never reads.
type Deaf struct{ C *net.TCPConn }

// DialDeaf connects with a small receive buffer.
func (s *Server) DialDeaf() (*Deaf, error) {
	d := net.Dialer{Timeout: Limit, Control: func(_, _ string, c syscall.RawConn) error {
		return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
	}}
	c, err := d.Dial("tcp", s.Addr)
	if err != nil {
		if !s.H.Alive() {
			return nil, s.H.Died()
		}
		return nil, pbt.Soft("cannot connect: %v", err)
	}
	return &Deaf{c.(*net.TCPConn)}, nil
}

// Fill sends b over and over until the server takes no more for the given
// time (true) or max bytes are sent.
func (d *Deaf) Fill(b []byte, quiet time.Duration, max int) bool {
	for n := 0; n < max; n += len(b) {
		d.C.SetWriteDeadline(time.Now().Add(quiet))
		if _, err := d.C.Write(b); err != nil {
			return true
		}
	}
	return false
}

// Open tells whether the server still holds its end of the connection; ok is
// false if the system does not tell.
func (d *Deaf) Open() (open, ok bool) {
	b, err := os.ReadFile("/proc/self/net/tcp")
	if err != nil {
		return false, false
	}
	hex := func(a *net.TCPAddr) string {
		ip := a.IP.To4()
		return fmt.Sprintf("%02X%02X%02X%02X:%04X", ip[3], ip[2], ip[1], ip[0], a.Port)
	}
	ours, theirs := hex(d.C.LocalAddr().(*net.TCPAddr)), hex(d.C.RemoteAddr().(*net.TCPAddr))
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 3 && f[1] == theirs && f[2] == ours {
			return f[3] == "01" || f[3] == "08", true // ESTABLISHED, CLOSE_WAIT
		}
	}
	return false, true
}

var (
	diagMu sync.Mutex
	diagFd = -1
	noDiag bool
)

// rxQueue asks the kernel (sock_diag) for the number of bytes in the receive
// queue of the socket local that is connected to remote.
func rxQueue(local, remote *net.TCPAddr) (uint32, bool) {
	diagMu.Lock()
	defer diagMu.Unlock()
	if noDiag {
		return 0, false
	}
	if diagFd < 0 {
		fd, err := syscall.Socket(syscall.AF_NETLINK, syscall.SOCK_RAW|syscall.SOCK_CLOEXEC, 4) // NETLINK_SOCK_DIAG
		if err != nil {
			noDiag = true
			return 0, false
		}
		syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &syscall.Timeval{Sec: 1})
		diagFd = fd
	}
	li, ri := local.IP.To4(), remote.IP.To4()
	if li == nil || ri == nil {
		return 0, false
	}
	q := make([]byte, 72)
	le := binary.LittleEndian
	le.PutUint32(q[0:], 72)
	le.PutUint16(q[4:], 20) // SOCK_DIAG_BY_FAMILY
	le.PutUint16(q[6:], 1)  // NLM_F_REQUEST
	q[16] = syscall.AF_INET
	q[17] = syscall.IPPROTO_TCP
	le.PutUint32(q[20:], 0xFFFFFFFF)
	binary.BigEndian.PutUint16(q[24:], uint16(local.Port))
	binary.BigEndian.PutUint16(q[26:], uint16(remote.Port))
	copy(q[28:], li)
	copy(q[44:], ri)
	le.PutUint32(q[64:], 0xFFFFFFFF) // no cookie
	le.PutUint32(q[68:], 0xFFFFFFFF)
	if err := syscall.Sendto(diagFd, q, 0, &syscall.SockaddrNetlink{Family: syscall.AF_NETLINK}); err != nil {
		noDiag = true
		return 0, false
	}
	b := make([]byte, 4096)
	n, _, err := syscall.Recvfrom(diagFd, b, 0)
	if err != nil || n < 16+72 || le.Uint16(b[4:]) != 20 {
		return 0, false
	}
	return le.Uint32(b[16+56:]), true
}
