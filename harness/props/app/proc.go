package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/pbt"
)

// proc is a running program built from the code under test.
type proc struct {
	cmd  *exec.Cmd
	out  safeBuf
	done chan struct{}
	code int
}

type safeBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *safeBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 64<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}

func (s *safeBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

func start(name string, args ...string) (*proc, error) {
	p := &proc{done: make(chan struct{})}
	p.cmd = exec.Command(filepath.Join(pbt.BinDir, name), args...)
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	if err := p.cmd.Start(); err != nil {
		return nil, pbt.Inconclusivef("cannot start %s: %v", name, err)
	}
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	return p, nil
}

// wait waits for the exit status.
func (p *proc) wait(limit time.Duration) (int, bool) {
	select {
	case <-p.done:
		return p.code, true
	case <-time.After(limit):
		return 0, false
	}
}

func (p *proc) alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	<-p.done
}

// listening lists the addresses the process accepts TCP connections on; ok is
// false if the system does not tell.
func (p *proc) listening() (addrs []string, ok bool) {
	dir := fmt.Sprintf("/proc/%d/", p.cmd.Process.Pid)
	fds, err := os.ReadDir(dir + "fd")
	if err != nil {
		return nil, false
	}
	mine := map[string]bool{}
	for _, f := range fds {
		if l, err := os.Readlink(dir + "fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[strings.Trim(l, "socket:[]")] = true
		}
	}
	for _, file := range []string{"net/tcp", "net/tcp6"} {
		b, err := os.ReadFile(dir + file)
		if err != nil {
			if file == "net/tcp" {
				return nil, false
			}
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) < 10 || f[3] != "0A" || !mine[f[9]] {
				continue
			}
			mine[f[9]] = false // the kernel may list a socket twice
			h, pt, _ := strings.Cut(f[1], ":")
			port, _ := strconv.ParseUint(pt, 16, 16)
			if len(h) == 8 {
				v, _ := strconv.ParseUint(h, 16, 32)
				h = net.IPv4(byte(v), byte(v>>8), byte(v>>16), byte(v>>24)).String()
			} else if strings.Trim(h, "0") == "" {
				h = "::"
			}
			addrs = append(addrs, net.JoinHostPort(h, fmt.Sprint(port)))
		}
	}
	return addrs, true
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
