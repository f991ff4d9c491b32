package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// replayCase is one run of tools/send_egts.py.
type replayCase struct {
	Packets []pkt
	Case    []int // per line: 0 upper, 1 lower, 2 mixed
	CRLF    bool
	NoEnd   bool // no line end after the last line
	Replies [][]byte
	Delay   []int // ms before each reply
	Args    int   // form and order of the arguments
	Bad     string
	At      int // line of the fault
	BadLine string
}

// pkt is a packet, or bytes.
type pkt struct {
	P *ref.Packet `json:",omitempty"`
	B []byte      `json:",omitempty"`
}

func (p pkt) bytes() []byte {
	if p.P != nil {
		return p.P.Bytes()
	}
	return p.B
}

func genReplay(t *rapid.T) replayCase {
	c := replayCase{CRLF: gen.Chance(t, 4, "crlf"), NoEnd: gen.Chance(t, 3, "noend"), Args: rapid.IntRange(0, 11).Draw(t, "args")}
	for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
		switch k := rapid.IntRange(0, 6).Draw(t, "kind"); {
		case k == 6 && len(c.Packets) > 0:
			c.Packets = append(c.Packets, c.Packets[rapid.IntRange(0, len(c.Packets)-1).Draw(t, "again")])
		case k == 0:
			c.Packets = append(c.Packets, pkt{B: append([]byte{gen.B8(t, "b0")}, gen.BytesUpTo(t, 300, "b")...)})
		case k == 1:
			p := gen.BigPacket(t, gen.Opt{Unknown: true})
			c.Packets = append(c.Packets, pkt{P: &p})
		default:
			p := gen.Packet(t, gen.Opt{Unknown: true})
			c.Packets = append(c.Packets, pkt{P: &p})
		}
		c.Case = append(c.Case, rapid.IntRange(0, 2).Draw(t, "case"))
		reply := gen.Header(t)
		reply.PT = ref.PtResponse
		for k := rapid.IntRange(0, 4).Draw(t, "confirmations"); k > 0; k-- {
			reply.Records = append(reply.Records, ref.Record{RN: gen.U16(t, "rn"), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TResponse, Resp: &ref.Resp{CRN: gen.U16(t, "crn")}}}})
		}
		b := reply.Bytes()
		if gen.Chance(t, 10, "longreply") {
			for len(b)+3 <= 2048 {
				b = append(b, b...)
				if len(b) > 2048 {
					b = b[:2048]
				}
			}
		}
		c.Replies = append(c.Replies, b)
		c.Delay = append(c.Delay, rapid.SampledFrom([]int{0, 0, 0, 5, 30}).Draw(t, "delay"))
	}
	if gen.Chance(t, 6, "bad") {
		c.Bad = rapid.SampledFrom([]string{"line", "line", "nofile", "refused"}).Draw(t, "badkind")
		c.At = rapid.IntRange(0, len(c.Packets)-1).Draw(t, "at")
		c.BadLine = rapid.SampledFrom([]string{"xyz", "0", "01 0", "010203g4", "0x01", "пакет"}).Draw(t, "badline")
	}
	return c
}

// genLateReplay has a server that takes long to answer.
func genLateReplay(t *rapid.T) replayCase {
	c := genReplay(t)
	c.Bad = ""
	for i := range c.Delay {
		c.Delay[i] = 0
	}
	c.Delay[rapid.IntRange(0, len(c.Delay)-1).Draw(t, "late")] = rapid.SampledFrom([]int{1500, 4000, 8000, 12000}).Draw(t, "delay")
	return c
}

func (c replayCase) text() string {
	var lines []string
	for i, p := range c.Packets {
		h := hex.EncodeToString(p.bytes())
		switch c.Case[i] {
		case 0:
			h = strings.ToUpper(h)
		case 2:
			h = strings.ToUpper(h[:len(h)/2]) + h[len(h)/2:]
		}
		if c.Bad == "line" && i == c.At {
			h = c.BadLine
		}
		lines = append(lines, h)
	}
	end := "\n"
	if c.CRLF {
		end = "\r\n"
	}
	s := strings.Join(lines, end)
	if !c.NoEnd {
		s += end
	}
	return s
}

func runReplay(c replayCase, r *pbt.Rec) error {
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		return pbt.Inconclusivef("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "packets.csv")
	if c.Bad != "nofile" {
		if err := os.WriteFile(file, []byte(c.text()), 0o600); err != nil {
			return pbt.Inconclusivef("%v", err)
		}
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return pbt.Inconclusivef("%v", err)
	}
	defer ln.Close()
	host, port, _ := net.SplitHostPort(ln.Addr().String())
	n := len(c.Packets)
	if c.Bad == "line" {
		n = c.At
	}
	if c.Bad == "refused" {
		ln.Close()
	}
	// the server
	verdict := make(chan error, 8)
	go func() {
		first := true
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			if !first {
				k.Close()
				verdict <- fmt.Errorf("the tool connected more than once")
				return
			}
			first = false
			go func() { verdict <- c.serve(k.(*net.TCPConn), n) }()
		}
	}()
	s, p := []string{"-s", host}, []string{"-p", port}
	if c.Args&1 != 0 {
		s[0] = "--host"
	}
	if c.Args&2 != 0 {
		p[0] = "--port"
	}
	var args []string
	switch c.Args / 4 {
	case 0:
		args = append(append(append(args, s...), p...), file)
	case 1:
		args = append(append(append(args, file), p...), s...)
	default:
		args = append(append(append(args, p...), file), s...)
	}
	t := &proc{done: make(chan struct{})}
	t.cmd = exec.Command("python3", append([]string{filepath.Join(pbt.BinDir, "send_egts.py")}, args...)...)
	// the pause after each packet is not what is checked: 1 ms instead of 1 s
	t.cmd.Env = append(os.Environ(), "PYTHONPATH="+filepath.Join(pbt.BinDir, "py"), "PYTHONDONTWRITEBYTECODE=1", "PYTHONIOENCODING=utf-8", "LC_ALL=C.UTF-8")
	t.cmd.Stdout, t.cmd.Stderr = &t.out, &t.out
	if err := t.cmd.Start(); err != nil {
		return pbt.Inconclusivef("cannot start python3: %v", err)
	}
	go func() {
		t.cmd.Wait()
		t.code = t.cmd.ProcessState.ExitCode()
		close(t.done)
	}()
	defer t.kill()
	code, ok := t.wait(wait)
	if !ok {
		select {
		case err := <-verdict:
			if err != nil {
				return err
			}
		default:
		}
		return pbt.Soft("the tool does not end: %s", tail(t.out.String(), 300))
	}
	if c.Bad == "" || c.Bad == "line" {
		select {
		case err := <-verdict:
			if err != nil {
				return fmt.Errorf("%v (status %d: %s)", err, code, tail(t.out.String(), 300))
			}
		case <-time.After(wait):
			if c.Bad == "" || n > 0 {
				return pbt.Soft("the tool did not connect: status %d, %s", code, tail(t.out.String(), 300))
			}
		}
	}
	r.NonTrivial()
	if c.Bad != "" {
		r.Class("fault: %s", c.Bad)
		if code == 0 {
			return fmt.Errorf("exit status 0 (%s)", c.Bad)
		}
		return nil
	}
	if code != 0 {
		return fmt.Errorf("exit status %d: %s", code, tail(t.out.String(), 400))
	}
	select {
	case err := <-verdict:
		if err != nil {
			return err
		}
	default:
	}
	// the report
	out := strings.ToLower(t.out.String())
	for i := range c.Packets {
		for _, b := range [][]byte{c.Packets[i].bytes(), c.Replies[i]} {
			k := strings.Index(out, hex.EncodeToString(b))
			if k < 0 {
				return fmt.Errorf("packet %d or its reply is not reported in order", i+1)
			}
			out = out[k+2*len(b):]
		}
	}
	r.ClassIf(c.NoEnd, "no line end at the end")
	r.ClassIf(c.CRLF, "CRLF")
	r.ClassIf(len(c.Packets) > 1, "several packets")
	seen := map[string]bool{}
	for _, p := range c.Packets {
		r.ClassIf(seen[string(p.bytes())], "a packet twice")
		seen[string(p.bytes())] = true
		r.ClassIf(len(p.bytes()) > 20000, "a large packet")
	}
	return nil
}

// serve expects the first n packets one by one and answers each.
func (c replayCase) serve(k *net.TCPConn, n int) error {
	defer k.Close()
	k.SetNoDelay(true)
	buf := make([]byte, 1<<17)
	for i := 0; i < n; i++ {
		want := c.Packets[i].bytes()
		got := buf[:len(want)]
		k.SetReadDeadline(time.Now().Add(wait))
		m, err := io.ReadFull(k, got)
		if !bytes.Equal(got[:m], want[:m]) {
			return fmt.Errorf("packet %d of %d arrives as %x instead of %x", i+1, n, short(got[:m]), short(want))
		}
		if err != nil {
			return fmt.Errorf("%d of the %d bytes of packet %d arrive: %v", m, len(want), i+1, err)
		}
		if d := c.Delay[i]; d > 0 {
			k.SetReadDeadline(time.Now().Add(time.Duration(d) * time.Millisecond))
			if m, err := k.Read(buf); m > 0 || err == io.EOF {
				return fmt.Errorf("the tool does not wait for the reply to packet %d (%d bytes, %v)", i+1, m, err)
			}
		}
		k.Write(c.Replies[i])
	}
	k.SetReadDeadline(time.Now().Add(wait))
	rest, err := io.ReadAll(io.LimitReader(k, 1<<17))
	if len(rest) > 0 {
		return fmt.Errorf("the tool sends %x after its packets", short(rest))
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return pbt.Soft("the tool does not close the connection")
	}
	return nil
}

func short(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func c30() pbt.Property {
	return pbt.Property{
		ID: "C30",
		Rule: "files of 1..5 packets (well-formed up to 65 kB, or other bytes) in any hexadecimal spelling, with LF or CRLF and with or without a final line end, played by tools/send_egts.py to a server that answers each packet after a delay of up to 12 s; " +
			"files with a bad line, missing files, refused connections; non-trivial: every case; distinct by the case's JSON",
		Subs: []pbt.Sub{pbt.Make("play", 1600, 40000, genReplay, runReplay),
			pbt.Make("late", 16, 300, genLateReplay, runReplay)},
	}
}
