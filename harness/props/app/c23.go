package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/sess"
	"verif/srv"
)

// recvCase runs the receiver program with a configuration file and plays
// sessions against it.
type recvCase struct {
	Stores   []backend
	NoStore  bool // no storage section at all (otherwise an empty one)
	Level    string
	HasLevel bool
	TTL      int // 0: not given
	Order    []int
	Extra    bool
	AnyHost  bool   // host left empty: every address
	Broken   string // a store that cannot be set up: the log is used
	Conns    [][]model.Item
}

// broken lists sections that cannot be loaded: nothing listens on port 1.
var broken = map[string]map[string]string{
	"mongo":           {"host": "127.0.0.1"},
	"Redis":           {"server": "127.0.0.1:1", "queue": "q", "db": "0"},
	"postgresql":      {"host": "127.0.0.1", "port": "1", "user": "u", "password": "p", "database": "d", "table": "t", "sslmode": "disable"},
	"mysql":           {"uri": "u:p@tcp(127.0.0.1:1)/d", "table": "t"},
	"nats":            {"servers": "nats://127.0.0.1:1", "topic": "t"},
	"rabbitmq":        {"host": "127.0.0.1", "port": "1", "user": "u", "password": "p", "exchange": "e", "key": "k"},
	"tarantool_queue": {"host": "127.0.0.1", "port": "1", "user": "u", "password": "p", "max_recons": "0", "timeout": "5", "reconnect": "0", "queue": "q"},
}

func genRecv(t *rapid.T) recvCase {
	c := recvCase{NoStore: gen.Bit(t, "nostore") == 1, Level: rapid.SampledFrom([]string{"DEBUG", "INFO", "INFO", "info", "TRACE", ""}).Draw(t, "level"), HasLevel: gen.Bit(t, "haslevel") == 1,
		TTL: rapid.SampledFrom([]int{0, 60, 600}).Draw(t, "ttl"), Order: rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order"), Extra: gen.Bit(t, "extra") == 1, AnyHost: gen.Chance(t, 8, "anyhost")}
	if !gen.Chance(t, 3, "log") {
		for _, k := range fakes.Kinds {
			if gen.Chance(t, 3, "use"+k) {
				b := genBackend(t, k)
				b.Want.MaxPayload = 0
				c.Stores = append(c.Stores, b)
			}
		}
		if len(c.Stores) > 0 {
			// the log is not needed
			c.Level = rapid.SampledFrom([]string{"DEBUG", "INFO", "WARN", "ERROR", "x"}).Draw(t, "anylevel")
		}
	}
	if len(c.Stores) == 0 && gen.Chance(t, 3, "broken") {
		c.Broken = rapid.SampledFrom([]string{"mongo", "Redis", "postgresql", "mysql", "nats", "rabbitmq", "tarantool_queue"}).Draw(t, "brokenkind")
	}
	id := sess.NewIDs(t)
	for n := rapid.IntRange(1, 3).Draw(t, "conns"); n > 0; n-- {
		c.Conns = append(c.Conns, sess.Session(t, id, sess.Opt{Packets: 3, Responses: true, Big: gen.Chance(t, 6, "big")}))
	}
	return c
}

func (c recvCase) file(host, port string, states map[string]*fakes.State) settings {
	s := settings{HasHost: true, HasPort: true, Host: kv{V: host, Style: 2}, Port: kv{V: port, Style: c.TTL % 3}, HasLevel: c.HasLevel || c.Level != "INFO", Level: kv{V: c.Level},
		HasTTL: c.TTL > 0, TTL: c.TTL, HasStore: len(c.Stores) > 0 || c.Broken != "" || !c.NoStore, Order: c.Order, Extra: c.Extra}
	for i, b := range c.Stores {
		x := section{Name: b.Kind}
		for k, v := range b.params(states[b.Kind]) {
			x.KVs = append(x.KVs, kv{K: k, V: v, Style: i % 3})
		}
		s.Stores = append(s.Stores, x)
	}
	if c.Broken != "" {
		x := section{Name: c.Broken}
		for k, v := range broken[c.Broken] {
			x.KVs = append(x.KVs, kv{K: k, V: v})
		}
		s.Stores = append(s.Stores, x)
	}
	return s
}

// anyPort picks a port that is free on every address, from a range of this
// process's own (32768 and up are the system's).
func anyPort() string {
	for i := 0; ; i++ {
		anySeq++
		p := fmt.Sprint(30000 + pbt.Shard%8*340 + (os.Getpid()+anySeq)%340)
		l, err := net.Listen("tcp", ":"+p)
		if err == nil {
			l.Close()
			return p
		}
		if i > 500 {
			return "30000"
		}
	}
}

var anySeq int

// errInUse: something else listens there.
var errInUse = errors.New("address in use")

// launch starts the receiver and waits until it listens.
func launch(cfg settings, addr string) (*proc, func(), error) {
	path, err := scratchFile(cfg.yaml())
	if err != nil {
		return nil, nil, pbt.Inconclusivef("%v", err)
	}
	p, err := start("receiver", "-c", path)
	if err != nil {
		os.Remove(path)
		return nil, nil, err
	}
	stop := func() { p.kill(); os.Remove(path) }
	for end := time.Now().Add(wait); ; time.Sleep(2 * time.Millisecond) {
		k, err := net.DialTimeout("tcp", addr, time.Second)
		if err == nil {
			k.Close()
			// it may have been somebody else who answered
			if at, ok := p.listening(); !ok || len(at) > 0 {
				return p, stop, nil
			}
		}
		if !p.alive() {
			out := p.out.String()
			stop()
			if strings.Contains(out, "address already in use") {
				return nil, nil, pbt.Inconclusive{Err: fmt.Errorf("%s: %w", addr, errInUse)}
			}
			return nil, nil, fmt.Errorf("the receiver exits with status %d:\n%s\nconfiguration:\n%s", p.code, tail(out, 1500), cfg.yaml())
		}
		if time.Now().After(end) {
			out := p.out.String()
			stop()
			return nil, nil, pbt.Soft("the receiver does not listen on %s:\n%s\nconfiguration:\n%s", addr, tail(out, 1500), cfg.yaml())
		}
	}
}

// launchFree starts the receiver on an address that is free.
func launchFree(anyHost bool, cfg func(host, port string) settings) (p *proc, stop func(), cfgHost, addr string, err error) {
	for i := 0; i < 10; i++ {
		addr = srv.FreshAddr()
		host, port, _ := net.SplitHostPort(addr)
		cfgHost = host
		if anyHost {
			// ports no one address is used with
			cfgHost, port = "", anyPort()
			addr = net.JoinHostPort(host, port)
		}
		p, stop, err = launch(cfg(cfgHost, port), addr)
		var in pbt.Inconclusive
		if errors.As(err, &in) && errors.Is(in.Err, errInUse) {
			continue
		}
		return
	}
	return
}

// converse sends the bytes and reads until the end or n packets.
func converse(addr string, b []byte, n int) ([]byte, error) {
	k, err := net.DialTimeout("tcp", addr, wait)
	if err != nil {
		return nil, fmt.Errorf("cannot connect: %v", err)
	}
	defer k.Close()
	go func() {
		k.Write(b)
		k.(*net.TCPConn).CloseWrite()
	}()
	k.SetReadDeadline(time.Now().Add(wait))
	var got []byte
	buf := make([]byte, 65536)
	for {
		m, err := k.Read(buf)
		got = append(got, buf[:m]...)
		if err == io.EOF {
			return got, nil
		}
		if err != nil {
			return got, pbt.Soft("waiting for replies: %v (%d bytes so far)", err, len(got))
		}
		cnt, rest := 0, got
		for {
			_, l, why := ref.ParseFrame(rest)
			if why != "" {
				break
			}
			cnt, rest = cnt+1, rest[l:]
		}
		if cnt >= n && n > 0 && len(rest) == 0 {
			// whatever else there is arrives before the end; do not insist on it
			k.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			for {
				m, err := k.Read(buf)
				got = append(got, buf[:m]...)
				if err != nil {
					return got, nil
				}
			}
		}
	}
}

func runRecv(c recvCase, r *pbt.Rec) error {
	states := map[string]*fakes.State{}
	for _, b := range c.Stores {
		s, err := fake(b.Kind)
		if err != nil {
			return err
		}
		states[b.Kind] = s.Begin(b.Want)
		defer states[b.Kind].End()
	}
	p, stop, cfgHost, addr, err := launchFree(c.AnyHost, func(host, port string) settings { return c.file(host, port, states) })
	if err != nil {
		return err
	}
	defer stop()
	_, port, _ := net.SplitHostPort(addr)
	if at, ok := p.listening(); ok {
		if len(at) != 1 || !c.AnyHost && at[0] != addr || c.AnyHost && at[0] != "[::]:"+port && at[0] != "0.0.0.0:"+port {
			return fmt.Errorf("host %q and port %s are configured, but it listens on %v", cfgHost, port, at)
		}
	}
	want := map[int64]model.Expect{}
	total := 0
	type res struct {
		m   *model.Session
		got []byte
		err error
	}
	rs := make([]res, len(c.Conns))
	var wg sync.WaitGroup
	for i, its := range c.Conns {
		m := &model.Session{}
		var b []byte
		for _, it := range its {
			m.Feed(it, nil)
			b = append(b, it.Bytes()...)
		}
		for _, e := range m.Saves {
			want[e.Nav] = e
			total++
		}
		rs[i].m = m
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i].got, rs[i].err = converse(addr, b, len(m.Replies))
		}()
	}
	wg.Wait()
	if !p.alive() {
		return fmt.Errorf("the receiver died:\n%s", tail(p.out.String(), 3000))
	}
	for i, x := range rs {
		if x.err != nil {
			return x.err
		}
		reps, bad := model.ParseReplies(x.got)
		if bad != "" {
			return fmt.Errorf("connection %d: %s", i+1, bad)
		}
		if d := model.DiffReplies(x.m.Replies, reps, true); d != "" {
			return fmt.Errorf("connection %d: %s", i+1, d)
		}
	}
	verify := func(where string, recs []string) error {
		left := map[int64]model.Expect{}
		for k, v := range want {
			left[k] = v
		}
		for _, b := range recs {
			v, err := model.Parse(b)
			if err != nil {
				return fmt.Errorf("%s: not a record: %v: %.200q", where, err, b)
			}
			e, ok := left[v.Nav]
			if !ok {
				return fmt.Errorf("%s: a record that was not sent, or twice: %.300q", where, b)
			}
			delete(left, v.Nav)
			if d := e.Diff(v, func(string) {}); d != "" {
				return fmt.Errorf("%s: %s", where, d)
			}
		}
		if len(left) > 0 {
			return fmt.Errorf("%s: %d of %d records are missing", where, len(left), total)
		}
		return nil
	}
	if len(c.Stores) == 0 {
		end := time.Now().Add(wait)
		for {
			recs := logRecords(p.out.String())
			if len(recs) >= total || time.Now().After(end) {
				if err := verify("log", recs); err != nil {
					return fmt.Errorf("%v\n%s", err, tail(p.out.String(), 1500))
				}
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		r.Class("log")
		r.ClassIf(c.Broken != "", "log instead of "+c.Broken)
	}
	for _, b := range c.Stores {
		st := states[b.Kind]
		if !st.Wait(wait, func(s fakes.Snapshot) bool { return len(s.Got) >= total || len(s.Problems) > 0 }) {
			return pbt.Soft("%s received %d records instead of %d\n%s", b.Kind, len(st.Snap().Got), total, tail(p.out.String(), 1500))
		}
		s := st.Snap()
		if len(s.Problems) > 0 {
			return fmt.Errorf("%s: %s", b.Kind, s.Problems[0])
		}
		var recs []string
		for _, d := range s.Got {
			if x := b.same(d, d.Payload); x != "" {
				return fmt.Errorf("%s: %s", b.Kind, x)
			}
			recs = append(recs, string(d.Payload))
		}
		if err := verify(b.Kind, recs); err != nil {
			return err
		}
		r.Class("%s", b.Kind)
	}
	if total > 0 {
		r.NonTrivial()
	}
	r.ClassIf(len(c.Conns) > 1, "several connections")
	r.ClassIf(len(c.Stores) > 1, "several stores")
	r.ClassIf(c.AnyHost, "no host configured")
	return nil
}

// lifeCase: the configured connection lifetime is applied.
type lifeCase struct {
	TTL   int
	Bytes []byte // sent first
	Order []int
}

func genLife(t *rapid.T) lifeCase {
	return lifeCase{rapid.SampledFrom([]int{1, 1, 2, 0, 600}).Draw(t, "ttl"), gen.Packet(t, gen.Opt{Types: []byte{ref.TPos}}).Bytes(), rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order")}
}

func runLife(c lifeCase, r *pbt.Rec) error {
	_, stop, _, addr, err := launchFree(false, func(host, port string) settings {
		return settings{HasHost: true, HasPort: true, Host: kv{V: host}, Port: kv{V: port}, HasTTL: c.TTL > 0, TTL: c.TTL, Order: c.Order}
	})
	if err != nil {
		return err
	}
	defer stop()
	k, err := net.DialTimeout("tcp", addr, wait)
	if err != nil {
		return fmt.Errorf("cannot connect: %v", err)
	}
	defer k.Close()
	sent := time.Now()
	if _, err := k.Write(c.Bytes); err != nil {
		return pbt.Soft("cannot write: %v", err)
	}
	quiet := 2500 * time.Millisecond
	if c.TTL > 0 && c.TTL < 100 {
		quiet = time.Duration(c.TTL)*time.Second + wait
	}
	k.SetReadDeadline(sent.Add(quiet))
	_, err = io.Copy(io.Discard, k)
	took := time.Since(sent)
	timeout := false
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		timeout = true
	}
	if c.TTL > 0 && c.TTL < 100 {
		if timeout {
			return pbt.Soft("an idle connection is still open after %s, conn_ttl is %d s", took, c.TTL)
		}
		if took < time.Duration(c.TTL)*time.Second-20*time.Millisecond {
			return fmt.Errorf("the connection is closed after %s, conn_ttl is %d s", took, c.TTL)
		}
	} else if !timeout {
		return fmt.Errorf("the connection is closed after %s, conn_ttl is %d s", took, c.TTL)
	}
	r.NonTrivial()
	r.Class("conn_ttl %d", c.TTL)
	return nil
}

// badStart: the program must refuse to run.
type badStart struct {
	What string
	F    badFile
}

func genBadStart(t *rapid.T) badStart {
	return badStart{rapid.SampledFrom([]string{"none", "empty", "file", "file", "file"}).Draw(t, "what"), genBadFile(t)}
}

func runBadStart(c badStart, r *pbt.Rec) error {
	var args []string
	addr := srv.FreshAddr()
	switch c.What {
	case "empty":
		args = []string{"-c", ""}
	case "file":
		path := os.TempDir()
		switch c.F.What {
		case "directory":
		case "missing":
			path += "/no-such/file.yaml"
		default:
			host, port, _ := net.SplitHostPort(addr)
			text := "host: \"" + host + "\"\nport: \"" + port + "\"\n"
			if c.F.What == "host-map" {
				text = "port: \"" + port + "\"\n"
			}
			text += map[string]string{
				"unclosed": "zzz: \"never closed\n", "tab": "zzz:\n\t- a: b\n", "ttl-text": "conn_ttl: soon\n", "ttl-list": "conn_ttl: [1]\n", "storage-list": "storage: [redis]\n",
				"storage-text": "storage: redis\n", "store-text": "storage:\n  redis: yes please\n", "host-map": "host: {a: b}\n", "bracket": "zzz: [1, 2\n", "nul": "zzz: a\x00b\n",
			}[c.F.What]
			var err error
			if path, err = scratchFile(text); err != nil {
				return pbt.Inconclusivef("%v", err)
			}
			defer os.Remove(path)
		}
		args = []string{"-c", path}
	}
	p, err := start("receiver", args...)
	if err != nil {
		return err
	}
	defer p.kill()
	code, ok := p.wait(wait)
	if !ok {
		return pbt.Soft("the receiver keeps running (%s %s):\n%s", c.What, c.F.What, tail(p.out.String(), 800))
	}
	if code == 0 {
		return fmt.Errorf("exit status 0 (%s %s)", c.What, c.F.What)
	}
	r.NonTrivial()
	if c.What == "file" {
		r.Class("%s", c.F.What)
	} else {
		r.Class("%s", c.What)
	}
	return nil
}

func c23() pbt.Property {
	return pbt.Property{
		ID: "C23",
		Rule: "the receiver program is started with generated configuration files (any subset of the six backends against protocol stand-ins, or none, or one that cannot be set up: the log) and 1..3 concurrent generated sessions are played; replies, every store's records and the log are " +
			"compared with the model; the configured lifetime is timed; starts without a usable configuration; non-trivial: at least one position was sent, or a timed or refused start; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("serve", 1600, 40000, genRecv, runRecv),
			pbt.Make("refuse", 160, 3000, genBadStart, runBadStart),
			pbt.Make("lifetime", 32, 600, genLife, runLife),
		},
	}
}
