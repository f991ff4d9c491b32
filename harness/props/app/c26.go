package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/sess"
)

// deathCase kills the receiver program in the middle of its work.
type deathCase struct {
	Stores []backend // none: the log
	Conns  [][]model.Item
	// The moment: when store On (of Stores) has been asked for the N-th time, or
	// (On < 0) when N replies have arrived; Us microseconds later.
	On, N, Us int
	// SlowMs is how long every store takes to accept a record.
	SlowMs int
	Level  string
}

var ackedKinds = []string{"mysql", "postgresql", "redis", "tarantool_queue"}

func genDeath(t *rapid.T) deathCase {
	c := deathCase{Level: "INFO", SlowMs: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "slow")}
	if !gen.Chance(t, 4, "log") {
		for _, k := range ackedKinds {
			if gen.Chance(t, 3, "use"+k) {
				b := genBackend(t, k)
				c.Stores = append(c.Stores, b)
			}
		}
		if len(c.Stores) == 0 {
			c.Stores = []backend{genBackend(t, rapid.SampledFrom(ackedKinds).Draw(t, "kind"))}
		}
		c.Level = rapid.SampledFrom([]string{"DEBUG", "INFO", "WARN", "ERROR"}).Draw(t, "level")
	}
	id := sess.NewIDs(t)
	n, reps := 0, 0
	for k := rapid.IntRange(1, 3).Draw(t, "conns"); k > 0; k-- {
		its := sess.Session(t, id, sess.Opt{Packets: 6, Responses: true})
		c.Conns = append(c.Conns, its)
		m := feed(its)
		n += len(m.Saves)
		reps += len(m.Replies)
	}
	c.On = rapid.IntRange(-1, len(c.Stores)-1).Draw(t, "on")
	if c.On < 0 {
		n = reps
	}
	c.N = rapid.IntRange(0, n).Draw(t, "n")
	c.Us = rapid.SampledFrom([]int{0, 0, 20, 50, 100, 300, 1000, 3000}).Draw(t, "us")
	return c
}

// genLate is killed when the first reply has arrived from stores that are very
// slow.
func genLate(t *rapid.T) deathCase {
	c := deathCase{Level: "ERROR", On: -1, N: 1, SlowMs: rapid.SampledFrom([]int{700, 1500, 2000}).Draw(t, "slow")}
	for _, k := range ackedKinds {
		if gen.Bit(t, "use"+k) == 1 {
			b := genBackend(t, k)
			if k == "tarantool_queue" {
				b.Params["timeout"] = "5"
			}
			c.Stores = append(c.Stores, b)
		}
	}
	if len(c.Stores) == 0 {
		c.Stores = []backend{genBackend(t, rapid.SampledFrom(ackedKinds).Draw(t, "kind"))}
	}
	n := rapid.IntRange(1, 2).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Conns = append(c.Conns, []model.Item{{P: probePacket(i+1, uint32(i+1))}})
	}
	return c
}

func feed(its []model.Item) *model.Session {
	m := &model.Session{}
	for _, it := range its {
		m.Feed(it, nil)
	}
	return m
}

// caller sends a session and collects what comes back, however it ends.
type caller struct {
	mu   sync.Mutex
	got  []byte
	n    int // complete packets
	rest int // where the next one starts
	done bool
}

func (k *caller) run(addr string, b []byte) {
	defer func() {
		k.mu.Lock()
		k.done = true
		k.mu.Unlock()
	}()
	c, err := net.DialTimeout("tcp", addr, wait)
	if err != nil {
		return
	}
	defer c.Close()
	go func() {
		c.Write(b)
		c.(*net.TCPConn).CloseWrite()
	}()
	c.SetReadDeadline(time.Now().Add(wait))
	buf := make([]byte, 65536)
	for {
		n, err := c.Read(buf)
		k.mu.Lock()
		k.got = append(k.got, buf[:n]...)
		for {
			_, l, why := ref.ParseFrame(k.got[k.rest:])
			if why != "" {
				break
			}
			k.rest += l
			k.n++
		}
		k.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (k *caller) state() (n int, done bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.n, k.done
}

func runDeath(c deathCase, r *pbt.Rec) error {
	states := map[string]*fakes.State{}
	for _, b := range c.Stores {
		s, err := fake(b.Kind)
		if err != nil {
			return err
		}
		w := b.Want
		w.DelayMs = c.SlowMs
		states[b.Kind] = s.Begin(w)
		defer states[b.Kind].End()
	}
	var cfg settings
	p, stop, _, addr, err := launchFree(false, func(host, port string) settings {
		cfg = recvCase{Stores: c.Stores, Level: c.Level, HasLevel: true, Order: []int{0, 1, 2, 3, 4}}.file(host, port, states)
		return cfg
	})
	if err != nil {
		return err
	}
	defer func() { stop() }()
	attempts := func() int {
		if len(c.Stores) == 0 {
			return strings.Count(p.out.String(), "Export packet")
		}
		return states[c.Stores[c.On].Kind].Snap().Attempts
	}
	ks := make([]*caller, len(c.Conns))
	var wg sync.WaitGroup
	for i, its := range c.Conns {
		var b []byte
		for _, it := range its {
			b = append(b, it.Bytes()...)
		}
		ks[i] = &caller{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ks[i].run(addr, b)
		}()
	}
	for end := time.Now().Add(wait); time.Now().Before(end); time.Sleep(20 * time.Microsecond) {
		all, n := true, 0
		for _, k := range ks {
			m, d := k.state()
			n += m
			all = all && d
		}
		if all || c.On < 0 && n >= c.N || c.On >= 0 && attempts() >= c.N {
			break
		}
	}
	if c.Us > 0 {
		time.Sleep(time.Duration(c.Us) * time.Microsecond)
	}
	if !p.alive() {
		return fmt.Errorf("the receiver died:\n%s", tail(p.out.String(), 3000))
	}
	// what the clients have been told and what the stores hold by now
	told := make([]int, len(ks))
	for i, k := range ks {
		told[i], _ = k.state()
	}
	then := map[string]map[int64]bool{}
	for _, b := range c.Stores {
		then[b.Kind] = map[int64]bool{}
		for _, d := range states[b.Kind].Snap().Got {
			if v, err := model.Parse(string(d.Payload)); err == nil {
				then[b.Kind][v.Nav] = true
			}
		}
	}
	p.kill()
	wg.Wait()

	// what each store holds now
	hold := func() (map[string][]string, error) {
		all := map[string][]string{}
		if len(c.Stores) == 0 {
			all["log"] = logRecords(p.out.String())
		}
		for _, b := range c.Stores {
			st := states[b.Kind]
			st.Wait(wait, func(s fakes.Snapshot) bool { return s.Conns == 0 })
			s := st.Snap()
			if len(s.Problems) > 0 {
				return nil, fmt.Errorf("%s: %s", b.Kind, s.Problems[0])
			}
			var recs []string
			for _, d := range s.Got {
				if x := b.same(d, d.Payload); x != "" {
					return nil, fmt.Errorf("%s: %s", b.Kind, x)
				}
				recs = append(recs, string(d.Payload))
			}
			all[b.Kind] = recs
		}
		return all, nil
	}
	all, err := hold()
	if err != nil {
		return err
	}
	confirmed, open, unsent := 0, 0, 0
	first := make([]int, len(c.Conns)) // the first item that was not answered
	sent := map[int64]model.Expect{}
	for i, its := range c.Conns {
		reps, bad := model.ParseReplies(ks[i].got[:ks[i].rest])
		if bad != "" {
			return fmt.Errorf("connection %d: %s", i+1, bad)
		}
		m := &model.Session{}
		sure := 0 // positions confirmed
		for j, it := range its {
			before, k := len(m.Replies), len(m.Saves)
			m.Feed(it, nil)
			if len(m.Replies) > before && len(reps) > before {
				sure = len(m.Saves)
				first[i] = j + 1
				if before < told[i] {
					for _, e := range m.Saves[k:] {
						for name, held := range then {
							if !held[e.Nav] {
								return fmt.Errorf("%s: connection %d: the position of time %d is confirmed before it is stored", name, i+1, e.Nav)
							}
						}
					}
				}
			} else if len(m.Saves) > k {
				open++
			}
		}
		if len(reps) > len(m.Replies) {
			return fmt.Errorf("connection %d: %d replies instead of %d", i+1, len(reps), len(m.Replies))
		}
		if d := model.DiffReplies(m.Replies[:len(reps)], reps, true); d != "" {
			return fmt.Errorf("connection %d: %s", i+1, d)
		}
		confirmed += sure
		unsent += len(m.Saves) - sure
		for _, e := range m.Saves {
			sent[e.Nav] = e
		}
		for name, recs := range all {
			var navs []int64
			for _, x := range recs {
				v, err := model.Parse(x)
				if err != nil {
					return fmt.Errorf("%s: not a record: %v: %.200q", name, err, x)
				}
				for _, e := range m.Saves {
					if e.Nav == v.Nav {
						navs = append(navs, v.Nav)
						if d := e.Diff(v, func(string) {}); d != "" {
							return fmt.Errorf("%s: %s", name, d)
						}
					}
				}
			}
			for k := range navs {
				if k >= len(m.Saves) || navs[k] != m.Saves[k].Nav {
					return fmt.Errorf("%s: connection %d: stored %v, sent %v", name, i+1, navs, expNavs(m.Saves))
				}
			}
			if len(navs) < sure {
				return fmt.Errorf("%s: connection %d was told that %d positions are stored, but the killed receiver has stored only %d", name, i+1, sure, len(navs))
			}
		}
	}
	for name, recs := range all {
		for _, x := range recs {
			if v, err := model.Parse(x); err != nil {
				return fmt.Errorf("%s: not a record: %v: %.200q", name, err, x)
			} else if _, ok := sent[v.Nav]; !ok {
				return fmt.Errorf("%s: a record that was not sent: %.300q", name, x)
			}
		}
	}

	// start it again; the clients repeat what was not confirmed
	stop()
	p2, stop2, err := launch(cfg, addr)
	stop = stop2
	if err != nil {
		stop = func() {}
		var inc pbt.Inconclusive
		if errors.As(err, &inc) && strings.Contains(err.Error(), "in use") {
			return pbt.Soft("the receiver cannot be started again: %v", err)
		}
		return fmt.Errorf("started again: %w", err)
	}
	want := map[int64]bool{}
	for i, its := range c.Conns {
		rest := its[first[i]:]
		m := feed(rest)
		var b []byte
		for _, it := range rest {
			b = append(b, it.Bytes()...)
		}
		got, err := converse(addr, b, len(m.Replies))
		if err != nil {
			return err
		}
		reps, bad := model.ParseReplies(got)
		if bad != "" {
			return fmt.Errorf("started again, connection %d: %s", i+1, bad)
		}
		if d := model.DiffReplies(m.Replies, reps, true); d != "" {
			return fmt.Errorf("started again, connection %d: %s", i+1, d)
		}
		for _, e := range m.Saves {
			want[e.Nav] = true
		}
	}
	stop()
	stop = func() {}
	old := all
	p = p2
	if all, err = hold(); err != nil {
		return err
	}
	for name, recs := range all {
		if name == "log" {
			recs = append(append([]string{}, old[name]...), recs...)
		}
		count := map[int64]int{}
		for _, x := range recs {
			v, err := model.Parse(x)
			if err != nil {
				return fmt.Errorf("%s: not a record: %v: %.200q", name, err, x)
			}
			count[v.Nav]++
		}
		for nav := range sent {
			if count[nav] == 0 || count[nav] > 2 || count[nav] > 1 && !want[nav] {
				return fmt.Errorf("%s: after starting again, the position of time %d is stored %d times", name, nav, count[nav])
			}
		}
	}
	if confirmed > 0 && open > 0 {
		r.NonTrivial()
	}
	r.ClassIf(confirmed > 0 && open > 0, "killed in the middle of the positions")
	r.ClassIf(confirmed == 0 && unsent > 0, "killed before the first confirmation")
	r.ClassIf(unsent == 0, "killed after the last confirmation")
	r.ClassIf(len(c.Stores) == 0, "log")
	for _, b := range c.Stores {
		r.Class("%s", b.Kind)
	}
	r.ClassIf(c.SlowMs > 0, "slow stores")
	return nil
}

func expNavs(e []model.Expect) (n []int64) {
	for _, x := range e {
		n = append(n, x.Nav)
	}
	return
}

func c26() pbt.Property {
	return pbt.Property{
		ID: "C26",
		Rule: "the receiver program, with the log or any subset of the backends that confirm messages, is killed (SIGKILL) at a generated moment of 1..3 concurrent generated sessions (n-th store attempt or n-th reply, plus 0..3000 microseconds, stores slow by 0..3 ms), or at the first reply that comes from stores slow by up to 2 s; " +
			"every store is compared with what had been confirmed, and the program started again on the same address must take the rest; non-trivial: some positions were confirmed and others not; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("killed", 6000, 300000, genDeath, runDeath),
			pbt.Make("late", 12, 300, genLate, runDeath),
		},
	}
}
