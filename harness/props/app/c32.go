package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

// lastCase: a connector that has very many messages to save.
type lastCase struct {
	B backend
	// Msgs are saved in turn.
	Msgs []message
	// Plan of the backend, repeated.
	Plan    []int
	Workers int
	N       int // saves per step
}

func genLast(kind string) func(t *rapid.T) lastCase {
	return func(t *rapid.T) lastCase {
		c := lastCase{B: genBackend(t, kind), Workers: rapid.IntRange(1, 3).Draw(t, "workers"), N: rapid.IntRange(60, 120).Draw(t, "saves")}
		for n := rapid.IntRange(1, 5).Draw(t, "msgs"); n > 0; n-- {
			m := genMessage(t, true)
			if len(m.Data)*max1(m.Rep) > 2000 {
				m.Rep = max1(2000 / max1(len(m.Data)))
			}
			c.Msgs = append(c.Msgs, m)
		}
		if acked(kind) && gen.Bit(t, "faults") == 1 {
			for n := rapid.IntRange(1, 4).Draw(t, "plan"); n > 0; n-- {
				c.Plan = append(c.Plan, rapid.SampledFrom([]int{fakes.Accept, fakes.Refuse}).Draw(t, "how"))
			}
			if kind != "tarantool_queue" && gen.Chance(t, 4, "drop") {
				c.Plan = append(c.Plan, fakes.Accept, fakes.Accept, fakes.Drop, fakes.Accept)
			}
		}
		return c
	}
}

// use is what is in use at one moment.
type use struct{ conns, things, routines, heap int64 }

func (u use) minus(v use) use {
	return use{u.conns - v.conns, u.things - v.things, u.routines - v.routines, u.heap - v.heap}
}

func (u use) String() string {
	return fmt.Sprintf("%d connections, %d channels or prepared statements, %d goroutines, %d bytes", u.conns, u.things, u.routines, u.heap)
}

// over tells what has grown by more than saves could explain that leave
// nothing behind.
func (u use) over(saves int64) (bad use) {
	if u.conns > saves/20 {
		bad.conns = 1
	}
	if u.things > saves/20 {
		bad.things = 1
	}
	if u.routines > saves/20 {
		bad.routines = 1
	}
	if u.heap > saves*64+40000 {
		bad.heap = 1
	}
	return
}

func (u use) and(v use) use {
	return use{u.conns & v.conns, u.things & v.things, u.routines & v.routines, u.heap & v.heap}
}

func runLast(c lastCase, r *pbt.Rec) error {
	srv, err := fake(c.B.Kind)
	if err != nil {
		return err
	}
	w := c.B.Want
	w.Plan, w.Cycle, w.Forget = c.Plan, true, true
	st := srv.Begin(w)
	defer st.End()
	db := newStore(c.B.Kind)
	if err := db.Init(c.B.params(st)); err != nil {
		return fmt.Errorf("Init with a reachable %s server fails: %v %q", c.B.Kind, err, st.Snap().Problems)
	}
	defer db.Close()
	saved, failed := 0, 0
	var mu sync.Mutex
	late := time.Now().Add(20 * time.Second)
	step := func() {
		var wg sync.WaitGroup
		for k := 0; k < c.Workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := k; i < c.N && time.Now().Before(late); i += c.Workers {
					err := db.Save(c.Msgs[i%len(c.Msgs)].value())
					mu.Lock()
					if err == nil {
						saved++
					} else {
						failed++
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	measure := func(deep bool) (u use) {
		s := st.Snap()
		u.conns, u.things, u.routines = int64(s.Conns), int64(s.Things), int64(runtime.NumGoroutine())
		for n := 0; n < 2; n++ {
			runtime.GC()
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		u.heap = int64(m.HeapAlloc)
		return
	}
	steps := func(k int) use {
		for ; k > 0; k-- {
			step()
		}
		return measure(true)
	}
	stalled := func() error {
		// a connector that has used up what it has stalls
		n := int64(saved + failed)
		if u := measure(true); u.conns+u.things > int64(2*c.Workers)+2+n/20 {
			return pbt.Soft("%s: after %d saves %s are in use, and saves stall", c.B.Kind, n, u)
		}
		r.Class("too slow")
		return nil
	}
	last := steps(2)
	first := last
	bad := use{1, 1, 1, 1}
	for _, k := range []int{3, 7, 7} {
		if time.Now().After(late) {
			return stalled()
		}
		u := steps(k)
		bad = bad.and(u.minus(last).over(int64(k * c.N)))
		last = u
		if time.Now().After(late) {
			return stalled()
		}
		if bad == (use{}) {
			break
		}
	}
	if bad != (use{}) {
		// what is on its way out may take a moment
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
			if u := measure(true).minus(first); u.over(int64(17*c.N)).and(bad) == (use{}) {
				bad = use{}
				break
			}
		}
	}
	if bad != (use{}) {
		return pbt.Soft("%s: what is in use grows with the number of saves; %s more after %d saves", c.B.Kind, measure(true).minus(first), 17*c.N)
	}
	if saved > 0 {
		r.NonTrivial()
	}
	r.ClassIf(failed > 0 && saved > 0, "failed and successful saves")
	r.ClassIf(failed == 0, "all saves successful")
	r.ClassIf(c.Workers > 1, "concurrent saves")
	for _, a := range c.Plan {
		r.ClassIf(a == fakes.Drop, "lost connections")
		r.ClassIf(a == fakes.Refuse, "refused saves")
	}
	return nil
}

// reopenCase: a store that is opened and closed over and over.
type reopenCase struct {
	B    backend
	Msgs []message
	Plan []int
}

func genReopen(t *rapid.T) reopenCase {
	d := genDeliver(rapid.SampledFrom(fakes.Kinds).Draw(t, "kind"), false)(t)
	for i := range d.Msgs {
		if d.Msgs[i].Rep > 100 {
			d.Msgs[i].Rep = 100
		}
	}
	c := reopenCase{B: d.B, Msgs: d.Msgs, Plan: d.Plan}
	if c.B.Kind == "rabbitmq" {
		c.Plan = nil // closing a channel that the server has closed reports that
	}
	return c
}

func runReopen(c reopenCase, r *pbt.Rec) error {
	srv, err := fake(c.B.Kind)
	if err != nil {
		return err
	}
	w := c.B.Want
	w.Plan, w.Cycle, w.Forget = c.Plan, true, true
	st := srv.Begin(w)
	defer st.End()
	cycle := func() error {
		db := newStore(c.B.Kind)
		if err := db.Init(c.B.params(st)); err != nil {
			return fmt.Errorf("Init with a reachable %s server fails: %v %q", c.B.Kind, err, st.Snap().Problems)
		}
		for _, m := range c.Msgs {
			db.Save(m.value())
		}
		if err := db.Close(); err != nil {
			return fmt.Errorf("Close fails: %v", err)
		}
		return nil
	}
	g0 := runtime.NumGoroutine()
	var gs []int
	for n := 0; n < 5; n++ {
		if err := cycle(); err != nil {
			return err
		}
		limit := time.Second
		if n == 4 {
			limit = 10 * time.Second
		}
		g, conns := 0, 0
		for end := time.Now().Add(limit); ; time.Sleep(time.Millisecond) {
			g, conns = runtime.NumGoroutine(), st.Snap().Conns
			if conns == 0 && (g <= g0 || n > 0 && g <= gs[n-1]) {
				r.NonTrivial()
				r.Class("%s", c.B.Kind)
				return nil
			}
			if time.Now().After(end) {
				break
			}
		}
		gs = append(gs, g)
	}
	return pbt.Soft("%s: a store leaves something behind when closed: goroutines %d, then %v; %d connections", c.B.Kind, g0, gs, st.Snap().Conns)
}

func c32() pbt.Property {
	p := pbt.Property{
		ID: "C32",
		Rule: "generated configurations (as for C21); hundreds of saves from 1..3 goroutines, of generated messages (up to 2 KB, some unserialisable or missing) against a stand-in that accepts, refuses and drops connections by a repeated plan; " +
			"its open connections, channels and prepared statements, and the process's goroutines and memory in use, compared over windows of 3, 7 and 7 steps of 60..120 saves (a violation: growth of more than one per 20 saves, or 64 bytes per save, in every window); " +
			"reopen: stores opened, used and closed up to five times, with goroutines and connections back at the level before; non-trivial: at least one message was saved; distinct by the case's JSON",
	}
	for _, k := range fakes.Kinds {
		p.Subs = append(p.Subs, pbt.Make(k, 240, 8000, genLast(k), runLast).With(func(s *pbt.Sub) { s.Shrink = 10 * time.Second }))
	}
	p.Subs = append(p.Subs, pbt.Make("reopen", 800, 30000, genReopen, runReopen).With(func(s *pbt.Sub) { s.Shrink = 10 * time.Second }))
	return p
}
