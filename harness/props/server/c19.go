package main

import (
	"errors"
	"fmt"
	"net"
	"syscall"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/srv"
)

type stopCase struct {
	// Open: sessions with traffic; Cut: bytes of an unfinished packet each.
	Open [][]model.Item
	Cut  []int
	// End: 0 stays open, 1 client closes, 2 client resets, before the stop.
	End []int
	// Fresh: stop a server that was never started, so many times.
	Fresh int
	Noise []byte
	// Again: stop it once more.
	Again bool `json:",omitempty"`
}

func genStop(t *rapid.T) stopCase {
	id := newIDs(t)
	c := stopCase{Fresh: rapid.IntRange(0, 2).Draw(t, "fresh")}
	for n := rapid.IntRange(0, 5).Draw(t, "open"); n > 0; n-- {
		its := []model.Item{}
		if gen.Bit(t, "traffic") == 1 {
			its = genSession(t, id, sopt{Packets: 2})
		}
		c.Open = append(c.Open, its)
		c.Cut = append(c.Cut, rapid.SampledFrom([]int{0, 0, 1, 10, 14}).Draw(t, "cut"))
		c.End = append(c.End, rapid.IntRange(0, 2).Draw(t, "end"))
	}
	if gen.Chance(t, 3, "noise") {
		c.Noise = gen.BytesUpTo(t, 40, "noisebytes")
	}
	c.Again = gen.Bit(t, "again") == 1
	return c
}

func runC19(c stopCase, r *pbt.Rec) error {
	if _, err := pool.Get(noLimit, 1); err != nil {
		return err
	}
	h := pool.Host()
	for i := 0; i < c.Fresh; i++ {
		e, err := h.StopFresh()
		if err != nil {
			return err
		}
		if e != "" {
			return fmt.Errorf("stopping a server that was never started: %s", e)
		}
	}
	s, err := h.NewServer(noLimit, 1)
	if err != nil {
		return err
	}
	var conns []*srv.Conn
	defer func() {
		for _, k := range conns {
			k.Close()
		}
	}()
	for i, its := range c.Open {
		k, err := s.Dial()
		if err != nil {
			return err
		}
		conns = append(conns, k)
		write(k, stream(its))
		k.WaitReplies(len(modelOf(its, nil).Replies), srv.Limit)
		if c.Cut[i] > 0 {
			write(k, ttlPacket(1)[:c.Cut[i]])
		}
		switch c.End[i] {
		case 1:
			k.Close()
		case 2:
			k.Reset()
		}
	}
	if len(c.Noise) > 0 {
		k, err := s.Dial()
		if err != nil {
			return err
		}
		conns = append(conns, k)
		write(k, c.Noise)
	}
	t := time.Now()
	_, returned, err := s.Stop(10)
	if err != nil {
		return err
	}
	if !returned {
		return pbt.Soft("stopping has not ended after 10 s (%d sessions)", len(c.Open))
	}
	took := time.Since(t)
	if c.Again {
		// stopping once more may fail, but ends
		if _, returned, err := s.StopAgain(10); err != nil {
			return err
		} else if !returned {
			return pbt.Soft("stopping once more has not ended after 10 s")
		}
		r.Class("stopped twice")
	}
	// the listener is closed before Run returns, so this is not a matter of time
	if k, err := net.DialTimeout("tcp", s.Addr, 5*time.Second); err == nil {
		k.Close()
		return fmt.Errorf("the address still accepts connections after the stop")
	} else if !errors.Is(err, syscall.ECONNREFUSED) {
		return pbt.Soft("connecting after the stop: %v", err)
	}
	if took > 8*time.Second {
		return pbt.Soft("stopping took %v", took)
	}
	// and the other servers of the process live on
	if !h.Alive() {
		return h.Died()
	}
	open := 0
	for _, e := range c.End {
		if e == 0 {
			open++
		}
	}
	r.ClassIf(open > 0, "sessions open at the stop")
	r.ClassIf(len(c.Open) == 0, "no sessions")
	r.ClassIf(c.Fresh > 0, "server never started")
	r.NonTrivial()
	return nil
}

// onceCase: servers stopped the moment they accept.
type onceCase struct{ Servers, SpinUs int }

func runOnce(c onceCase, r *pbt.Rec) error {
	if _, err := pool.Get(noLimit, 1); err != nil {
		return err
	}
	h := pool.Host()
	for i := 0; i < c.Servers; i++ {
		s, err := h.NewServer(noLimit, 1)
		if err != nil {
			return err
		}
		time.Sleep(time.Duration(c.SpinUs) * time.Microsecond)
		if _, returned, err := s.Stop(6); err != nil {
			return err
		} else if !returned {
			return pbt.Soft("server %d of %d: the accept loop is still running 6 s after a stop right after the start", i+1, c.Servers)
		}
		if k, err := net.DialTimeout("tcp", s.Addr, 5*time.Second); err == nil {
			k.Close()
			return fmt.Errorf("server %d of %d still accepts connections after a stop right after the start", i+1, c.Servers)
		}
	}
	r.NonTrivial()
	r.Class("stopped right after the start")
	return nil
}

// crowdCase: very many sessions open when the server is stopped.
type crowdStop struct{ Sessions, Busy int }

func runCrowdStop(c crowdStop, r *pbt.Rec) error {
	if _, err := pool.Get(noLimit, 1); err != nil {
		return err
	}
	h := pool.Host()
	s, err := h.NewServer(noLimit, 1)
	if err != nil {
		return err
	}
	var conns []net.Conn
	defer func() {
		for _, k := range conns {
			k.Close()
		}
	}()
	for i := 0; i < c.Sessions; i++ {
		k, err := net.DialTimeout("tcp", s.Addr, 10*time.Second)
		if err != nil {
			// C14 has to say whether so many clients must be served
			r.Class("not all accepted")
			break
		}
		conns = append(conns, k)
		if i < c.Busy {
			k.Write(ttlPacket(i + 1))
		}
	}
	time.Sleep(50 * time.Millisecond)
	_, returned, err := s.Stop(10)
	if err != nil {
		return err
	}
	if !returned {
		return pbt.Soft("stopping has not ended after 10 s (%d sessions)", len(conns))
	}
	if k, err := net.DialTimeout("tcp", s.Addr, 5*time.Second); err == nil {
		k.Close()
		return fmt.Errorf("the address still accepts connections after the stop (%d sessions)", len(conns))
	}
	if !h.Alive() {
		return h.Died()
	}
	r.ClassIf(len(conns) >= 1000, "a thousand sessions and more")
	r.NonTrivial()
	return nil
}

func c19() pbt.Property {
	return pbt.Property{
		ID: "C19",
		Rule: "servers stopped after generated traffic with 0..6 sessions open, unfinished, closed or reset, or with up to 4200 open; the accept loop must return and the address refuse connections; servers never started are stopped too; " +
			"every case is non-trivial (a server is started, used and stopped); distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("stop", 2500, 100000, genStop, guarded(runC19)).With(func(s *pbt.Sub) { s.Shrink = 45 * time.Second }),
			pbt.Make("at-once", 32, 2000, func(t *rapid.T) onceCase {
				return onceCase{rapid.IntRange(50, 300).Draw(t, "servers"), rapid.SampledFrom([]int{0, 0, 1, 10, 100}).Draw(t, "spin")}
			}, guarded(runOnce)),
			pbt.Make("crowd", 16, 400, func(t *rapid.T) crowdStop {
				return crowdStop{rapid.SampledFrom([]int{30, 100, 300, 600, 1100, 1100, 2100, 4200}).Draw(t, "sessions"), rapid.SampledFrom([]int{0, 3, 200}).Draw(t, "busy")}
			}, guarded(runCrowdStop)).With(func(s *pbt.Sub) { s.MaxShards, s.Limit = 4, 2*time.Minute }),
		},
	}
}
