package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

type concCase struct {
	Sessions [][]model.Item
	// Split: offset (modulo its length) at which packet i%len is cut in two; 0
	// sends it whole.
	Split []int
	// Order: which session sends its next piece (lock-step mode). Empty: all
	// sessions run freely at the same time.
	Order []int
	// Sync: wait for the reply after a complete packet (lock-step mode).
	Sync bool
	// DelayMs[i%len]: how long the store takes for a position.
	DelayMs []int
}

func genConc(lock bool) func(*rapid.T) concCase {
	return func(t *rapid.T) concCase {
		id := newIDs(t)
		var c concCase
		n := rapid.IntRange(2, 6).Draw(t, "sessions")
		if !lock {
			n = rapid.IntRange(2, 24).Draw(t, "sessionsFree")
		}
		pieces := 0
		for i := 0; i < n; i++ {
			its := genSession(t, id, sopt{Packets: 3, Records: 3, Responses: true})
			// identities are what leaks most easily: make them frequent
			if gen.Bit(t, "login") == 1 {
				tid := gen.U32(t, "tid")
				login := &ref.Packet{PRV: 1, PID: gen.U16(t, "pid"), PT: 1, Records: []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{T: ref.TTerm, Term: &ref.Term{TID: tid}}}}}}
				its = append(items(login), its...)
			}
			c.Sessions = append(c.Sessions, its)
			pieces += 2 * len(its)
		}
		c.Split = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 9, 10, 11, 12, 13, 20, 37, 61}), 1, 5).Draw(t, "split")
		c.DelayMs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 3}), 1, 5).Draw(t, "delay")
		if lock {
			c.Order = rapid.SliceOfN(rapid.IntRange(0, n-1), pieces, pieces+3).Draw(t, "order")
			c.Sync = gen.Bit(t, "sync") == 1
		}
		return c
	}
}

// piece is a part of a session's byte stream; done counts the replies due
// after it.
type piece struct {
	b    []byte
	done int
}

func (c concCase) pieces(its []model.Item) (out []piece) {
	var m model.Session
	for i, it := range its {
		b := it.Bytes()
		before := len(m.Replies)
		m.Feed(it, nil)
		if at := c.Split[i%len(c.Split)] % len(b); at > 0 {
			out = append(out, piece{b[:at], before}, piece{b[at:], len(m.Replies)})
		} else {
			out = append(out, piece{b, len(m.Replies)})
		}
	}
	return
}

func runC15(c concCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 2)
	if err != nil {
		return err
	}
	races := strings.Count(s.H.Stderr(), "DATA RACE")
	if err := s.Plan(nil, nil); err != nil {
		return err
	}
	var alone []outcome
	owner := map[int64]int{}
	plan := map[int64]int64{}
	for i, its := range c.Sessions {
		o, err := play(s, its)
		if err != nil {
			return err
		}
		if o.badReply != "" {
			return fmt.Errorf("session %d alone: %s", i+1, o.badReply)
		}
		alone = append(alone, o)
		for j, e := range modelOf(its, nil).Saves {
			owner[e.Nav] = i
			if d := c.DelayMs[(i+j)%len(c.DelayMs)]; d > 0 {
				plan[e.Nav] = int64(d)
			}
		}
	}
	if err := s.Plan(nil, plan); err != nil {
		return err
	}

	conns := make([]*srv.Conn, len(c.Sessions))
	ps := make([][]piece, len(c.Sessions))
	for i := range conns {
		if conns[i], err = s.Dial(); err != nil {
			return err
		}
		defer conns[i].Close()
		ps[i] = c.pieces(c.Sessions[i])
	}
	send := func(i int, wait bool) error {
		if len(ps[i]) == 0 {
			return nil
		}
		p := ps[i][0]
		ps[i] = ps[i][1:]
		if err := write(conns[i], p.b); err != nil {
			if !s.H.Alive() {
				return s.H.Died()
			}
			return fmt.Errorf("session %d was ended by the server: %v", i+1, err)
		}
		if wait && !conns[i].WaitReplies(p.done, srv.Limit) {
			return pbt.Soft("session %d: fewer than %d replies", i+1, p.done)
		}
		return nil
	}
	raws := make([][]byte, len(conns))
	errs := make([]error, len(conns))
	lates := make([]bool, len(conns))
	if len(c.Order) > 0 {
		for _, i := range c.Order {
			if err := send(i%len(conns), c.Sync); err != nil {
				return err
			}
		}
		for i := range conns {
			for len(ps[i]) > 0 {
				if err := send(i, c.Sync); err != nil {
					return err
				}
			}
		}
		for i := range conns {
			raws[i], lates[i] = conns[i].Finish(len(alone[i].replies))
		}
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range conns {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for len(ps[i]) > 0 {
					if errs[i] = send(i, false); errs[i] != nil {
						return
					}
				}
				raws[i], lates[i] = conns[i].Finish(len(alone[i].replies))
			}(i)
		}
		time.Sleep(time.Millisecond)
		close(start)
		wg.Wait()
	}
	if !s.H.Alive() {
		return s.H.Died()
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	var all outcome
	if err := all.parseSaves(s); err != nil {
		return err
	}
	for _, l := range lates {
		all.late = all.late || l
	}
	for st := range all.perStore {
		per := make([][]model.Saved, len(conns))
		for _, x := range all.perStore[st] {
			i, ok := owner[x.Nav]
			if !ok {
				return all.fail("store %d received a record that no session sent: %+v", st+1, x)
			}
			per[i] = append(per[i], x)
		}
		for i := range conns {
			if a, b := stripped(alone[i].perStore[st]), stripped(per[i]); a != b {
				return all.fail("store %d: the records of session %d differ when %d sessions run at the same time:\n%s\ninstead of\n%s", st+1, i+1, len(conns), clipText(b), clipText(a))
			}
		}
	}
	for i := range conns {
		got, bad := model.ParseReplies(raws[i])
		if bad != "" {
			return all.fail("session %d: %s", i+1, bad)
		}
		if d := model.DiffReplies(alone[i].replies, got, true); d != "" {
			return all.fail("session %d is answered differently when %d sessions run at the same time: %s", i+1, len(conns), d)
		}
	}
	if e := s.H.Stderr(); strings.Count(e, "DATA RACE") > races {
		return fmt.Errorf("data race while serving %d sessions:\n%s", len(conns), clipText(e[strings.Index(e, "WARNING: DATA RACE"):]))
	}
	r.ClassIf(c.Sync, "lock-step with replies")
	r.ClassIf(len(c.Order) > 0 && !c.Sync, "lock-step")
	r.ClassIf(len(c.Order) == 0, "free-running")
	r.ClassIf(len(plan) > 0, "slow stores")
	r.ClassIf(len(conns) > 8, "more than 8 sessions")
	if len(owner) > 1 {
		r.NonTrivial()
	}
	return nil
}

// genMany: far more sessions than the other cases have, each one short.
func genMany(t *rapid.T) concCase {
	id := newIDs(t)
	var c concCase
	tid := gen.U32(t, "tid")
	n := rapid.SampledFrom([]int{33, 65, 90, 129, 200, 257, 400}).Draw(t, "sessions")
	common := genSession(t, id, sopt{Packets: 1, Records: 2})
	for i := 0; i < n; i++ {
		login := &ref.Packet{PRV: 1, PID: uint16(i), PT: 1, Records: []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{T: ref.TTerm, Term: &ref.Term{TID: tid + uint32(i)}}}}}}
		data := &ref.Packet{PRV: 1, PID: uint16(i), PT: 1}
		for k := 0; k <= i%3; k++ {
			data.Records = append(data.Records, ref.Record{RN: uint16(k), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(), LAT: tid, LONG: uint32(i), VLD: 1}}}})
		}
		its := items(login, data)
		if i == n/2 {
			its = append(its, common...)
		}
		c.Sessions = append(c.Sessions, its)
	}
	c.Split = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 5, 11, 20}), 1, 3).Draw(t, "split")
	c.DelayMs = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 5}), 1, 3).Draw(t, "delay")
	return c
}

// stallCase: while a store keeps one session waiting, the others go on.
type stallCase struct {
	Stalled []model.Item
	Which   int
	Store   int
	Others  [][]model.Item
}

func genStall(t *rapid.T) stallCase {
	id := newIDs(t)
	c := stallCase{Stalled: genSession(t, id, sopt{Packets: 2}), Store: rapid.IntRange(0, 1).Draw(t, "store")}
	p := gen.Header(t)
	p.Records = append(p.Records, ref.Record{RN: gen.U16(t, "rn"), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(), VLD: 1}}}})
	c.Stalled = append(c.Stalled, model.Item{P: &p})
	c.Which = rapid.IntRange(0, len(modelOf(c.Stalled, nil).Saves)-1).Draw(t, "which")
	for n := rapid.IntRange(1, 4).Draw(t, "others"); n > 0; n-- {
		c.Others = append(c.Others, genSession(t, id, sopt{Packets: 3}))
	}
	return c
}

func runStall(c stallCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 2)
	if err != nil {
		return err
	}
	if err := s.Plan(nil, nil); err != nil {
		return err
	}
	m := modelOf(c.Stalled, nil)
	if err := s.Hold([][2]int64{{int64(c.Store), m.Saves[c.Which].Nav}}); err != nil {
		return err
	}
	released := false
	defer func() {
		if !released {
			s.Release()
		}
	}()
	k, err := s.Dial()
	if err != nil {
		return err
	}
	defer k.Close()
	if err := write(k, stream(c.Stalled)); err != nil {
		return fmt.Errorf("the server ends the session: %v", err)
	}
	ok, err := s.WaitHeld(1, srv.Limit)
	if err != nil {
		return err
	}
	if !ok {
		return pbt.Soft("a position does not reach store %d", c.Store+1)
	}
	var stored outcome
	stored.perStore = make([][]model.Saved, 2)
	for i, its := range c.Others {
		w := modelOf(its, nil)
		o, err := play(s, its)
		if err != nil {
			return err
		}
		if o.badReply != "" {
			return o.fail("session %d: %s", i+1, o.badReply)
		}
		if d := model.DiffReplies(w.Replies, o.replies, true); d != "" {
			return o.fail("session %d, while a store keeps another session waiting: %s", i+1, d)
		}
		mine := map[int64]bool{}
		for _, e := range w.Saves {
			mine[e.Nav] = true
		}
		for st := range o.perStore {
			if d := sameNavs(wantNavs(w.Saves), navs(only(o.perStore[st], mine))); d != "" {
				return o.fail("session %d, while a store keeps another session waiting, store %d: %s", i+1, st+1, d)
			}
			stored.perStore[st] = append(stored.perStore[st], o.perStore[st]...)
		}
		if len(w.Saves) > 0 {
			r.NonTrivial()
		}
	}
	released = true
	if err := s.Release(); err != nil {
		return err
	}
	var o outcome
	o.raw, o.late = k.Finish(len(m.Replies))
	if !s.H.Alive() {
		return s.H.Died()
	}
	o.replies, o.badReply = model.ParseReplies(o.raw)
	if err := o.parseSaves(s); err != nil {
		return err
	}
	if d := model.DiffReplies(m.Replies, o.replies, true); d != "" || o.badReply != "" {
		return o.fail("the session that had to wait: %s %s", o.badReply, d)
	}
	mine := map[int64]bool{}
	for _, e := range m.Saves {
		mine[e.Nav] = true
	}
	for st := range o.perStore {
		if d := sameNavs(wantNavs(m.Saves), navs(only(append(stored.perStore[st], o.perStore[st]...), mine))); d != "" {
			return o.fail("the session that had to wait, store %d: %s", st+1, d)
		}
	}
	return nil
}

func c15() pbt.Property {
	return pbt.Property{
		ID: "C15",
		Rule: "2..24 (some cases 33..400) sessions with logins, object identifiers and positions, played alone and then at the same time, either in a generated lock-step interleaving of (partial) packets or freely with slow stores, against a server built with the race detector; " +
			"replies and stored records of each session compared with its solo run; sessions played while a store keeps another session waiting; non-trivial: at least two positions are stored; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("interleaved", 2500, 150000, genConc(true), guarded(runC15)),
			pbt.Make("free", 1200, 80000, genConc(false), guarded(runC15)),
			pbt.Make("stalled", 800, 40000, genStall, guarded(runStall)),
			pbt.Make("many", 40, 1500, genMany, guarded(runC15)),
		},
	}
}
