package main

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

type failCase struct {
	Items  []model.Item
	Stores int
	// Fail: (store, index of the position in the session) pairs.
	Fail [][2]int
}

func genFail(t *rapid.T) failCase {
	c := failCase{Items: genSession(t, newIDs(t), sopt{Packets: 4, Responses: true}), Stores: rapid.IntRange(1, 3).Draw(t, "stores")}
	n := len(modelOf(c.Items, nil).Saves)
	if n == 0 {
		return c
	}
	if gen.Chance(t, 6, "all") {
		for s := 0; s < c.Stores; s++ {
			for i := 0; i < n; i++ {
				c.Fail = append(c.Fail, [2]int{s, i})
			}
		}
		return c
	}
	for k := rapid.IntRange(0, 1+n).Draw(t, "nfail"); k > 0; k-- {
		c.Fail = append(c.Fail, [2]int{rapid.IntRange(0, c.Stores-1).Draw(t, "store"), rapid.IntRange(0, n-1).Draw(t, "which")})
	}
	return c
}

func runC17(c failCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, c.Stores)
	if err != nil {
		return err
	}
	dry := modelOf(c.Items, nil)
	var plan [][2]int64
	bad := map[int64]bool{}
	for _, f := range c.Fail {
		nav := dry.Saves[f[1]%len(dry.Saves)].Nav
		plan = append(plan, [2]int64{int64(f[0]), nav})
		bad[nav] = true
	}
	if err := s.Plan(plan, nil); err != nil {
		return err
	}
	m := modelOf(c.Items, func(nav int64) bool { return bad[nav] })
	o, err := play(s, c.Items)
	if err != nil {
		return err
	}
	if o.badReply != "" {
		return o.fail("%s", o.badReply)
	}
	if d := model.DiffReplies(m.Replies, o.replies, true); d != "" {
		return o.fail("with failing saves %v: %s", c.Fail, d)
	}
	for st := range o.perStore {
		if d := sameNavs(wantNavs(m.Saves), navs(o.perStore[st])); d != "" {
			return o.fail("with failing saves %v, store %d: %s", c.Fail, st+1, d)
		}
	}
	if len(bad) > 0 {
		r.NonTrivial()
	}
	r.Class("%d stores", c.Stores)
	r.ClassIf(len(bad) > 0 && len(bad) == len(m.Saves), "every position refused")
	r.ClassIf(len(bad) > 0 && len(bad) < len(m.Saves), "some positions refused")
	for _, f := range c.Fail {
		r.ClassIf(f[0] < c.Stores-1, "a store before the last fails")
		r.ClassIf(f[0] > 0, "a store after the first fails")
	}
	for _, w := range m.Replies {
		ok, no := 0, 0
		for _, x := range w.Confirms {
			if x.Failed {
				no++
			} else {
				ok++
			}
		}
		r.ClassIf(ok > 0 && no > 0, "mixed statuses in one packet")
	}
	return nil
}

// heldCase: one save takes its time; nothing may be confirmed meanwhile.
type heldCase struct {
	Items  []model.Item
	Stores int
	Store  int
	Which  int // position in the session
	Fail   bool
	WaitMs int
}

func genHeld(t *rapid.T) heldCase {
	id := newIDs(t)
	c := heldCase{Items: genSession(t, id, sopt{Packets: 3, Responses: true}), Stores: rapid.IntRange(1, 3).Draw(t, "stores"), Fail: gen.Bit(t, "fail") == 1,
		WaitMs: rapid.SampledFrom([]int{2, 5, 20, 60}).Draw(t, "wait")}
	p := gen.Header(t)
	p.Records = append(p.Records, ref.Record{RN: gen.U16(t, "rn"), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(), VLD: 1}}}})
	c.Items = append(c.Items, model.Item{P: &p})
	c.Store = rapid.IntRange(0, c.Stores-1).Draw(t, "store")
	c.Which = rapid.IntRange(0, len(modelOf(c.Items, nil).Saves)-1).Draw(t, "which")
	return c
}

func genHeldLong(t *rapid.T) heldCase {
	c := genHeld(t)
	c.WaitMs = rapid.SampledFrom([]int{1200, 2600, 5500, 11000}).Draw(t, "long")
	return c
}

func runHeld(c heldCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, c.Stores)
	if err != nil {
		return err
	}
	dry := modelOf(c.Items, nil)
	nav := dry.Saves[c.Which].Nav
	var plan [][2]int64
	if c.Fail {
		plan = [][2]int64{{int64(c.Store), nav}}
	}
	if err := s.Plan(plan, nil); err != nil {
		return err
	}
	if err := s.Hold([][2]int64{{int64(c.Store), nav}}); err != nil {
		return err
	}
	released := false
	defer func() {
		if !released {
			s.Release()
		}
	}()
	// replies to the packets before the one with the held position
	before, done := 0, &model.Session{}
	for _, it := range c.Items {
		done.Feed(it, nil)
		if len(done.Saves) > c.Which {
			break
		}
		before = len(done.Replies)
	}
	k, err := s.Dial()
	if err != nil {
		return err
	}
	defer k.Close()
	if err := write(k, stream(c.Items)); err != nil {
		return fmt.Errorf("the server ends the session: %v", err)
	}
	ok, err := s.WaitHeld(1, srv.Limit)
	if err != nil {
		return err
	}
	if !ok {
		return pbt.Soft("position %d does not reach store %d", c.Which+1, c.Store+1)
	}
	time.Sleep(time.Duration(c.WaitMs) * time.Millisecond)
	raw, _, _, _ := k.State()
	early, bad := model.ParseReplies(raw)
	if bad != "" {
		return fmt.Errorf("%s", bad)
	}
	if len(early) > before {
		return fmt.Errorf("the packet of position %d is confirmed while store %d of %d has not accepted it yet: %s", c.Which+1, c.Store+1, c.Stores, early[before])
	}
	released = true
	if err := s.Release(); err != nil {
		return err
	}
	m := modelOf(c.Items, func(n int64) bool { return c.Fail && n == nav })
	var o outcome
	o.raw, o.late = k.Finish(len(m.Replies))
	if !s.H.Alive() {
		return s.H.Died()
	}
	o.replies, o.badReply = model.ParseReplies(o.raw)
	if err := o.parseSaves(s); err != nil {
		return err
	}
	if o.badReply != "" {
		return o.fail("%s", o.badReply)
	}
	if d := model.DiffReplies(m.Replies, o.replies, true); d != "" {
		return o.fail("after a slow save (refused: %v): %s", c.Fail, d)
	}
	for st := range o.perStore {
		if d := sameNavs(wantNavs(m.Saves), navs(o.perStore[st])); d != "" {
			return o.fail("after a slow save, store %d: %s", st+1, d)
		}
	}
	r.NonTrivial()
	r.ClassIf(c.Fail, "slow and refused")
	r.ClassIf(!c.Fail, "slow and accepted")
	r.ClassIf(before > 0, "replies before")
	return nil
}

func c17() pbt.Property {
	return pbt.Property{
		ID: "C17",
		Rule: "sessions of 1..4 packets against servers with 1..3 recording stores, with a generated plan of which store refuses which position; record statuses and every store's history compared with the model; " +
			"and with a save that one store keeps waiting: nothing of its packet may be confirmed before it returns; " +
			"non-trivial: at least one save is refused; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("failing-stores", 25000, 1200000, genFail, guarded(runC17)),
			pbt.Make("slow-store", 1200, 60000, genHeld, guarded(runHeld)),
			pbt.Make("very-slow-store", 24, 800, genHeldLong, guarded(runHeld)).With(func(s *pbt.Sub) { s.Shrink = 25 * time.Second }),
		},
	}
}
