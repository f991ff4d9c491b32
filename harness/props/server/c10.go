package main

import (
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/model"
	"verif/pbt"
	"verif/ref"
)

type sessCase struct{ Items []model.Item }

func genSess(o sopt) func(*rapid.T) sessCase {
	return func(t *rapid.T) sessCase { return sessCase{genSession(t, newIDs(t), o)} }
}

func runC10(c sessCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	o, err := play(s, c.Items)
	if err != nil {
		return err
	}
	m := modelOf(c.Items, nil)
	if d := sameNavs(wantNavs(m.Saves), navs(o.saves)); d != "" {
		return o.fail("%s", d)
	}
	for i, e := range m.Saves {
		g := o.saves[i]
		if d := e.Diff(g, r.Known); d != "" {
			return o.fail("stored record %d of %d: %s (%+v)", i+1, len(m.Saves), d, g)
		}
		if g.Received < o.from.Unix()-1 || g.Received > o.til.Unix()+1 {
			return o.fail("stored record %d: receive time %d is not between %d and %d", i+1, g.Received, o.from.Unix(), o.til.Unix())
		}
	}
	classes(r, c.Items)
	if len(m.Saves) > 0 {
		r.NonTrivial()
	}
	return nil
}

// enumC10 covers each exported field on its own, with boundary values.
func enumC10(tier string, yield func(sessCase) bool) {
	n := uint32(1000)
	pos := func(f func(*ref.Pos)) ref.Sub {
		n++
		p := &ref.Pos{NTM: n, LAT: 0x40000000, LONG: 0x20000000, VLD: 1, SPD: 600, DIR: 90}
		if f != nil {
			f(p)
		}
		return ref.Sub{T: ref.TPos, Pos: p}
	}
	oid := uint32(133552)
	pkt := func(subs ...ref.Sub) model.Item {
		return model.Item{P: &ref.Packet{PRV: 1, PID: uint16(n), PT: 1, Records: []ref.Record{{RN: uint16(n), OID: &oid, SST: 2, RST: 2, Subs: subs}}}}
	}
	var all []model.Item
	for _, f := range []func(*ref.Pos){
		func(p *ref.Pos) { p.DIRH, p.DIR = 1, 14 }, // heading 270
		func(p *ref.Pos) { p.DIRH, p.DIR = 1, 0 },
		func(p *ref.Pos) { p.DIR = 255 },
		func(p *ref.Pos) { p.DIR = 128 },
		func(p *ref.Pos) { p.LAHS = 1 },
		func(p *ref.Pos) { p.LOHS = 1 },
		func(p *ref.Pos) { p.LAHS, p.LOHS = 1, 1 },
		func(p *ref.Pos) { p.LAT, p.LONG = 0xFFFFFFFF, 0xFFFFFFFF },
		func(p *ref.Pos) { p.LAT, p.LONG = 0, 0 },
		func(p *ref.Pos) { p.SPD = 0x3FFF },
		func(p *ref.Pos) { p.SPD = 9 },
		func(p *ref.Pos) { p.NTM = 0 },
		func(p *ref.Pos) { p.NTM = 0xFFFFFFFF },
		func(p *ref.Pos) { p.ALTE, p.ALT, p.ALTS = 1, 0xFFFFFF, 1 },
		func(p *ref.Pos) { p.VLD, p.FIX, p.CS, p.BB, p.MV = 0, 1, 1, 1, 1 },
	} {
		all = append(all, pkt(pos(f)))
	}
	v16, v8 := uint16(0xABCD), byte(0xEE)
	for m := 0; m < 32; m++ {
		e := &ref.Ext{}
		if m&1 != 0 {
			e.VDOP = &v16
		}
		if m&2 != 0 {
			e.HDOP = &v16
		}
		if m&4 != 0 {
			e.PDOP = &v16
		}
		if m&8 != 0 {
			e.SAT = &v8
		}
		if m&16 != 0 {
			e.NS = &v16
		}
		all = append(all, pkt(pos(nil), ref.Sub{T: ref.TExt, Ext: e}))
	}
	for m := 0; m < 256; m++ {
		a := &ref.AD{DOUT: byte(m)}
		for i := 0; i < 8; i++ {
			if m>>uint(i)&1 == 1 {
				v := uint32(0x10101*(i+1)) + uint32(m)
				a.ANS[i] = &v
			}
			if m>>uint(7-i)&1 == 1 {
				v := byte(m)
				a.ADIO[i] = &v
			}
		}
		all = append(all, pkt(pos(nil), ref.Sub{T: ref.TAD, AD: a}))
	}
	for vu := 0; vu < 4; vu++ {
		for _, v := range []uint32{0, 1, 10, 100000, 0xFFFFFFFF} {
			for num := byte(0); num < 8; num++ {
				all = append(all, pkt(pos(nil), ref.Sub{T: ref.TLLS, LLS: &ref.LLS{EF: num & 1, VU: byte(vu), N: num, MADDR: 3, LLSD: v}}))
			}
		}
	}
	for _, low := range []uint32{0, 1, 0xFF, 0x10000, 0xFFFFFF} {
		for _, high := range []uint32{0, 1, 0x80, 0xFF} {
			l := ref.Sub{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 110, V: low}}
			h := ref.Sub{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 111, V: high}}
			all = append(all, pkt(pos(nil), l, h), pkt(pos(nil), h, l), pkt(l, pos(nil), h), pkt(h, l, pos(nil)), pkt(pos(nil), l))
		}
	}
	for i := range all {
		if !yield(sessCase{all[i : i+1]}) {
			return
		}
	}
}

// recvCase: sessions that last long enough to tell the time of receipt from
// the time of connecting or of saving.
type recvCase struct {
	// PauseMs is the silence before the second packet; DelayMs how long the
	// store takes for the first record of the second packet.
	PauseMs, DelayMs []int
	Base             uint32
}

func genRecv(t *rapid.T) recvCase {
	c := recvCase{Base: rapid.Uint32().Draw(t, "base")}
	for i := 0; i < 12; i++ {
		c.PauseMs = append(c.PauseMs, rapid.SampledFrom([]int{0, 2600, 3400}).Draw(t, "pause"))
		c.DelayMs = append(c.DelayMs, rapid.SampledFrom([]int{0, 2600, 3400}).Draw(t, "delay"))
	}
	return c
}

func runRecv(c recvCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	plan := map[int64]int64{}
	ntm := func(i, k int) uint32 { return c.Base + uint32(i*3+k) }
	for i, d := range c.DelayMs {
		plan[model.Epoch+int64(ntm(i, 1))] = int64(d)
	}
	if err := s.Plan(nil, plan); err != nil {
		return err
	}
	defer s.Plan(nil, nil)
	pkt := func(pid uint16, ts ...uint32) []byte {
		p := ref.Packet{PRV: 1, PID: pid, PT: 1}
		for i, x := range ts {
			p.Records = append(p.Records, ref.Record{RN: uint16(i), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: x, VLD: 1}}}})
		}
		return p.Bytes()
	}
	var wg sync.WaitGroup
	type win struct{ a, b time.Time }
	sent := make([][2]win, len(c.PauseMs))
	errs := make([]error, len(c.PauseMs))
	for i := range c.PauseMs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			k, err := s.Dial()
			if err != nil {
				errs[i] = err
				return
			}
			a := time.Now()
			write(k, pkt(1, ntm(i, 0)))
			if !k.WaitReplies(1, 20*time.Second) {
				errs[i] = pbt.Soft("no reply")
				return
			}
			sent[i][0] = win{a, time.Now()}
			time.Sleep(time.Duration(c.PauseMs[i]) * time.Millisecond)
			a = time.Now()
			write(k, pkt(2, ntm(i, 1), ntm(i, 2)))
			// receipt does not wait for the store
			sent[i][1] = win{a, time.Now()}
			if _, late := k.Finish(2); late {
				errs[i] = pbt.Soft("no reply")
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	o := outcome{}
	if err := o.parseSaves(s); err != nil {
		return err
	}
	got := map[int64]int64{}
	for _, x := range o.saves {
		got[x.Nav] = x.Received
	}
	for i := range c.PauseMs {
		for k := 0; k < 3; k++ {
			w := sent[i][0]
			if k > 0 {
				w = sent[i][1]
			}
			rt, ok := got[model.Epoch+int64(ntm(i, k))]
			if !ok {
				return fmt.Errorf("position %d of session %d was not stored", k+1, i+1)
			}
			if rt < w.a.Unix()-1 {
				return fmt.Errorf("position %d of session %d (sent at %d after a pause of %d ms) has receive time %d, before it was sent", k+1, i+1, w.a.Unix(), c.PauseMs[i], rt)
			}
			if rt > w.b.Unix()+1 {
				return pbt.Soft("position %d of session %d (sent at %d, store delay %d ms) has receive time %d", k+1, i+1, w.b.Unix(), c.DelayMs[i], rt)
			}
		}
	}
	for i := range c.PauseMs {
		r.ClassIf(c.PauseMs[i] > 0, "pause before the packet")
		r.ClassIf(c.DelayMs[i] > 0, "slow store")
	}
	r.NonTrivial()
	return nil
}

func c10() pbt.Property {
	return pbt.Property{
		ID: "C10",
		Rule: "sessions of 1..6 valid packets with 0..4 records of random subrecords (position, satellites, sensors, counters, identities, responses, unsupported ones, in any order) played against the real server over TCP, " +
			"stored records compared field by field with a reference model; positions, records and packets sent again, unchanged or in part; each exported field and presence flag enumerated; non-trivial: at least one position is stored; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("fields", enumC10, guarded(runC10)),
			pbt.Make("session", 30000, 1500000, genSess(sopt{Packets: 6, Responses: true}), guarded(runC10)),
			pbt.Make("repeats", 8000, 400000, genSess(sopt{Packets: 4, Responses: true, Repeats: true}), guarded(runC10)),
			pbt.Make("large", 400, 20000, genSess(sopt{Packets: 3, Big: true}), guarded(runC10)),
			pbt.Make("receive-time", 16, 400, genRecv, guarded(runRecv)).With(func(s *pbt.Sub) { s.Shrink = 30 * time.Second }),
		},
	}
}
