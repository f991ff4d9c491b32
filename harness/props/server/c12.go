package main

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

type segCase struct {
	Items []model.Item
	// Cuts are positions in the byte stream (taken modulo its length) where a
	// segment ends.
	Cuts []int
	// Every: additionally a segment ends every so many bytes.
	Every int
	// Head: additionally a segment ends at these offsets of every packet.
	Head []int
	// Wait[i%len]: after segment i 0 = go on at once, 1 = wait until the server
	// has read it, 2 = pause 1 ms, 3 = pause 15 ms
	Wait []int
	// Partial bytes of a last packet that stays incomplete.
	Partial []byte
}

func (c segCase) chunks() [][]byte {
	b := append(stream(c.Items), c.Partial...)
	cut := map[int]bool{}
	for _, x := range c.Cuts {
		cut[x%(len(b)+1)] = true
	}
	if c.Every > 0 {
		for i := c.Every; i < len(b); i += c.Every {
			cut[i] = true
		}
	}
	at := 0
	for _, it := range c.Items {
		n := len(it.Bytes())
		for _, h := range c.Head {
			if h < 0 {
				h += n
			}
			cut[at+h] = true
		}
		at += n
	}
	var out [][]byte
	last := 0
	for i := 1; i < len(b); i++ {
		if cut[i] {
			out = append(out, b[last:i])
			last = i
		}
	}
	return append(out, b[last:])
}

func runC12(c segCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	m := modelOf(c.Items, nil)

	// the packets one by one, each as a segment of its own
	var single [][]byte
	for _, it := range c.Items {
		single = append(single, it.Bytes())
	}
	exp := 0
	alone := model.Session{}
	base, err := playChunks(s, single, len(m.Replies), func(k *srv.Conn, i int) error {
		alone.Feed(c.Items[i], nil)
		exp = len(alone.Replies)
		if !k.WaitReplies(exp, srv.Limit) {
			return pbt.Soft("no reply to packet %d sent on its own (%d bytes)", i+1, len(single[i]))
		}
		k.Drained()
		return nil
	})
	if err != nil {
		return err
	}
	// framing sanity against the model: every packet is seen as that packet
	if base.badReply != "" {
		return base.fail("%s", base.badReply)
	}
	if d := pids(m.Replies, base.replies); d != "" {
		return base.fail("one packet per segment: %s", d)
	}
	if d := sameNavs(wantNavs(m.Saves), navs(base.saves)); d != "" {
		return base.fail("one packet per segment: %s", d)
	}

	chunks := c.chunks()
	got, err := playChunks(s, chunks, len(m.Replies), func(k *srv.Conn, i int) error {
		if len(c.Wait) > 0 {
			switch c.Wait[i%len(c.Wait)] {
			case 1:
				k.Drained()
			case 2:
				time.Sleep(time.Millisecond)
			case 3:
				time.Sleep(15 * time.Millisecond)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if got.badReply != "" {
		return got.fail("with %d segments: %s", len(chunks), got.badReply)
	}
	if d := model.DiffReplies(base.replies, got.replies, true); d != "" {
		return got.fail("replies differ with %d segments: %s", len(chunks), d)
	}
	if a, b := stripped(base.saves), stripped(got.saves); a != b {
		return got.fail("stored records differ with %d segments:\n%s\ninstead of\n%s", len(chunks), clipText(b), clipText(a))
	}
	if len(chunks) > 1 && len(m.Replies) > 0 {
		r.NonTrivial()
	}
	r.ClassIf(len(chunks) == 1 && len(c.Items) > 1, "all packets in one segment")
	r.ClassIf(c.Every == 1, "byte by byte")
	r.ClassIf(c.Every > 1, "fixed-size segments")
	r.ClassIf(len(c.Head) > 0, "cut inside every header")
	r.ClassIf(len(c.Partial) > 0, "incomplete last packet")
	for _, w := range c.Wait {
		r.ClassIf(w == 1, "server reads between segments")
	}
	classes(r, c.Items)
	return nil
}

func clipText(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// pids compares only which packets were answered.
func pids(want, got []model.Reply) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if want[i].ResultCode != got[i].ResultCode || want[i].PID != got[i].PID {
			return fmt.Sprintf("reply %d: want %s, got %s", i+1, want[i], got[i])
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d replies instead of %d", len(got), len(want))
	}
	return ""
}

func genSeg(o sopt) func(*rapid.T) segCase {
	return func(t *rapid.T) segCase {
		id := newIDs(t)
		c := segCase{Items: genSession(t, id, o)}
		switch rapid.IntRange(0, 5).Draw(t, "style") {
		case 0: // everything coalesced
		case 1:
			c.Every = rapid.IntRange(1, 12).Draw(t, "every")
			if o.Big {
				c.Every = rapid.SampledFrom([]int{97, 512, 1448, 4096, 16384, 65536}).Draw(t, "everyBig")
			}
		case 2:
			c.Head = rapid.SliceOfN(rapid.IntRange(-14, 16), 1, 3).Draw(t, "head")
		case 3:
			c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 70000), 1, 6).Draw(t, "cuts")
		default:
			c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 3000), 0, 4).Draw(t, "cuts")
			c.Head = rapid.SliceOfN(rapid.IntRange(-3, 12), 0, 2).Draw(t, "head")
		}
		c.Wait = rapid.SliceOfN(rapid.SampledFrom([]int{1, 1, 1, 0, 2}), 1, 4).Draw(t, "wait")
		if gen.Chance(t, 3, "partial") {
			b := genPacket(t, id, sopt{}).Bytes()
			c.Partial = b[:rapid.IntRange(1, len(b)-1).Draw(t, "cutAt")]
		}
		return c
	}
}

// enumC12: every cut point of a three-packet stream, byte by byte, every
// incomplete last packet.
func enumC12(tier string, yield func(segCase) bool) {
	tid := &ref.Term{TID: 77}
	pos := func(n uint32) ref.Sub { return ref.Sub{T: ref.TPos, Pos: &ref.Pos{NTM: n, LAT: n, VLD: 1}} }
	a := &ref.Packet{PRV: 1, PID: 1, PT: 1, Records: []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{T: ref.TTerm, Term: tid}}}}}
	b := &ref.Packet{PRV: 1, PID: 2, PT: 1, RTE: 1, PRA: 257, RCA: 258, TTL: 1, Records: []ref.Record{{RN: 2, SST: 2, RST: 2, Subs: []ref.Sub{pos(5001)}}, {RN: 3, SST: 2, RST: 2, Subs: []ref.Sub{pos(5002)}}}}
	e := &ref.Packet{PRV: 1, PID: 3, PT: 1}
	d := &ref.Packet{PRV: 1, PID: 4, PT: 1, Records: []ref.Record{{RN: 4, SST: 2, RST: 2, Subs: []ref.Sub{pos(5003)}}}}
	its := items(a, b, e, d)
	n := len(stream(its))
	for i := 1; i < n; i++ {
		if !yield(segCase{Items: its, Cuts: []int{i}, Wait: []int{1}}) {
			return
		}
	}
	for k := 1; k <= 20; k++ {
		for _, w := range []int{0, 1, 2} {
			if !yield(segCase{Items: its, Every: k, Wait: []int{w}}) {
				return
			}
		}
	}
	for h := -12; h <= 17; h++ {
		if !yield(segCase{Items: its, Head: []int{h}, Wait: []int{1}}) {
			return
		}
	}
	last := b.Bytes()
	for i := 1; i < len(last); i++ {
		for _, cut := range [][]int{nil, {n}} {
			if !yield(segCase{Items: its, Partial: last[:i], Cuts: cut, Wait: []int{1}}) {
				return
			}
		}
	}
	// every size at the upper end of the length field, whole and in pieces
	for k := 0; k < 34; k++ {
		for _, rte := range []byte{0, 1} {
			body := 65535 - k
			p := &ref.Packet{PRV: 1, PID: uint16(100 + k), RTE: rte, PT: 1, Records: []ref.Record{{RN: 9, SST: 2, RST: 2, Subs: []ref.Sub{pos(6000), {T: 99, Raw: make([]byte, body-7-24-3)}}}}}
			for _, ev := range []int{0, 1448, 65000} {
				if !yield(segCase{Items: items(d, p, e), Every: ev, Wait: []int{1}}) {
					return
				}
			}
		}
	}
}

func c12() pbt.Property {
	return pbt.Property{
		ID: "C12",
		Rule: "byte streams of 1..6 packets (sizes up to 65535 bytes) sent once with one packet per segment and once cut into generated segments (also all cut points of a four-packet stream, byte by byte, incomplete last packets), " +
			"replies and stored records compared; non-trivial: more than one segment and at least one reply; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("cut-points", enumC12, guarded(runC12)),
			pbt.Make("segments", 5000, 300000, genSeg(sopt{Packets: 6, Responses: true}), guarded(runC12)),
			pbt.Make("large-segments", 400, 20000, genSeg(sopt{Packets: 3, Big: true}), guarded(runC12)),
		},
	}
}
