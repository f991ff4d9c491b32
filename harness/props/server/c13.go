package main

import (
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

type badCase struct {
	Items []model.Item
	// Junk ends the session when not empty; After follows it in the same write.
	Junk  []byte `json:",omitempty"`
	After []byte `json:",omitempty"`
}

// asBad classifies bytes that frame as exactly one packet: the decoder's
// result code when it refuses them, 0 when it accepts.
func asBad(b []byte) (code byte) {
	p := egts.Package{}
	c, err := p.Decode(append([]byte{}, b...))
	switch {
	case err != nil && c == 0:
		return 255 // an error without a code: no answer can be right
	case err == nil && badSums(b):
		return 255 // accepted with a wrong checksum
	case err == nil:
		return 0
	}
	return c
}

// badSums tells whether a framed packet mismatches one of its checksums.
func badSums(b []byte) bool {
	hl := int(b[3])
	if hl != 11 && hl != 16 || len(b) < hl {
		return false
	}
	if ref.CRC8(b[:hl-1]) != b[hl-1] {
		return true
	}
	n := len(b) - hl - 2
	return n > 0 && ref.CRC16(b[hl:hl+n]) != uint16(b[hl+n])|uint16(b[hl+n+1])<<8
}

// framed tells whether the server's framing takes b as exactly one packet.
func framed(b []byte) bool {
	if len(b) < 10 || b[0] != 1 || b[3] < 10 {
		return false
	}
	n := int(b[3])
	if f := int(b[5]) | int(b[6])<<8; f > 0 {
		n += f + 2
	}
	return n == len(b)
}

// genBad draws a framed packet that the decoder refuses.
func genBad(t *rapid.T, id *ids) model.Item {
	p := genPacket(t, id, sopt{})
	b := p.Bytes()
	hl := p.HeaderLen()
	kind := rapid.IntRange(0, 9).Draw(t, "bad")
	switch kind {
	case 0: // header checksum
		b[hl-1] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
	case 1: // body checksum
		if len(b) > hl {
			b[len(b)-1-int(gen.Bit(t, "which"))] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
		} else {
			b[hl-1] ^= 1
		}
	case 2: // body byte
		if len(b) > hl {
			b[hl+rapid.IntRange(0, len(b)-hl-3).Draw(t, "at")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
		} else {
			b[hl-1] ^= 1
		}
	case 3: // packet type
		b[9] = byte(rapid.IntRange(2, 255).Draw(t, "pt"))
		b[hl-1] = ref.CRC8(b[:hl-1])
	case 4: // header length contradicting the routing flag
		v := byte(rapid.IntRange(10, 255).Draw(t, "hl"))
		if gen.Bit(t, "near") == 1 {
			v = rapid.SampledFrom([]byte{10, 11, 12, 15, 16, 17}).Draw(t, "hlnear")
		}
		if v == byte(hl) {
			v = byte(27 - hl)
		}
		b[3] = v
		n := int(v)
		if f := int(b[5]) | int(b[6])<<8; f > 0 {
			n += f + 2
		}
		for len(b) < n {
			b = append(b, 0)
		}
		b = b[:n]
		if gen.Bit(t, "crc") == 1 {
			b[v-1] = ref.CRC8(b[:v-1])
		}
	case 5: // encrypted
		p.ENA = byte(rapid.IntRange(1, 3).Draw(t, "ena"))
		b = p.Bytes()
	case 6: // record too long for the packet
		p.PT = ref.PtAppdata
		p.Records = append(p.Records, genRecord(t, id, sopt{}))
		body := p.Body()
		r := p.Records[len(p.Records)-1]
		at := len(body) - len(r.Bytes())
		rl := int(body[at]) | int(body[at+1])<<8
		rl += rapid.IntRange(1, 65535-rl).Draw(t, "more")
		body[at], body[at+1] = byte(rl), byte(rl>>8)
		b = p.WithBody(body)
	case 7: // mutated body, checksums right
		b = p.WithBody(gen.Mutate(t, p.Body(), 3))
	case 8: // subrecord with too little content
		p.PT = ref.PtAppdata
		r := ref.Record{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: rapid.SampledFrom(ref.Supported).Draw(t, "T"), Raw: gen.BytesUpTo(t, 6, "short")}}}
		p.Records = append(p.Records, r)
		b = p.Bytes()
	case 9: // noise that frames
		b = append([]byte{1, gen.B8(t, "skid"), gen.B8(t, "flags"), byte(rapid.IntRange(10, 20).Draw(t, "hl")), gen.B8(t, "he")}, 0, 0, gen.B8(t, "pid0"), gen.B8(t, "pid1"), gen.B8(t, "pt"))
		n := rapid.IntRange(0, 40).Draw(t, "fdl")
		b[5] = byte(n)
		if n > 0 {
			n += 2
		}
		b = append(b, gen.Blob(t, int(b[3])-10+n, "noise")...)
	}
	if framed(b) {
		if c := asBad(b); c != 0 {
			return model.Item{Bad: b, Code: c}
		}
	}
	// accepted after all: refuse it by its header checksum
	p = &ref.Packet{PRV: 1, PID: gen.U16(t, "pid"), PT: 1}
	b = p.Bytes()
	b[10] ^= 0x55
	return model.Item{Bad: b, Code: asBad(b)}
}

func genBadSession(t *rapid.T) badCase {
	id := newIDs(t)
	var c badCase
	for n := rapid.IntRange(1, 6).Draw(t, "n"); n > 0; n-- {
		if gen.Bit(t, "isBad") == 1 {
			c.Items = append(c.Items, genBad(t, id))
		} else {
			c.Items = append(c.Items, model.Item{P: genPacket(t, id, sopt{Responses: true})})
		}
	}
	if gen.Chance(t, 3, "junk") {
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0: // header length too small
			b := genPacket(t, id, sopt{}).Bytes()
			b[3] = byte(rapid.IntRange(0, 9).Draw(t, "hl"))
			if b[3] != 4 && gen.Bit(t, "crc") == 1 {
				b = gen.FixCRC(b)
			}
			c.Junk = b
		case 1: // another protocol version
			b := genPacket(t, id, sopt{}).Bytes()
			v := gen.B8(t, "prv")
			if v == 1 {
				v = 0
			}
			b[0] = v
			if gen.Bit(t, "crc") == 1 {
				b = gen.FixCRC(b)
			}
			c.Junk = b
		default: // another protocol
			c.Junk = gen.BytesUpTo(t, 60, "noise")
			for len(c.Junk) < 10 {
				c.Junk = append(c.Junk, 'x')
			}
			if c.Junk[0] == 1 {
				c.Junk[0] = 'G'
			}
		}
		if gen.Bit(t, "after") == 1 {
			c.After = stream(genSession(t, id, sopt{Packets: 2}))
		}
	}
	return c
}

// genManyBad: a session with very many malformed packets, in a row or between
// well-formed ones.
func genManyBad(t *rapid.T) badCase {
	id := newIDs(t)
	var bads, c badCase
	for n := rapid.IntRange(1, 4).Draw(t, "kinds"); n > 0; n-- {
		bads.Items = append(bads.Items, genBad(t, id))
	}
	total := rapid.SampledFrom([]int{8, 12, 20, 40, 70, 130, 260, 600, 1100, 3000}).Draw(t, "total")
	every := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 50}).Draw(t, "every")
	pos := func() model.Item {
		n := id.Next()
		return model.Item{P: &ref.Packet{PRV: 1, PID: uint16(n), PT: 1, Records: []ref.Record{{RN: uint16(n), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: n, VLD: 1}}}}}}}
	}
	size := 0
	for i := 0; i < total && size < 1<<21; i++ {
		if every > 0 && i%every == 0 {
			c.Items = append(c.Items, pos())
		}
		b := bads.Items[i%len(bads.Items)]
		size += len(b.Bad)
		c.Items = append(c.Items, b)
	}
	c.Items = append(c.Items, pos())
	return c
}

func runC13(c badCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	// the same session without the malformed packets
	var good []model.Item
	nbad := 0
	for _, it := range c.Items {
		if it.Bad == nil {
			good = append(good, it)
			continue
		}
		// the code is the one of the decoder in the tree under test
		if got := asBad(it.Bad); got == 0 || got != it.Code {
			r.Class("decoder gives another answer now")
			return nil
		}
		nbad++
		r.Class("code %d", it.Code)
	}
	base, err := play(s, good)
	if err != nil {
		return err
	}

	k, err := s.Dial()
	if err != nil {
		return err
	}
	m := modelOf(c.Items, nil)
	if err := write(k, stream(c.Items)); err != nil && !s.H.Alive() {
		return s.H.Died()
	}
	var raw []byte
	var got outcome
	if len(c.Junk) > 0 {
		// replies first: closing with unread data may drop them
		if !k.WaitReplies(len(m.Replies), srv.Limit) {
			k.Close()
			return pbt.Soft("not all of %d replies arrive", len(m.Replies))
		}
		write(k, append(append([]byte{}, c.Junk...), c.After...))
		if !k.WaitEnd(srv.Limit) {
			k.Close()
			return pbt.Soft("the connection stays open after data that is not EGTS: %x", clipB(c.Junk))
		}
		raw, _, _, _ = k.State()
		k.Close()
	} else {
		raw, got.late = k.Finish(len(m.Replies))
	}
	if !s.H.Alive() {
		return s.H.Died()
	}
	if err := got.parseSaves(s); err != nil {
		return err
	}
	if len(c.Junk) > 0 {
		// what could still come late
		time.Sleep(2 * time.Millisecond)
		var late outcome
		if err := late.parseSaves(s); err != nil {
			return err
		}
		got.saves = append(got.saves, late.saves...)
	}
	replies, bad := model.ParseReplies(raw)
	if bad != "" {
		return got.fail("%s", bad)
	}
	// the answers to the malformed packets, and what remains without them
	var rest []model.Reply
	n := 0
	for i, w := range m.Replies {
		if w.ResultCode || w.Code == 0 {
			continue
		}
		if i >= len(replies) {
			return got.fail("malformed packet %d (packet id %d, code %d) was not answered: %d replies instead of %d", n+1, w.PID, w.Code, len(replies), len(m.Replies))
		}
		g := replies[i]
		if g.ResultCode || g.PID != w.PID || g.Code != w.Code || len(g.Confirms) != 0 {
			return got.fail("malformed packet %d: expected %s, got %s", n+1, w, g)
		}
		n++
	}
	for i, g := range replies {
		if i < len(m.Replies) && m.Replies[i].Code != 0 && !m.Replies[i].ResultCode {
			continue
		}
		rest = append(rest, g)
	}
	if d := model.DiffReplies(base.replies, rest, true); d != "" {
		return got.fail("replies to the well-formed packets differ from the session without the malformed ones: %s", d)
	}
	if a, b := stripped(base.saves), stripped(got.saves); a != b {
		return got.fail("stored records differ from the session without the malformed packets:\n%s\ninstead of\n%s", clipText(b), clipText(a))
	}
	r.ClassIf(len(c.Junk) > 0, "not EGTS at all")
	r.ClassIf(len(c.After) > 0, "valid packets after the junk")
	r.ClassIf(nbad > 1, "several malformed packets")
	r.ClassIf(nbad > 0 && len(good) > 0, "malformed among well-formed")
	if nbad > 0 || len(c.Junk) > 0 {
		r.NonTrivial()
	}
	return nil
}

func clipB(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

// enumC13: every single-bit error of a packet between two good ones, every
// header length and protocol version.
func enumC13(tier string, yield func(badCase) bool) {
	oid := uint32(5)
	pos := func(n uint32) *ref.Packet {
		return &ref.Packet{PRV: 1, PID: uint16(n), PT: 1, Records: []ref.Record{{RN: 1, OID: &oid, SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: n, VLD: 1}}}}}}
	}
	b := pos(7002).Bytes()
	for i := range b {
		for bit := 0; bit < 8; bit++ {
			x := append([]byte{}, b...)
			x[i] ^= 1 << uint(bit)
			if !framed(x) {
				continue
			}
			if c := asBad(x); c != 0 {
				if !yield(badCase{Items: []model.Item{{P: pos(7001)}, {Bad: x, Code: c}, {P: pos(7003)}}}) {
					return
				}
			}
		}
	}
	for v := 0; v < 256; v++ {
		x := append([]byte{}, b...)
		x[0] = byte(v)
		x[10] = ref.CRC8(x[:10])
		if v != 1 && !yield(badCase{Items: items(pos(7001)), Junk: x, After: pos(7003).Bytes()}) {
			return
		}
		x = append([]byte{}, b...)
		x[3] = byte(v)
		if v < 10 {
			if v > 0 {
				x[v-1] = ref.CRC8(x[:v-1])
			}
			x[3] = byte(v)
			if !yield(badCase{Items: items(pos(7001)), Junk: x, After: pos(7003).Bytes()}) {
				return
			}
			continue
		}
		for len(x) < v+len(b)-11 {
			x = append(x, 0)
		}
		x = x[:v+len(b)-11]
		if c := asBad(x); c != 0 && framed(x) {
			if !yield(badCase{Items: []model.Item{{P: pos(7001)}, {Bad: x, Code: c}, {P: pos(7003)}}}) {
				return
			}
		}
	}
}

func c13() pbt.Property {
	return pbt.Property{
		ID: "C13",
		Rule: "sessions mixing well-formed packets with framed malformed ones (checksum, type, length, encryption, truncation, noise) and ending in non-EGTS data, and sessions with up to 3000 malformed packets, compared with the same session without them and with the decoder's own result code; " +
			"every single-bit error, protocol version and header length of a sample enumerated; non-trivial: at least one malformed packet or junk; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("single-errors", enumC13, guarded(runC13)),
			pbt.Make("session", 15000, 800000, genBadSession, guarded(runC13)),
			pbt.Make("many", 160, 8000, genManyBad, guarded(runC13)),
		},
	}
}
