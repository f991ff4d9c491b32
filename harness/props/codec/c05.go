package main

import (
	"encoding/binary"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type crcCase struct {
	P ref.Packet
	// Where: "hcs" (only the header checksum), "header" (a header byte that
	// does not change the layout), "sfrcs" (only the body checksum), "body",
	// "any" (any bytes), "hl" (header length), "pt" (packet type).
	Where string
	Pos   []int
	Xor   []byte
	Val   byte
}

func runC05(c crcCase, r *pbt.Rec) error {
	b := c.P.Bytes()
	hl := c.P.HeaderLen()
	fdl := len(c.P.Body())
	orig := append([]byte{}, b...)
	switch c.Where {
	case "hl":
		b[3] = c.Val
		if c.Val == byte(hl) {
			return nil
		}
		if len(c.Pos) > 0 && int(c.Val) >= 2 && int(c.Val) <= len(b) {
			b[int(c.Val)-1] = ref.CRC8(b[:int(c.Val)-1]) // checksum where HL says it is
		} else {
			b[hl-1] = ref.CRC8(b[:hl-1])
		}
		if b[3] == byte(hl) {
			return nil
		}
	case "pt":
		if c.Val < 2 {
			return nil
		}
		b[9] = c.Val
		b[hl-1] = ref.CRC8(b[:hl-1])
	default:
		for i, p := range c.Pos {
			x := c.Xor[i%len(c.Xor)]
			var at int
			switch c.Where {
			case "hcs":
				at = hl - 1
			case "header":
				safe := []int{1, 4, 7, 8}
				if hl == 16 {
					safe = append(safe, 10, 11, 12, 13, 14)
				}
				at = safe[p%len(safe)]
			case "sfrcs":
				if fdl == 0 {
					return nil
				}
				at = hl + fdl + p%2
			case "body":
				if fdl == 0 {
					return nil
				}
				at = hl + p%fdl
			case "any":
				at = p % len(b)
			}
			b[at] ^= x
		}
	}
	if string(b) == string(orig) {
		return nil
	}
	in := append([]byte{}, b...)
	p := &egts.Package{}
	code, err := p.Decode(in)
	want := uint8(0)
	reject := false
	switch c.Where {
	case "hl":
		reject, want = true, 131
	case "pt":
		reject, want = true, 133
	case "hcs", "header":
		if ref.CRC8(b[:hl-1]) != b[hl-1] {
			reject, want = true, 137
		}
	case "sfrcs", "body":
		if ref.CRC16(b[hl:hl+fdl]) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
			reject, want = true, 138
		}
	case "any":
		// whatever happened to the fields: take the checksums as the (possibly
		// corrupted) header lays them out
		h := 11
		if b[2]&0x20 != 0 {
			h = 16
		}
		f := int(binary.LittleEndian.Uint16(b[5:7]))
		switch {
		case int(b[3]) != h || len(b) < h:
			reject = true
		case ref.CRC8(b[:h-1]) != b[h-1]:
			reject = true
		case f > 0 && (len(b) < h+f+2 || ref.CRC16(b[h:h+f]) != binary.LittleEndian.Uint16(b[h+f:])):
			reject = true
		}
	}
	if !reject {
		r.Class("%s: checksum still matches", c.Where)
		return nil
	}
	r.NonTrivial()
	r.Class("%s", c.Where)
	if err == nil || code == 0 {
		return fmt.Errorf("%s corrupted, expected rejection, got code %d err %v: %x (was %x)", c.Where, code, err, clip(b), clip(orig))
	}
	if want != 0 && code != want {
		return fmt.Errorf("%s corrupted: expected code %d, got %d (%v): %x (was %x)", c.Where, want, code, err, clip(b), clip(orig))
	}
	return nil
}

func genC05(big bool) func(t *rapid.T) crcCase {
	return func(t *rapid.T) crcCase {
		var c crcCase
		o := gen.Opt{Unknown: true}
		if big {
			c.P = gen.BigPacket(t, o)
		} else {
			c.P = gen.Packet(t, o)
		}
		c.Where = rapid.SampledFrom([]string{"hcs", "header", "sfrcs", "body", "body", "any", "any", "hl", "pt"}).Draw(t, "where")
		switch c.Where {
		case "hl", "pt":
			c.Val = gen.B8(t, "val")
			if gen.Bit(t, "alt") == 1 {
				c.Pos = []int{1}
			}
		default:
			n := rapid.IntRange(1, 4).Draw(t, "n")
			if gen.Bit(t, "single") == 1 {
				n = 1
			}
			for i := 0; i < n; i++ {
				p := rapid.IntRange(0, 70000).Draw(t, "pos")
				c.Pos = append(c.Pos, p)
				if gen.Bit(t, "bitflip") == 1 {
					c.Xor = append(c.Xor, 1<<uint(rapid.IntRange(0, 7).Draw(t, "bit")))
				} else {
					c.Xor = append(c.Xor, byte(rapid.IntRange(1, 255).Draw(t, "xor")))
				}
			}
		}
		return c
	}
}

// enumC05: every single-bit error of two small packets, every HL, every PT and
// every wrong value of each checksum byte.
func enumC05(tier string, yield func(crcCase) bool) {
	one := byte(0)
	base := ref.Packet{PRV: 1, PID: 0x1234, PT: 1, Records: []ref.Record{flagRecord(0x07), {RN: 1, Subs: []ref.Sub{{T: ref.TResult, Result: &one}}}}}
	routed := base
	routed.RTE, routed.PRA, routed.RCA, routed.TTL = 1, 1, 2, 3
	resp := ref.Packet{PRV: 1, PID: 9, PT: 0, RPID: 77, Result: 0}
	empty := ref.Packet{PRV: 1, PID: 9, PT: 1}
	for _, p := range []ref.Packet{base, routed, resp, empty} {
		n := len(p.Bytes())
		for i := 0; i < n; i++ {
			for bit := 0; bit < 8; bit++ {
				if !yield(crcCase{P: p, Where: "any", Pos: []int{i}, Xor: []byte{1 << uint(bit)}}) {
					return
				}
			}
		}
		for v := 0; v < 256; v++ {
			for _, c := range []crcCase{{P: p, Where: "hl", Val: byte(v)}, {P: p, Where: "hl", Val: byte(v), Pos: []int{1}}, {P: p, Where: "pt", Val: byte(v)}} {
				if !yield(c) {
					return
				}
			}
			if v > 0 {
				for _, c := range []crcCase{{P: p, Where: "hcs", Pos: []int{0}, Xor: []byte{byte(v)}},
					{P: p, Where: "sfrcs", Pos: []int{0}, Xor: []byte{byte(v)}}, {P: p, Where: "sfrcs", Pos: []int{1}, Xor: []byte{byte(v)}},
					{P: p, Where: "sfrcs", Pos: []int{0, 1}, Xor: []byte{byte(v), 0x55}}, {P: p, Where: "header", Pos: []int{v}, Xor: []byte{byte(v)}}} {
					if !yield(c) {
						return
					}
				}
			}
		}
	}
}

func c05() pbt.Property {
	return pbt.Property{
		ID: "C05",
		Rule: "valid packets with 1..4 corrupted bytes or bits in the header, body or checksums (and every single-bit error, checksum byte value, header length and packet type of four fixed packets), " +
			"judged by independent checksums; non-trivial: the corrupted packet really mismatches its checksum (or HL/PT is invalid); distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("single-errors", enumC05, runC05),
			pbt.Make("corrupt", 60000, 2000000, genC05(false), runC05),
			pbt.Make("corrupt-large", 150, 3000, genC05(true), runC05),
		},
	}
}
