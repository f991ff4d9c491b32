package gen

import (
	"encoding/binary"

	"pgregory.net/rapid"
	"verif/ref"
)

// Refit recomputes HL-independent lengths and both checksums of a plain packet
// so that a mutated body still reaches the body decoder. b must hold at least
// the fixed header.
func Refit(b []byte) []byte {
	if len(b) < 11 {
		return b
	}
	hl := 11
	if b[2]&0x20 != 0 {
		hl = 16
	}
	if len(b) < hl {
		return b
	}
	out := append([]byte{}, b[:hl]...)
	body := b[hl:]
	if len(body) >= 2 {
		body = body[:len(body)-2]
	} else {
		body = nil
	}
	out[3] = byte(hl)
	binary.LittleEndian.PutUint16(out[5:], uint16(len(body)))
	out[hl-1] = ref.CRC8(out[:hl-1])
	if len(body) > 0 {
		out = append(out, body...)
		c := ref.CRC16(body)
		out = append(out, byte(c), byte(c>>8))
	}
	return out
}

// FixCRC recomputes the two checksums in place of whatever is there, trusting
// the lengths written in the packet as far as they fit.
func FixCRC(b []byte) []byte {
	out := append([]byte{}, b...)
	if len(out) < 11 {
		return out
	}
	hl := int(out[3])
	if hl < 2 || hl > len(out) {
		return out
	}
	out[hl-1] = ref.CRC8(out[:hl-1])
	fdl := int(binary.LittleEndian.Uint16(out[5:]))
	if fdl > 0 && hl+fdl+2 <= len(out) {
		binary.LittleEndian.PutUint16(out[hl+fdl:], ref.CRC16(out[hl:hl+fdl]))
	}
	return out
}

// Mutate applies 1..n random edits.
func Mutate(t *rapid.T, b []byte, n int) []byte {
	out := append([]byte{}, b...)
	for i := rapid.IntRange(1, n).Draw(t, "nmut"); i > 0; i-- {
		if len(out) == 0 {
			out = append(out, B8(t, "ins"))
			continue
		}
		p := rapid.IntRange(0, len(out)-1).Draw(t, "at")
		switch rapid.IntRange(0, 7).Draw(t, "mut") {
		case 0:
			out[p] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case 1:
			out[p] = B8(t, "byte")
		case 2: // delete a run
			q := min(len(out), p+rapid.IntRange(1, 4).Draw(t, "n"))
			out = append(out[:p], out[q:]...)
		case 3: // insert a run
			ins := BytesUpTo(t, 6, "ins")
			out = append(out[:p], append(append([]byte{}, ins...), out[p:]...)...)
		case 4: // truncate
			out = out[:p]
		case 5: // duplicate a run
			q := min(len(out), p+rapid.IntRange(1, 40).Draw(t, "n"))
			out = append(out[:q], append(append([]byte{}, out[p:q]...), out[q:]...)...)
		case 6: // 16-bit value
			if p+1 < len(out) {
				binary.LittleEndian.PutUint16(out[p:], U16(t, "u16"))
			}
		case 7:
			out[p] = rapid.SampledFrom([]byte{0, 1, 0x7F, 0x80, 0xFF, 11, 16, 10}).Draw(t, "magic")
		}
	}
	return out
}

// HostilePacket draws bytes for the packet decoder: noise, mutated packets
// with and without repaired checksums, and packets with a hostile body.
func HostilePacket(t *rapid.T) []byte {
	switch rapid.IntRange(0, 7).Draw(t, "hostile") {
	case 0:
		return BytesUpTo(t, 64, "noise")
	case 1: // noise after a plausible start
		b := []byte{1, B8(t, "skid"), B8(t, "flags"), rapid.SampledFrom([]byte{11, 16, 0, 1, 5, 10, 12, 15, 17, 64, 128, 255}).Draw(t, "hl"), 0}
		return FixCRC(append(b, BytesUpTo(t, 60, "tail")...))
	case 2:
		return Mutate(t, Packet(t, Opt{Unknown: true, SrcData: true}).Bytes(), 4)
	case 3:
		return FixCRC(Mutate(t, Packet(t, Opt{Unknown: true, SrcData: true}).Bytes(), 3))
	case 4: // mutated body, everything else consistent
		p := Packet(t, Opt{Unknown: true, SrcData: true})
		return p.WithBody(Mutate(t, p.Body(), 3))
	case 5: // random body, everything else consistent
		p := Header(t)
		p.PT = byte(rapid.SampledFrom([]int{0, 1, 1, 1, 2, 255}).Draw(t, "pt"))
		p.ENA = byte(rapid.IntRange(0, 3).Draw(t, "ena"))
		return p.WithBody(BytesUpTo(t, 80, "body"))
	case 6: // subrecords with random content
		p := Header(t)
		r := Record(t, 1, Opt{})
		for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0; i-- {
			r.Subs = append(r.Subs, ref.Sub{T: rapid.SampledFrom(ref.Supported).Draw(t, "T"), Raw: BytesUpTo(t, 40, "content")})
		}
		p.Records = []ref.Record{r}
		return p.Bytes()
	default: // lengths inside the packet replaced
		p := Packet(t, Opt{Unknown: true})
		b := p.Bytes()
		if len(b) > 6 {
			binary.LittleEndian.PutUint16(b[5:], U16(t, "fdl"))
		}
		if Bit(t, "hl?") == 1 {
			b[3] = B8(t, "hl")
		}
		return FixCRC(b)
	}
}

// NestedResponse builds a record-response subrecord that carries a record that
// carries a record-response subrecord, and so on.
func NestedResponse(depth int) []byte {
	var inner []byte
	for i := 0; i < depth; i++ {
		c := append([]byte{byte(i), byte(i >> 8), 0}, inner...)
		sub := ref.Sub{T: ref.TResponse, Raw: c}
		if len(c) > 65000 {
			break
		}
		inner = ref.Record{RN: uint16(i), SST: 1, RST: 1, Subs: []ref.Sub{sub}}.Bytes()
	}
	return inner
}
