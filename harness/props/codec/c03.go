package main

import (
	"fmt"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type bytesCase struct{ B []byte }

// runC03: decode, and if accepted encode and decode again.
func runC03(c bytesCase, r *pbt.Rec) error {
	p1 := &egts.Package{}
	code, err := p1.Decode(append([]byte{}, c.B...))
	if err != nil {
		r.Class("rejected (code %d)", code)
		return nil
	}
	r.Class("accepted")
	n := 0
	forEach(p1, nil, func(rd *egts.RecordData) { n++; r.Class("sub %d", rd.SubrecordType) })
	if n > 0 {
		r.NonTrivial()
	}
	return reencode(p1, c.B)
}

func reencode(p1 *egts.Package, orig []byte) error {
	// encode a second decode of the input, so that p1 stays what it was
	p2 := &egts.Package{}
	if _, err := p2.Decode(append([]byte{}, orig...)); err != nil {
		return fmt.Errorf("second decode of the same bytes failed: %v", err)
	}
	if d := (bridge.Cmp{Lengths: true}).Diff(p1, p2); d != "" {
		return fmt.Errorf("two decodes of the same bytes differ: %s", d)
	}
	b, err := p2.Encode()
	if err != nil {
		return fmt.Errorf("accepted packet %x does not encode: %v", clip(orig), err)
	}
	p3, err := decode(b)
	if err != nil {
		return fmt.Errorf("re-encoded packet %x (from %x) is not accepted: %v", clip(b), clip(orig), err)
	}
	if d := (bridge.Cmp{CoordTol: 1}).Diff(p1, p3); d != "" {
		return fmt.Errorf("re-encoded packet differs: %s\nfirst  %x\nsecond %x", d, clip(orig), clip(b))
	}
	if p3.HeaderLength != byte(len(b)-bodyAndCRC(p3)) {
		return fmt.Errorf("re-encoded header length %d is not that of the bytes %x", p3.HeaderLength, clip(b))
	}
	return nil
}

func bodyAndCRC(p *egts.Package) int {
	if p.FrameDataLength == 0 {
		return 0
	}
	return int(p.FrameDataLength) + 2
}

func genAccepted(t *rapid.T) bytesCase {
	o := gen.Opt{Unknown: true, SrcData: true}
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0:
		return bytesCase{gen.Packet(t, o).Bytes()}
	case 1: // extra bytes after the fields of a subrecord
		p := gen.Packet(t, o)
		var raw []ref.Record
		for _, rec := range p.Records {
			rr := rec
			rr.Subs = nil
			for _, s := range rec.Subs {
				if s.T != ref.TState20 && s.T != ref.TPlus && gen.Chance(t, 3, "extra") {
					s = ref.Sub{T: s.T, Raw: append(s.Content(), gen.BytesUpTo(t, 5, "x")...)}
				}
				rr.Subs = append(rr.Subs, s)
			}
			raw = append(raw, rr)
		}
		p.Records = raw
		return bytesCase{p.Bytes()}
	case 2: // bytes after the packet
		return bytesCase{append(gen.Packet(t, o).Bytes(), gen.BytesUpTo(t, 8, "after")...)}
	case 3: // single byte edits of the body with repaired checksums
		p := gen.Packet(t, o)
		return bytesCase{p.WithBody(gen.Mutate(t, p.Body(), 1))}
	default:
		return bytesCase{gen.HostilePacket(t)}
	}
}

type bigCase struct {
	Kind string // what overflows: subrecord, record, body, response
	Size int    // of the section that may overflow
	Seed uint32
}

func runC03Big(c bigCase, r *pbt.Rec) error {
	r.Class("%s over by %d", c.Kind, max(-3, min(3, c.Size-65535)))
	r.NonTrivial()
	var recs []ref.Record
	add := func(n int) { // a record whose data section is n bytes
		rec := ref.Record{RN: uint16(len(recs)), SST: 2, RST: 2}
		for n > 0 {
			k := min(n-8, 30000)
			if n-8-k < 8 && n-8-k > 0 {
				k = n - 8
			}
			if c.Kind == "subrecord" {
				k = n - 8
			}
			rec.Subs = append(rec.Subs, ref.Sub{T: ref.TDisp, Disp: &ref.Disp{DT: 1, DID: c.Seed, DSCR: make([]byte, k)}})
			n -= k + 8
		}
		recs = append(recs, rec)
	}
	p := ref.Packet{PRV: 1, PID: 5, PT: ref.PtAppdata}
	switch c.Kind {
	case "subrecord":
		add(c.Size + 3)
	case "record":
		add(c.Size)
	case "body", "response":
		left := c.Size
		if c.Kind == "response" {
			p.PT = ref.PtResponse
			left -= 3
		}
		for left > 0 {
			k := min(left-7, 20000)
			if left-7-k < 20 {
				k = left - 7
			}
			add(k)
			left -= k + 7
		}
	}
	p.Records = recs
	e := bridge.Packet(p, false)
	b, err := e.Encode()
	body := len(p.Body())
	fits := body <= 65535 && (c.Kind != "subrecord" || c.Size <= 65535) && (c.Kind != "record" || c.Size <= 65535)
	if !fits {
		if err == nil {
			return fmt.Errorf("%s of %d bytes (body %d) does not fit its 16-bit length, but was encoded to %d bytes: %x...", c.Kind, c.Size, body, len(b), clip(b)[:min(len(b), 40)])
		}
		return nil
	}
	r.Class("fits")
	if err != nil {
		return fmt.Errorf("%s of %d bytes (body %d) fits but is refused: %v", c.Kind, c.Size, body, err)
	}
	if want := p.Bytes(); string(want) != string(b) {
		return fmt.Errorf("%s of %d bytes encodes wrongly at offset %d", c.Kind, c.Size, firstDiff(b, want))
	}
	if _, err := decode(b); err != nil {
		return fmt.Errorf("%s of %d bytes: own encoding is not accepted: %v", c.Kind, c.Size, err)
	}
	return nil
}

func c03() pbt.Property {
	return pbt.Property{
		ID: "C03",
		Rule: "byte strings from valid packets, packets with surplus bytes in subrecords, single edits with repaired checksums and hostile packets; every accepted one is " +
			"re-encoded, re-decoded and compared field by field; plus structures whose subrecord, record or body size lies around 65535; " +
			"non-trivial: accepted with at least one decoded subrecord (or an oversize case); distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("accepted", 60000*6, 2000000, genAccepted, runC03),
			pbt.Make("oversize", 120, 1500, func(t *rapid.T) bigCase {
				c := bigCase{Kind: rapid.SampledFrom([]string{"subrecord", "record", "body", "response"}).Draw(t, "kind"), Seed: rapid.Uint32().Draw(t, "seed")}
				switch rapid.IntRange(0, 2).Draw(t, "sz") {
				case 0:
					c.Size = 65535 + rapid.IntRange(-12, 12).Draw(t, "d")
				case 1:
					c.Size = rapid.IntRange(65536, 200000).Draw(t, "s")
				default:
					c.Size = rapid.IntRange(1, 4).Draw(t, "m")*65536 + rapid.IntRange(0, 40).Draw(t, "d")
				}
				return c
			}, runC03Big).With(func(s *pbt.Sub) { s.Budget = 30 * time.Second }),
		},
	}
}
