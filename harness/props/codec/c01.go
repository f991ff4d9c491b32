package main

import (
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type pktCase struct{ P ref.Packet }

// classify labels a packet for the evidence.
func classify(p ref.Packet, r *pbt.Rec) {
	r.ClassIf(p.RTE == 1, "routed")
	r.ClassIf(p.PT == ref.PtResponse, "response packet")
	switch n := len(p.Records); {
	case n == 0:
		r.Class("no records")
	case n == 1:
		r.Class("1 record")
	case n < 100:
		r.Class("2..99 records")
	default:
		r.Class("100+ records")
	}
	for _, rec := range p.Records {
		for _, s := range rec.Subs {
			if ref.IsSupported(s.T) {
				r.Class("sub %d", s.T)
			} else {
				r.Class("sub unsupported")
			}
		}
	}
}

func hasSubs(p ref.Packet) bool {
	for _, r := range p.Records {
		if len(r.Subs) > 0 {
			return true
		}
	}
	return false
}

// decode decodes and checks the success report.
func decode(b []byte, opt ...func(*egts.Options)) (*egts.Package, error) {
	p := &egts.Package{}
	code, err := p.Decode(b, opt...)
	if err != nil {
		return nil, fmt.Errorf("decode failed (code %d): %v", code, err)
	}
	if code != 0 {
		return nil, fmt.Errorf("decode succeeded but reported code %d", code)
	}
	return p, nil
}

func runC01(c pktCase, r *pbt.Rec) error {
	classify(c.P, r)
	if hasSubs(c.P) {
		r.NonTrivial()
	}
	wire := c.P.Bytes()
	in := append([]byte{}, wire...)
	got, err := decode(in)
	if err != nil {
		return fmt.Errorf("valid packet %x: %v", clip(wire), err)
	}
	if string(in) != string(wire) {
		return fmt.Errorf("decoding changed its input")
	}
	if d := (bridge.Cmp{Lengths: true}).Diff(bridge.Packet(c.P, true), got); d != "" {
		return fmt.Errorf("packet %x decodes wrongly: %s", clip(wire), d)
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

type subCase struct{ S ref.Sub }

func runC01Sub(c subCase, r *pbt.Rec) error {
	r.Class("sub %d", c.S.T)
	r.NonTrivial()
	d := bridge.New(c.S.T)
	content := c.S.Content()
	if err := d.Decode(content); err != nil {
		return fmt.Errorf("valid subrecord %d %x: %v", c.S.T, clip(content), err)
	}
	if x := (bridge.Cmp{Lengths: true}).Diff(bridge.Sub(c.S), d); x != "" {
		return fmt.Errorf("subrecord %d %x decodes wrongly: %s", c.S.T, clip(content), x)
	}
	return nil
}

func genSub(t *rapid.T) subCase {
	return subCase{gen.SubOf(t, rapid.SampledFrom(ref.Supported).Draw(t, "T"), gen.Opt{SrcData: true})}
}

func c01() pbt.Property {
	o := gen.Opt{Unknown: true, SrcData: true}
	return pbt.Property{
		ID: "C01",
		Rule: "packets, records and subrecords drawn field by field from the wire ranges (boundary-biased, all presence-flag combinations, " +
			"routed/unrouted, app-data/response, up to the maximum size), encoded by the reference model and decoded by the library; " +
			"non-trivial: at least one subrecord; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("packet", 40000*6, 1500000, func(t *rapid.T) pktCase { return pktCase{gen.Packet(t, o)} }, runC01),
			pbt.Make("subrecord", 40000*6, 1500000, genSub, runC01Sub),
			pbt.Make("large", 150, 4000, func(t *rapid.T) pktCase { return pktCase{gen.BigPacket(t, o)} }, runC01),
			pbt.MakeEnum("flag-bytes", enumFlagBytes, runC01Sub),
			pbt.MakeEnum("headers", enumHeaders, runC01),
		},
	}
}

// enumFlagBytes enumerates every presence-flag combination of the optional
// subrecords with distinct values in every field.
func enumFlagBytes(tier string, yield func(subCase) bool) {
	p8 := func(v byte) *byte { return &v }
	p16 := func(v uint16) *uint16 { return &v }
	p32 := func(v uint32) *uint32 { return &v }
	for f := 0; f < 256; f++ {
		on := func(i int) bool { return f>>uint(i)&1 == 1 }
		b := func(i int) byte { return byte(f >> uint(i) & 1) }
		pos := &ref.Pos{NTM: 0x01020304 + uint32(f), LAT: 0x11223344, LONG: 0x55667788, ALTE: b(7), LOHS: b(6), LAHS: b(5), MV: b(4),
			BB: b(3), CS: b(2), FIX: b(1), VLD: b(0), SPD: 0x1234, DIR: 77, ODM: 0xA1B2C3, DIN: 0xD4, SRC: 0xE5}
		if pos.ALTE == 1 {
			pos.ALT = 0x9A8B7C
		}
		cnt := &ref.Counters{}
		ad1, ad2 := &ref.AD{DOUT: 0x5A}, &ref.AD{DOUT: 0xA5}
		for i := 0; i < 8; i++ {
			if on(i) {
				cnt.CN[i] = p32(uint32(0x010203 * (i + 1)))
				ad1.ADIO[i] = p8(byte(0x11 * (i + 1)))
				ad2.ANS[i] = p32(uint32(0x010305 * (i + 1)))
			} else {
				ad1.ANS[i] = p32(uint32(0x020103 * (i + 1)))
			}
		}
		subs := []ref.Sub{{T: ref.TPos, Pos: pos}, {T: ref.TCounters, Cnt: cnt}, {T: ref.TAD, AD: ad1}, {T: ref.TAD, AD: ad2}}
		term := &ref.Term{TID: 0xDEADBEEF, SSRA: b(4)}
		if on(0) {
			term.HDID = p16(0x1234)
		}
		if on(1) {
			term.IMEI = []byte("123456789012345")
		}
		if on(2) {
			term.IMSI = []byte("ABCDEFGHIJKLMNOP")
		}
		if on(3) {
			term.LNGC = []byte("rus")
		}
		if on(5) {
			term.NID = []byte{9, 8, 7}
		}
		if on(6) {
			term.BS = p16(0xBEEF)
		}
		if on(7) {
			term.MSISDN = []byte("+79001234567890")
		}
		subs = append(subs, ref.Sub{T: ref.TTerm, Term: term})
		if f < 128 {
			subs = append(subs, ref.Sub{T: ref.TLLS, LLS: &ref.LLS{EF: b(6), VU: byte(f >> 4 & 3), RDF: b(3), N: byte(f & 7), MADDR: 0x1234, LLSD: 0x89ABCDEF}})
		}
		if f < 32 {
			e := &ref.Ext{}
			if on(0) {
				e.VDOP = p16(0x0102)
			}
			if on(1) {
				e.HDOP = p16(0x0304)
			}
			if on(2) {
				e.PDOP = p16(0x0506)
			}
			if on(3) {
				e.SAT = p8(17)
			}
			if on(4) {
				e.NS = p16(0x0708)
			}
			subs = append(subs, ref.Sub{T: ref.TExt, Ext: e})
		}
		if f < 8 {
			st := &ref.State{ST: 1, MPSV: 2, BBV: 3, IBV: 4, NMS: b(2), IBU: b(1), BBU: b(0)}
			subs = append(subs, ref.Sub{T: ref.TState, State: st}, ref.Sub{T: ref.TState20, State: st})
		}
		for _, s := range subs {
			if !yield(subCase{s}) {
				return
			}
		}
	}
}

// enumHeaders enumerates every value of the two flag bytes of packet and
// record (encryption off).
func enumHeaders(tier string, yield func(pktCase) bool) {
	for f := 0; f < 256; f++ {
		if f>>3&3 != 0 {
			continue
		}
		p := ref.Packet{PRV: 1, SKID: 0xA5, PRF: byte(f >> 6), RTE: byte(f >> 5 & 1), CMP: byte(f >> 2 & 1), PRI: byte(f & 3), HE: 0x5A,
			PID: 0x1234, PT: byte(f & 1)}
		if p.RTE == 1 {
			p.PRA, p.RCA, p.TTL = 0x0102, 0x0304, 0x7F
		}
		if p.PT == ref.PtResponse {
			p.RPID, p.Result = 0x5678, 0x99
		}
		for g := 0; g < 256; g += 8 {
			p.Records = nil
			for k := 0; k < 8; k++ {
				p.Records = append(p.Records, flagRecord(byte(g+k)))
			}
			if !yield(pktCase{p}) {
				return
			}
		}
	}
}

func flagRecord(g byte) ref.Record {
	v := func(n uint, x uint32) *uint32 {
		if g>>n&1 == 1 {
			return &x
		}
		return nil
	}
	one := byte(7)
	return ref.Record{RN: 0x0A0B + uint16(g), SSOD: g >> 7, RSOD: g >> 6 & 1, GRP: g >> 5 & 1, RPP: g >> 3 & 3,
		TM: v(2, 0x31323334), EVID: v(1, 0x21222324), OID: v(0, 0x11121314), SST: 2, RST: 3, Subs: []ref.Sub{{T: ref.TResult, Result: &one}}}
}
