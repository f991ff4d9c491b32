package main

import (
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// insertion puts an unsupported subrecord into a record.
type insertion struct {
	Rec, At int
	S       ref.Sub
}

type skipCase struct {
	P   ref.Packet
	Ins []insertion
	// Src: source data appended to the n-th position subrecord.
	Src map[int][]byte `json:",omitempty"`
}

// apply returns the packet with the insertions, sharing nothing with c.P.
func (c skipCase) apply() ref.Packet {
	p := c.P
	p.Records = nil
	k := 0
	for i, r := range c.P.Records {
		var subs []ref.Sub
		put := func(at int) {
			for _, in := range c.Ins {
				if in.Rec == i && in.At == at {
					subs = append(subs, in.S)
				}
			}
		}
		for j, s := range r.Subs {
			put(j)
			if s.Pos != nil {
				if src, ok := c.Src[k]; ok {
					q := *s.Pos
					q.SRCD = src
					s.Pos = &q
				}
				k++
			}
			subs = append(subs, s)
		}
		put(len(r.Subs))
		r.Subs = subs
		p.Records = append(p.Records, r)
	}
	return p
}

func runC09(c skipCase, r *pbt.Rec) error {
	with := c.apply()
	for _, in := range c.Ins {
		r.Class("inserted %s", lenClass(len(in.S.Raw)))
	}
	r.ClassIf(len(c.Src) > 0, "source data")
	if len(c.Ins)+len(c.Src) > 0 {
		r.NonTrivial()
	}
	if len(with.Body()) > gen.MaxBody {
		return nil
	}
	a, err := decode(c.P.Bytes())
	if err != nil {
		return fmt.Errorf("plain packet: %v", err)
	}
	wire := with.Bytes()
	b, err := decode(wire)
	if err != nil {
		return fmt.Errorf("packet %x with unsupported parts: %v", clip(wire), err)
	}
	if d := (bridge.Cmp{}).Diff(a, b); d != "" {
		return fmt.Errorf("unsupported parts in %x change the rest: %s", clip(wire), d)
	}
	// the lengths that are reported are those on the wire
	i := 0
	var bad error
	forEach(b, func(sdr *egts.ServiceDataRecord) {
		if n := len(ref.SubsBytes(with.Records[i].Subs)); int(sdr.RecordLength) != n {
			bad = fmt.Errorf("record %d reports length %d, has %d", i, sdr.RecordLength, n)
		}
		i++
	}, nil)
	return bad
}

func lenClass(n int) string {
	switch {
	case n == 0:
		return "empty"
	case n < 100:
		return "short"
	default:
		return "long"
	}
}

func genSkip(t *rapid.T) skipCase {
	c := skipCase{P: gen.Packet(t, gen.Opt{})}
	if len(c.P.Records) == 0 {
		c.P.Records = []ref.Record{gen.Record(t, 3, gen.Opt{})}
	}
	for n := rapid.IntRange(1, 4).Draw(t, "nins"); n > 0; n-- {
		rec := rapid.IntRange(0, len(c.P.Records)-1).Draw(t, "rec")
		in := insertion{Rec: rec, At: rapid.IntRange(0, len(c.P.Records[rec].Subs)).Draw(t, "at"), S: gen.Unknown(t)}
		if gen.Chance(t, 40, "huge") {
			in.S.Raw = gen.Blob(t, rapid.IntRange(1000, 60000).Draw(t, "hugeN"), "huge")
		}
		c.Ins = append(c.Ins, in)
	}
	for i := range bridge.PosOffsets(c.P) {
		if gen.Bit(t, "src") == 1 {
			if c.Src == nil {
				c.Src = map[int][]byte{}
			}
			n := 2
			switch rapid.IntRange(0, 3).Draw(t, "srclen") {
			case 1:
				n = rapid.IntRange(1, 40).Draw(t, "srcn")
			case 2:
				n = rapid.SampledFrom([]int{1, 3, 4, 8, 200, 255, 256, 300, 1000, 65535 - 24}).Draw(t, "srcn")
			}
			c.Src[i] = gen.Blob(t, n, "srcd")
		}
	}
	return c
}

// enumSkip: every unsupported type code before, between and after.
func enumSkip(tier string, yield func(skipCase) bool) {
	one := byte(0x42)
	p := ref.Packet{PRV: 1, PT: 1, PID: 9, Records: []ref.Record{
		{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: 1, LAT: 2, LONG: 3, ALTE: 1, ALT: 0x123456}}, {T: ref.TResult, Result: &one}}},
		{RN: 2, SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 110, V: 0x778899}}}}}}
	for n := 0; n < 600; n++ {
		src := make([]byte, n)
		for i := range src {
			src[i] = byte(n*31 + i)
		}
		if !yield(skipCase{P: p, Src: map[int][]byte{0: src}}) {
			return
		}
	}
	for code := 0; code < 256; code++ {
		if ref.IsSupported(byte(code)) {
			continue
		}
		for _, n := range []int{0, 1, 2, 3, 5, 16, 255, 256, 257} {
			raw := make([]byte, n)
			for i := range raw {
				raw[i] = byte(code + i)
			}
			for rec := 0; rec < 2; rec++ {
				for at := 0; at <= len(p.Records[rec].Subs); at++ {
					if !yield(skipCase{P: p, Ins: []insertion{{rec, at, ref.Sub{T: byte(code), Raw: raw}}}}) {
						return
					}
				}
			}
		}
	}
}

func c09() pbt.Property {
	return pbt.Property{
		ID: "C09",
		Rule: "a generated packet is decoded with and without inserted unsupported subrecords (every unsupported type code, empty to 60 kB, content that looks like subrecords) and " +
			"position source data, and the two results are compared; non-trivial: something was inserted; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("codes", enumSkip, runC09),
			pbt.Make("insert", 40000*6, 1500000, genSkip, runC09),
		},
	}
}
