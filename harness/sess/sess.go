// Package sess generates client sessions for the receiver.
package sess

import (
	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/ref"
)

// IDs hands out navigation times, unique within a case.
type IDs struct{ Base, Step, K uint32 }

func NewIDs(t *rapid.T) *IDs {
	b := rapid.Uint32().Draw(t, "ntm")
	if gen.Chance(t, 4, "small") {
		return &IDs{Base: b, Step: 1}
	}
	// scrambled, so that unrelated traffic does not use the same values
	return &IDs{Base: b*2654435761 + 0x5bd1e995, Step: 0x01000193}
}

func (i *IDs) Next() uint32 {
	i.K++
	return i.Base + i.K*i.Step
}

// Opt shapes generated sessions.
type Opt struct {
	Packets   int // at most
	Records   int
	NoAuth    bool
	Responses bool // response packets from the client
	Big       bool
	// Repeats: positions, records and packets that occur more than once.
	Repeats bool
}

// OtherTypes are subrecords that may be repeated in a record at will.
var OtherTypes = []byte{ref.TResponse, ref.TModule, ref.TDisp, ref.TResult, ref.TPlus, ref.TAD, ref.TAD, ref.TCounters, ref.TState20, ref.TState, ref.TAbsAn, ref.TAbsAn, ref.TAbsCntr, ref.TLLS, ref.TLLS, ref.TLLS}

func Record(t *rapid.T, id *IDs, o Opt) ref.Record {
	r := gen.Record(t, 0, gen.Opt{})
	var subs []ref.Sub
	g := gen.Opt{SrcData: true, Unknown: true}
	if !gen.Chance(t, 5, "noPos") {
		s := gen.SubOf(t, ref.TPos, g)
		s.Pos.NTM = id.Next()
		subs = append(subs, s)
	}
	if gen.Bit(t, "ext") == 1 {
		subs = append(subs, gen.SubOf(t, ref.TExt, g))
	}
	if !o.NoAuth {
		switch rapid.IntRange(0, 9).Draw(t, "auth") {
		case 8:
			subs = append(subs, gen.SubOf(t, ref.TAuth, g))
		case 9:
			subs = append(subs, gen.SubOf(t, ref.TTerm, g))
		}
	}
	if gen.Chance(t, 3, "cntr") {
		subs = append(subs, ref.Sub{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 110, V: gen.U24(t, "low")}})
		if gen.Bit(t, "high") == 1 {
			subs = append(subs, ref.Sub{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 111, V: uint32(gen.B8(t, "highv"))}})
		}
	}
	for n := rapid.IntRange(0, 4).Draw(t, "others"); n > 0; n-- {
		o := g
		o.Types = OtherTypes
		s := gen.Sub(t, o)
		if s.Abs != nil && (s.Abs.N == 110 || s.Abs.N == 111) {
			s.Abs.N = 112
		}
		subs = append(subs, s)
	}
	if len(subs) > 1 && gen.Bit(t, "shuffle") == 1 {
		subs = rapid.Permutation(subs).Draw(t, "order")
	}
	r.Subs = subs
	return r
}

// Packet draws an application-data packet (or a client's response).
func Packet(t *rapid.T, id *IDs, o Opt) *ref.Packet {
	p := gen.Header(t)
	if o.Responses && gen.Chance(t, 6, "resp") {
		p.PT = ref.PtResponse
		p.RPID, p.Result = gen.U16(t, "RPID"), gen.B8(t, "PRES")
		for n := rapid.IntRange(0, 2).Draw(t, "nrec"); n > 0; n-- {
			r := gen.Record(t, 3, gen.Opt{Types: []byte{ref.TResponse}})
			r.OID = nil
			p.Records = append(p.Records, r)
		}
		return &p
	}
	if o.Big && gen.Chance(t, 3, "big") {
		return Big(t, id, o)
	}
	max := o.Records
	if max == 0 {
		max = 4
	}
	for n := rapid.IntRange(0, max).Draw(t, "nrec"); n > 0; n-- {
		p.Records = append(p.Records, Record(t, id, o))
	}
	return &p
}

// Big draws an application-data packet of up to the maximum size that
// still carries positions.
func Big(t *rapid.T, id *IDs, o Opt) *ref.Packet {
	p := gen.Header(t)
	first, last := Record(t, id, o), Record(t, id, o)
	used := len(first.Bytes()) + len(last.Bytes())
	sizes := []int{240, 241, 243, 244, 245, 500, 1400, 4096, 8192, 32760, 32768, 65000, 65500, gen.MaxBody - 2, gen.MaxBody - 1, gen.MaxBody}
	want := rapid.SampledFrom(sizes).Draw(t, "size")
	if gen.Bit(t, "anysize") == 1 {
		want = rapid.IntRange(200, gen.MaxBody).Draw(t, "bodylen")
	}
	p.Records = []ref.Record{first}
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 3: // many positions
		for _, r := range Positions(t, id, (want-used)/(7+24)) {
			p.Records = append(p.Records, r)
		}
		p.Records = append(p.Records, last)
		return &p
	case 4: // one record with many sensors
		last.Subs = append(last.Subs, Sensors(t, want-used)...)
		p.Records = append(p.Records, last)
		return &p
	}
	if n := want - used - 7 - 3; n >= 0 {
		if gen.Bit(t, "many") == 1 {
			for want-used >= 7+7+3 {
				p.Records = append(p.Records, ref.Record{RN: uint16(len(p.Records)), SST: 2, RST: 2})
				used += 7
				if want-used < 17+7 {
					break
				}
			}
			n = want - used - 10
		}
		if n >= 0 {
			p.Records = append(p.Records, ref.Record{RN: 4242, SST: 2, RST: 2, Subs: []ref.Sub{{T: 99, Raw: gen.Blob(t, n, "fill")}}})
		}
	}
	p.Records = append(p.Records, last)
	return &p
}

// Positions makes n records with one small position each, from few draws.
func Positions(t *rapid.T, id *IDs, n int) (out []ref.Record) {
	x := rapid.Uint32().Draw(t, "positions")
	for i := 0; i < n; i++ {
		x = x*1664525 + 1013904223
		out = append(out, ref.Record{RN: uint16(i), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(),
			LAT: x, LONG: x * 7, LAHS: byte(x >> 8 & 1), LOHS: byte(x >> 9 & 1), VLD: 1, SPD: uint16(x >> 10 & 0x3FFF), DIR: byte(x >> 24), SRC: byte(x)}}}})
	}
	return
}

// Sensors makes sensor subrecords of up to n bytes, from few draws.
func Sensors(t *rapid.T, n int) (out []ref.Sub) {
	x := rapid.Uint32().Draw(t, "sensors")
	only := rapid.IntRange(0, 3).Draw(t, "sensorKind")
	for {
		x = x*1664525 + 1013904223
		k := only
		if k == 3 {
			k = int(x>>20) % 3
		}
		var s ref.Sub
		switch k {
		case 0:
			s = ref.Sub{T: ref.TLLS, LLS: &ref.LLS{VU: byte(x >> 9 & 3), N: byte(x >> 12 & 7), MADDR: uint16(x >> 3), LLSD: x}}
		case 1:
			s = ref.Sub{T: ref.TAbsAn, AbsAn: &ref.NumVal{N: byte(x >> 10), V: x >> 8}}
		default:
			a := &ref.AD{DOUT: byte(x)}
			for i := range a.ANS {
				v := (x + uint32(i)) >> 8
				a.ANS[i] = &v
			}
			s = ref.Sub{T: ref.TAD, AD: a}
		}
		l := len(ref.SubsBytes([]ref.Sub{s}))
		if n -= l; n < 0 {
			return
		}
		out = append(out, s)
	}
}

// Session draws a session of valid packets.
func Session(t *rapid.T, id *IDs, o Opt) []model.Item {
	var its []model.Item
	for n := rapid.IntRange(1, o.Packets).Draw(t, "npackets"); n > 0; n-- {
		its = append(its, model.Item{P: Packet(t, id, o)})
	}
	if o.Repeats {
		its = repeat(t, its)
	}
	return its
}

// repeat sends packets again, unchanged or with another packet identifier or
// record numbers, and records and positions again in other packets.
func repeat(t *rapid.T, its []model.Item) []model.Item {
	for n := rapid.IntRange(1, 4).Draw(t, "repeats"); n > 0; n-- {
		from := its[rapid.IntRange(0, len(its)-1).Draw(t, "from")].P
		switch rapid.IntRange(0, 4).Draw(t, "repeat") {
		case 0: // the packet again, later or at once
			at := rapid.IntRange(0, len(its)).Draw(t, "at")
			its = append(its[:at:at], append([]model.Item{{P: from}}, its[at:]...)...)
		case 1: // the packet again under another identifier
			p := *from
			p.PID = gen.U16(t, "pid")
			its = append(its, model.Item{P: &p})
		case 2: // the records again under other numbers
			p := *from
			p.PID++
			p.Records = nil
			for _, r := range from.Records {
				r.RN += uint16(rapid.IntRange(0, 3).Draw(t, "rn"))
				p.Records = append(p.Records, r)
			}
			its = append(its, model.Item{P: &p})
		default: // the last record again, within the same packet or in another
			if len(from.Records) == 0 || from.PT == ref.PtResponse {
				continue
			}
			r := from.Records[rapid.IntRange(0, len(from.Records)-1).Draw(t, "record")]
			i := rapid.IntRange(0, len(its)-1).Draw(t, "to")
			if its[i].P.PT == ref.PtResponse {
				continue
			}
			// one field of the position may be another one
			r.Subs = append([]ref.Sub{}, r.Subs...)
			for k, s := range r.Subs {
				if s.Pos == nil {
					continue
				}
				q := *s.Pos
				switch rapid.IntRange(0, 5).Draw(t, "vary") {
				case 0:
					q.NTM++
				case 1:
					q.LAT++
				case 2:
					q.LAHS ^= 1
				case 3:
					q.SPD ^= 1
				}
				r.Subs[k].Pos = &q
			}
			p := *its[i].P
			if len(p.Body())+len(r.Bytes()) > gen.MaxBody {
				continue
			}
			p.Records = append(append([]ref.Record{}, p.Records...), r)
			its[i].P = &p
		}
	}
	return its
}
