package main

import (
	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
)

func runC16(c sessCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	o, err := play(s, c.Items)
	if err != nil {
		return err
	}
	for _, it := range c.Items {
		if it.Bad != nil && asBad(it.Bad) != it.Code {
			r.Class("decoder gives another answer now")
			return nil
		}
	}
	m := modelOf(c.Items, nil)
	want := map[int64]uint32{}
	for _, e := range m.Saves {
		want[e.Nav] = e.Client
	}
	seen := 0
	for i, g := range o.saves {
		w, ok := want[g.Nav]
		if !ok {
			continue // C10
		}
		seen++
		if g.Client != w {
			return o.fail("stored record %d (navigation time %d) has client %d, should be %d", i+1, g.Nav, g.Client, w)
		}
	}
	// what the identifier of each position depends on
	var sm model.Session
	for _, it := range c.Items {
		if it.P == nil {
			r.Class("malformed packet in the session")
			continue
		}
		if it.P.PT == ref.PtResponse {
			continue
		}
		for _, rec := range it.P.Records {
			pos, term := false, false
			for _, q := range rec.Subs {
				pos = pos || q.Pos != nil
				term = term || q.Term != nil
			}
			if pos {
				r.ClassIf(term && rec.OID != nil, "terminal identity over object identifier")
				r.ClassIf(term && rec.OID == nil, "terminal identity in the record")
				r.ClassIf(!term && rec.OID != nil, "own object identifier")
				r.ClassIf(!term && rec.OID == nil && sm.Client != 0, "inherited")
				r.ClassIf(!term && rec.OID == nil && sm.Client == 0, "none")
			}
			one := *it.P
			one.Records = []ref.Record{rec}
			sm.Feed(model.Item{P: &one}, nil)
		}
	}
	if seen > 0 {
		r.NonTrivial()
	}
	return nil
}

// genIDs: sessions dense in changes of identity.
func genIDSession(t *rapid.T) sessCase {
	id := newIDs(t)
	var c sessCase
	pick := func(l string) uint32 {
		return rapid.SampledFrom([]uint32{0, 1, 2, 0xFFFFFFFF, 133552}).Draw(t, l)
	}
	for n := rapid.IntRange(1, 5).Draw(t, "packets"); n > 0; n-- {
		if gen.Chance(t, 4, "malformed") {
			c.Items = append(c.Items, genBad(t, id))
		}
		p := gen.Header(t)
		if gen.Chance(t, 8, "resp") {
			p.PT, p.RPID = ref.PtResponse, gen.U16(t, "rpid")
			c.Items = append(c.Items, model.Item{P: &p})
			continue
		}
		for k := rapid.IntRange(1, 5).Draw(t, "records"); k > 0; k-- {
			r := ref.Record{RN: uint16(k), SST: 2, RST: 2}
			if gen.Bit(t, "oid") == 1 {
				v := pick("oidv")
				r.OID = &v
			}
			if gen.Bit(t, "evid") == 1 {
				v := gen.U32(t, "evidv")
				r.EVID = &v
			}
			if gen.Bit(t, "tm") == 1 {
				v := gen.U32(t, "tmv")
				r.TM = &v
			}
			pos := ref.Sub{T: ref.TPos, Pos: &ref.Pos{NTM: id.Next(), VLD: 1}}
			term := ref.Sub{T: ref.TTerm, Term: &ref.Term{TID: pick("tid")}}
			switch rapid.IntRange(0, 7).Draw(t, "what") {
			case 0:
				r.Subs = []ref.Sub{term}
			case 1:
				r.Subs = []ref.Sub{term, pos}
			case 2:
				r.Subs = []ref.Sub{pos, term}
			case 3:
				r.Subs = []ref.Sub{{T: ref.TAuth, Auth: &ref.Auth{UNM: []byte("u"), UPSW: []byte("p")}}}
			case 4:
			default:
				r.Subs = []ref.Sub{pos}
			}
			p.Records = append(p.Records, r)
		}
		c.Items = append(c.Items, model.Item{P: &p})
	}
	return c
}

// enumC16: every sequence of three records over the kinds of records.
func enumC16(tier string, yield func(sessCase) bool) {
	kinds := 8
	n := uint32(9000)
	rec := func(kind, at int) ref.Record {
		n++
		pos := ref.Sub{T: ref.TPos, Pos: &ref.Pos{NTM: n, VLD: 1}}
		term := ref.Sub{T: ref.TTerm, Term: &ref.Term{TID: uint32(200 + at)}}
		r := ref.Record{RN: uint16(at), SST: 2, RST: 2}
		oid := uint32(100 + at)
		if kind >= 4 {
			r.OID = &oid
		}
		switch kind % 4 {
		case 0:
			r.Subs = []ref.Sub{pos}
		case 1:
			r.Subs = []ref.Sub{term, pos}
		case 2:
			r.Subs = []ref.Sub{pos, term}
		case 3:
			r.Subs = []ref.Sub{term}
		}
		return r
	}
	for x := 0; x < kinds*kinds*kinds; x++ {
		a, b, c := rec(x%kinds, 1), rec(x/kinds%kinds, 2), rec(x/kinds/kinds, 3)
		p := func(pid uint16, rs ...ref.Record) *ref.Packet {
			return &ref.Packet{PRV: 1, PID: pid, PT: 1, Records: rs}
		}
		for _, its := range [][]model.Item{items(p(1, a, b, c)), items(p(1, a), p(2, b, c)), items(p(1, a), p(2, b), p(3, c))} {
			if !yield(sessCase{its}) {
				return
			}
		}
	}
}

func c16() pbt.Property {
	return pbt.Property{
		ID: "C16",
		Rule: "sessions dense in object identifiers and terminal identities (values 0, 1, 2, maximum), malformed and response packets between them, in all arrangements over records and packets (all triples of record kinds in all packetings enumerated), " +
			"the client of every stored position compared with the model; non-trivial: at least one position is stored; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("triples", enumC16, guarded(runC16)),
			pbt.Make("identities", 30000, 1500000, genIDSession, guarded(runC16)),
			pbt.Make("session", 10000, 500000, genSess(sopt{Packets: 6, Responses: true}), guarded(runC16)),
		},
	}
}
