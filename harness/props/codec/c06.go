package main

import (
	"bytes"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type cutCase struct {
	P ref.Packet
	// How: "prefix" (cut the packet), "body" (cut the body, lengths and
	// checksums repaired), "content" (cut a subrecord's content, all lengths
	// repaired), "srl" (last subrecord of a record declares more than the
	// record holds), "rl" (last record declares more than the body holds).
	How string
	Rec int
	Sub int
	N   int
}

func mustReject(b []byte, what string) error {
	p := &egts.Package{}
	code, err := p.Decode(append([]byte{}, b...))
	if err == nil || code == 0 {
		return fmt.Errorf("%s is accepted (code %d, err %v): %x", what, code, err, clip(b))
	}
	return nil
}

// headerOnly handles the one listed finding of C06: when the header of record
// k is the very last thing in the section although it declares rl bytes of
// data, the library (its TestServiceDataRecord_Decode demands it) accepts the
// record as empty. Exactly that outcome, or a rejection, is tolerated.
func headerOnly(p ref.Packet, k int, rl uint16, b []byte, r *pbt.Rec) error {
	got := &egts.Package{}
	code, err := got.Decode(append([]byte{}, b...))
	if err != nil {
		if code == 0 {
			return fmt.Errorf("rejected with code 0: %v", err)
		}
		return nil
	}
	q := p
	q.Records = append([]ref.Record{}, p.Records[:k+1]...)
	q.Records[k].Subs = nil
	want := bridge.Packet(q, false)
	if d := (bridge.Cmp{}).Diff(want, got); d != "" {
		return fmt.Errorf("packet %x ending in a bare record header is accepted with other content: %s", clip(b), d)
	}
	var last *egts.ServiceDataRecord
	forEach(got, func(s *egts.ServiceDataRecord) { last = s }, nil)
	if last == nil || last.RecordLength != rl {
		return fmt.Errorf("packet %x ending in a bare record header reports another record length", clip(b))
	}
	r.Known("C06-bare-record-header")
	return nil
}

// mustRejectContent tells whether that content is too short for its type.
func mustRejectContent(s ref.Sub, c []byte) bool {
	full := s.Content()
	if len(c) >= len(full) {
		return false
	}
	switch s.T {
	case ref.TPos:
		return len(c) < len(full)-len(s.Pos.SRCD)
	case ref.TDisp:
		return len(c) < 5
	case ref.TAuth:
		// user name and password must be terminated; a started server
		// sequence must be terminated
		n := bytes.Count(c, []byte{0})
		return n < 2 || c[len(c)-1] != 0
	case ref.TPlus:
		m, err := ref.UnmarshalPlus("storage_record", c)
		if err != nil {
			return true
		}
		have := map[string]bool{}
		for _, f := range m.F {
			have[f.Name] = true
		}
		return !(have["record_number"] && have["time_stamp"] && have["status_flags"])
	case ref.TLLS:
		// raw data of unspecified length when RDF is set
		return s.LLS.RDF == 0 || len(c) < 3
	}
	if !ref.IsSupported(s.T) {
		return false
	}
	return true
}

func runC06(c cutCase, r *pbt.Rec) error {
	p := c.P
	wire := p.Bytes()
	switch c.How {
	case "prefix":
		n := c.N % len(wire)
		r.NonTrivial()
		r.Class("prefix")
		return mustReject(wire[:n], fmt.Sprintf("the first %d of %d bytes of a packet", n, len(wire)))
	case "body":
		body := p.Body()
		if len(body) == 0 {
			return nil
		}
		n := c.N % len(body)
		// record boundaries are valid places to end
		off := 0
		if p.PT == ref.PtResponse {
			off = 3
		}
		ok := map[int]bool{off: true}
		for _, rec := range p.Records {
			off += len(rec.Bytes())
			ok[off] = true
		}
		if ok[n] || n == 0 {
			return nil
		}
		r.NonTrivial()
		r.Class("body")
		// the cut right after a record header is the listed finding
		h := 0
		if p.PT == ref.PtResponse {
			h = 3
		}
		for k, rec := range p.Records {
			data := len(ref.SubsBytes(rec.Subs))
			if h+len(rec.Header(0)) == n && data > 0 {
				return headerOnly(p, k, uint16(data), p.WithBody(body[:n]), r)
			}
			h += len(rec.Bytes())
		}
		return mustReject(p.WithBody(body[:n]), fmt.Sprintf("a body cut to %d of %d bytes", n, len(body)))
	case "content", "srl":
		if len(p.Records) == 0 {
			return nil
		}
		i := c.Rec % len(p.Records)
		recs := append([]ref.Record{}, p.Records...)
		rec := recs[i]
		if len(rec.Subs) == 0 {
			return nil
		}
		subs := append([]ref.Sub{}, rec.Subs...)
		if c.How == "srl" {
			j := len(subs) - 1
			s := subs[j]
			content := s.Content()
			decl := len(content) + 1 + c.N%200
			if c.N%3 == 0 {
				decl = min(65535, len(content)+1+c.N)
			}
			if decl > 65535 || s.T == ref.TState20 {
				return nil
			}
			data := ref.SubsBytes(subs[:j])
			data = append(data, s.T, byte(decl), byte(decl>>8))
			data = append(data, content...)
			body := bodyWith(p, recs, i, data)
			r.NonTrivial()
			r.Class("srl %d", s.T)
			return mustReject(p.WithBody(body), fmt.Sprintf("a subrecord of type %d declaring %d bytes where %d are available", s.T, decl, len(content)))
		}
		j := c.Sub % len(subs)
		s := subs[j]
		full := s.Content()
		if len(full) == 0 {
			return nil
		}
		cut := full[:c.N%len(full)]
		if !mustRejectContent(s, cut) {
			r.Class("content: still complete")
			return nil
		}
		r.NonTrivial()
		r.Class("content %d", s.T)
		subs[j] = ref.Sub{T: s.T, Raw: cut}
		body := bodyWith(p, recs, i, ref.SubsBytes(subs))
		if err := mustReject(p.WithBody(body), fmt.Sprintf("a subrecord of type %d with %d of %d bytes", s.T, len(cut), len(full))); err != nil {
			return err
		}
		if d := bridge.New(s.T); d != nil && s.T != ref.TState20 {
			if err := d.Decode(append([]byte{}, cut...)); err == nil {
				return fmt.Errorf("decoder of type %d accepts %d of %d bytes: %x", s.T, len(cut), len(full), cut)
			}
		}
		return nil
	case "rl":
		if len(p.Records) == 0 {
			return nil
		}
		i := len(p.Records) - 1
		data := ref.SubsBytes(p.Records[i].Subs)
		decl := len(data) + 1 + c.N%300
		if c.N%3 == 0 {
			decl = min(65535, len(data)+1+c.N)
		}
		if decl > 65535 {
			return nil
		}
		var body []byte
		if p.PT == ref.PtResponse {
			body = append(body, byte(p.RPID), byte(p.RPID>>8), p.Result)
		}
		body = append(body, ref.RecordsBytes(p.Records[:i])...)
		body = append(body, p.Records[i].Header(uint16(decl))...)
		body = append(body, data...)
		r.NonTrivial()
		r.Class("rl")
		if len(data) == 0 {
			return headerOnly(p, i, uint16(decl), p.WithBody(body), r)
		}
		return mustReject(p.WithBody(body), fmt.Sprintf("a record declaring %d bytes where %d are available", decl, len(data)))
	}
	return nil
}

// bodyWith is the body with record i's data section replaced.
func bodyWith(p ref.Packet, recs []ref.Record, i int, data []byte) []byte {
	var body []byte
	if p.PT == ref.PtResponse {
		body = append(body, byte(p.RPID), byte(p.RPID>>8), p.Result)
	}
	for k, rec := range recs {
		if k == i {
			body = append(body, rec.Header(uint16(len(data)))...)
			body = append(body, data...)
		} else {
			body = append(body, rec.Bytes()...)
		}
	}
	return body
}

func genC06(t *rapid.T) cutCase {
	c := cutCase{How: rapid.SampledFrom([]string{"prefix", "body", "content", "content", "srl", "rl"}).Draw(t, "how")}
	c.P = gen.Packet(t, gen.Opt{Unknown: c.How != "content", SrcData: true})
	if c.How != "prefix" && c.How != "body" && len(c.P.Records) == 0 {
		c.P.Records = []ref.Record{gen.Record(t, 3, gen.Opt{})}
	}
	if c.How == "content" || c.How == "srl" {
		c.Rec = rapid.IntRange(0, len(c.P.Records)-1).Draw(t, "rec")
		if len(c.P.Records[c.Rec].Subs) == 0 {
			c.P.Records[c.Rec].Subs = []ref.Sub{gen.Sub(t, gen.Opt{})}
		}
		c.Sub = rapid.IntRange(0, len(c.P.Records[c.Rec].Subs)-1).Draw(t, "sub")
	}
	c.N = rapid.IntRange(0, 60000).Draw(t, "n")
	if gen.Bit(t, "smallN") == 1 {
		c.N = rapid.IntRange(0, 64).Draw(t, "n2")
	}
	return c
}

// enumC06: every prefix and every content cut of a set of subrecords with all
// optional fields present, alone and followed by another subrecord/record.
func enumC06(tier string, yield func(cutCase) bool) {
	zero := byte(1)
	tail := ref.Sub{T: ref.TResult, Result: &zero}
	seen := map[byte]int{}
	var subs []ref.Sub
	enumFlagBytes(tier, func(s subCase) bool {
		seen[s.S.T]++
		if k := seen[s.S.T]; k == 1 || k&(k-1) == 0 || k >= 250 {
			subs = append(subs, s.S)
		}
		return true
	})
	subs = append(subs, ref.Sub{T: ref.TResponse, Resp: &ref.Resp{CRN: 0x102, RST: 3}}, tail,
		ref.Sub{T: ref.TModule, Mod: &ref.Module{MT: 1, VID: 2, FWV: 3, SWV: 4, MD: 5, ST: 6, SRN: []byte("abc"), DSCR: []byte("de")}},
		ref.Sub{T: ref.TDisp, Disp: &ref.Disp{DT: 1, DID: 2}}, ref.Sub{T: ref.TAuth, Auth: &ref.Auth{UNM: []byte("u"), UPSW: []byte("p"), SS: []byte("s")}},
		ref.Sub{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 1, V: 0x030201}}, ref.Sub{T: ref.TAbsAn, AbsAn: &ref.NumVal{N: 1, V: 0x030201}})
	for _, s := range subs {
		for shape := 0; shape < 3; shape++ {
			p := ref.Packet{PRV: 1, PID: 1, PT: 1, Records: []ref.Record{{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{s}}}}
			if shape == 1 {
				p.Records[0].Subs = append(p.Records[0].Subs, tail, tail)
			}
			if shape == 2 {
				p.Records = append(p.Records, ref.Record{RN: 2, SST: 2, RST: 2, Subs: []ref.Sub{tail, s}})
			}
			for n := 0; n < len(s.Content()); n++ {
				if !yield(cutCase{P: p, How: "content", N: n}) {
					return
				}
			}
			for n := 0; n < len(p.Bytes()); n++ {
				if !yield(cutCase{P: p, How: "prefix", N: n}) || !yield(cutCase{P: p, How: "body", N: n}) {
					return
				}
			}
			for n := 0; n < 12; n++ {
				if !yield(cutCase{P: p, How: "srl", N: n}) || !yield(cutCase{P: p, How: "rl", N: n}) || !yield(cutCase{P: p, How: "srl", Rec: 1, N: n}) {
					return
				}
			}
		}
	}
}

func c06() pbt.Property {
	return pbt.Property{
		ID: "C06",
		Rule: "valid packets cut at any byte, with the body or a subrecord's content cut and every length and checksum repaired, or with a record/subrecord length declared beyond the available bytes " +
			"(all cut points of every subrecord type enumerated, plus generated packets); non-trivial: the cut removes a byte that the flags announce, so rejection is required; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("all-cuts", enumC06, runC06),
			pbt.Make("cut", 80000*6, 3000000, genC06, runC06),
		},
	}
}
