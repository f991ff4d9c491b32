package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// The JSON form a decoded packet must have, built from the transmitted
// values. Leaves are uint64, int64, string, and the types below.
type (
	jobj  map[string]any
	jlist []any
	// jtime is an instant.
	jtime uint32
	// jcoord is a coordinate with the size of its wire unit.
	jcoord struct{ v, unit float64 }
	// jf32 is a float32.
	jf32 float32
	// jbool is a boolean.
	jbool bool
	// jb64 is a byte string in base64.
	jb64 []byte
	// jenum is a reason code, by number or by name.
	jenum uint32
)

func u[T ~uint8 | ~uint16 | ~uint32](v T) uint64 { return uint64(v) }

// opt is a value or, when it was not sent, zero.
func opt[T ~uint8 | ~uint16 | ~uint32](p *T) uint64 {
	if p == nil {
		return 0
	}
	return uint64(*p)
}

func jflag(on bool) string {
	if on {
		return "1"
	}
	return "0"
}

func jbits(v byte, n int) string {
	s := strconv.FormatUint(uint64(v), 2)
	for len(s) < n {
		s = "0" + s
	}
	return s
}

func text(b []byte) string { return string([]rune(string(b))) }

// jsub is the JSON form of a subrecord, or nil for an unsupported type.
func jsub(s ref.Sub) any {
	switch {
	case s.Pos != nil:
		p := s.Pos
		return jobj{"NTM": jtime(p.NTM), "LAT": jcoord{bridge.Lat(p.LAT), bridge.Lat(1)}, "LONG": jcoord{bridge.Lon(p.LONG), bridge.Lon(1)},
			"ALTE": jbits(p.ALTE, 1), "LOHS": jbits(p.LOHS, 1), "LAHS": jbits(p.LAHS, 1), "MV": jbits(p.MV, 1), "BB": jbits(p.BB, 1),
			"CS": jbits(p.CS, 1), "FIX": jbits(p.FIX, 1), "VLD": jbits(p.VLD, 1), "DIRH": u(p.DIRH), "ALTS": u(p.ALTS),
			"SPD": u(p.SPD / 10), "DIR": u(p.DIR | p.DIRH<<7), "ODM": u(p.ODM), "DIN": u(p.DIN), "SRC": u(p.SRC), "ALT": u(p.ALT)}
	case s.Ext != nil:
		e := s.Ext
		return jobj{"NSFE": jflag(e.NS != nil), "SFE": jflag(e.SAT != nil), "PFE": jflag(e.PDOP != nil), "HFE": jflag(e.HDOP != nil),
			"VFE": jflag(e.VDOP != nil), "VDOP": opt(e.VDOP), "HDOP": opt(e.HDOP), "PDOP": opt(e.PDOP), "SAT": opt(e.SAT), "NS": opt(e.NS)}
	case s.AD != nil:
		o := jobj{"DOUT": u(s.AD.DOUT)}
		for i := 0; i < 8; i++ {
			n := strconv.Itoa(i + 1)
			o["DIOE"+n], o["ADIO"+n] = jflag(s.AD.ADIO[i] != nil), opt(s.AD.ADIO[i])
			o["ASFE"+n], o["ANS"+n] = jflag(s.AD.ANS[i] != nil), opt(s.AD.ANS[i])
		}
		return o
	case s.Cnt != nil:
		o := jobj{}
		for i := 0; i < 8; i++ {
			n := strconv.Itoa(i + 1)
			o["CFE"+n], o["CN"+n] = jflag(s.Cnt.CN[i] != nil), opt(s.Cnt.CN[i])
		}
		return o
	case s.State != nil:
		t := s.State
		return jobj{"ST": u(t.ST), "MPSV": u(t.MPSV), "BBV": u(t.BBV), "IBV": u(t.IBV), "NMS": jbits(t.NMS, 1), "IBU": jbits(t.IBU, 1), "BBU": jbits(t.BBU, 1)}
	case s.Abs != nil:
		return jobj{"CN": u(s.Abs.N), "CNV": u(s.Abs.V)}
	case s.AbsAn != nil:
		return jobj{"SensorNumber": u(s.AbsAn.N), "Value": u(s.AbsAn.V)}
	case s.LLS != nil:
		l := s.LLS
		return jobj{"LLSEF": jbits(l.EF, 1), "LLSVU": jbits(l.VU, 2), "RDF": jbits(l.RDF, 1), "LLSN": u(l.N), "MADDR": u(l.MADDR), "LLSD": u(l.LLSD)}
	case s.Term != nil:
		t := s.Term
		return jobj{"TID": u(t.TID), "MNE": jflag(t.MSISDN != nil), "BSE": jflag(t.BS != nil), "NIDE": jflag(t.NID != nil), "SSRA": jbits(t.SSRA, 1),
			"LNGCE": jflag(t.LNGC != nil), "IMSIE": jflag(t.IMSI != nil), "IMEIE": jflag(t.IMEI != nil), "HDIDE": jflag(t.HDID != nil),
			"HDID": opt(t.HDID), "IMEI": text(t.IMEI), "IMSI": text(t.IMSI), "LNGC": text(t.LNGC), "NID": jb64(t.NID), "BS": opt(t.BS), "MSISDN": text(t.MSISDN)}
	case s.Mod != nil:
		m := s.Mod
		return jobj{"MT": int64(int8(m.MT)), "VID": u(m.VID), "FWV": u(m.FWV), "SWV": u(m.SWV), "MD": u(m.MD), "ST": u(m.ST), "SRN": text(m.SRN), "DSCR": text(m.DSCR)}
	case s.Disp != nil:
		return jobj{"DT": u(s.Disp.DT), "DID": u(s.Disp.DID), "DSCR": text(s.Disp.DSCR)}
	case s.Auth != nil:
		return jobj{"UNM": text(s.Auth.UNM), "UPSW": text(s.Auth.UPSW), "SS": text(s.Auth.SS)}
	case s.Resp != nil:
		return jobj{"CRN": u(s.Resp.CRN), "RST": u(s.Resp.RST)}
	case s.Result != nil:
		return jobj{"RCD": u(*s.Result)}
	case s.Plus != nil:
		return jplus(s.Plus)
	}
	return nil
}

func jplus(m *ref.PMsg) jobj {
	o := jobj{}
	for _, f := range m.F {
		d := ref.Def(m.Type, f.Name)
		var v any
		switch d.Kind {
		case ref.KMsg:
			v = jplus(f.M)
		case ref.KBytes:
			v = jb64(f.B)
		case ref.KBool:
			v = jbool(f.V != 0)
		case ref.KFloat:
			v = jf32(f.Float())
		case ref.KEnum:
			v = jenum(f.V)
		case ref.KS32, ref.KSF32:
			v = int64(int32(f.V))
		default:
			v = f.V
		}
		if d.Repeated {
			l, _ := o[f.Name].(jlist)
			v = append(l, v)
		}
		o[f.Name] = v // the last occurrence counts
	}
	return o
}

func jrecords(rs []ref.Record) jlist {
	out := jlist{}
	for _, r := range rs {
		subs := jlist{}
		for _, s := range r.Subs {
			if v := jsub(s); v != nil {
				subs = append(subs, jobj{"SRT": u(s.T), "SRL": uint64(len(s.Content())), "SRD": v})
			}
		}
		o := jobj{"RL": uint64(len(ref.SubsBytes(r.Subs))), "RN": u(r.RN), "SSOD": jbits(r.SSOD, 1), "RSOD": jbits(r.RSOD, 1), "GRP": jbits(r.GRP, 1),
			"RPP": jbits(r.RPP, 2), "TMFE": jflag(r.TM != nil), "EVFE": jflag(r.EVID != nil), "OBFE": jflag(r.OID != nil),
			"OID": opt(r.OID), "EVID": opt(r.EVID), "SST": u(r.SST), "RST": u(r.RST), "RD": subs}
		if r.TM != nil {
			o["TM"] = jtime(*r.TM)
		}
		out = append(out, o)
	}
	return out
}

func jpacket(p ref.Packet) jobj {
	b, body := p.Bytes(), p.Body()
	o := jobj{"PRV": u(p.PRV), "SKID": u(p.SKID), "PRF": jbits(p.PRF, 2), "RTE": jbits(p.RTE, 1), "ENA": jbits(p.ENA, 2), "CMP": jbits(p.CMP, 1),
		"PR": jbits(p.PRI, 2), "HL": uint64(p.HeaderLen()), "HE": u(p.HE), "FDL": uint64(len(body)), "PID": u(p.PID), "PT": u(p.PT),
		"PRA": u(p.PRA), "RCA": u(p.RCA), "TTL": u(p.TTL), "HCS": u(b[p.HeaderLen()-1]), "SFRCS": uint64(0)}
	if len(body) > 0 {
		o["SFRCS"] = u(ref.CRC16(body))
	}
	if p.PT == ref.PtResponse {
		o["SFRD"] = jobj{"RPID": u(p.RPID), "PR": u(p.Result), "SDR": jrecords(p.Records)}
	} else {
		o["SFRD"] = jrecords(p.Records)
	}
	return o
}

// jdiff describes the first difference between the expected form and a
// parsed document, or "". Keys that are not expected do not matter.
func jdiff(path string, want, got any) string {
	bad := func() string { return fmt.Sprintf("%s is %v instead of %v", path, got, want) }
	num := func() string { n, _ := got.(json.Number); return n.String() }
	switch w := want.(type) {
	case jobj:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is not an object but %v", path, got)
		}
		keys := make([]string, 0, len(w))
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, ok := g[k]
			if !ok {
				if b, is := w[k].(jb64); is && len(b) == 0 {
					continue
				}
				if l, is := w[k].(jlist); is && len(l) == 0 {
					continue
				}
				return fmt.Sprintf("%s.%s is missing", path, k)
			}
			if d := jdiff(path+"."+k, w[k], v); d != "" {
				return d
			}
		}
		return ""
	case jlist:
		g, ok := got.([]any)
		if !ok && (got != nil || len(w) > 0) {
			return fmt.Sprintf("%s is not a list but %v", path, got)
		}
		if len(g) != len(w) {
			return fmt.Sprintf("%s has %d entries instead of %d", path, len(g), len(w))
		}
		for i := range w {
			if d := jdiff(fmt.Sprintf("%s[%d]", path, i), w[i], g[i]); d != "" {
				return d
			}
		}
		return ""
	case uint64:
		if num() != strconv.FormatUint(w, 10) {
			return bad()
		}
	case int64:
		if num() != strconv.FormatInt(w, 10) {
			return bad()
		}
	case string:
		if g, ok := got.(string); !ok || g != w {
			return fmt.Sprintf("%s is %q instead of %q", path, got, w)
		}
	case jbool:
		if g, ok := got.(bool); !ok || g != bool(w) {
			return bad()
		}
	case jtime:
		s, _ := got.(string)
		at, err := time.Parse(time.RFC3339Nano, s)
		if err != nil || !at.Equal(bridge.At(uint32(w))) {
			return fmt.Sprintf("%s is %v instead of %v", path, got, bridge.At(uint32(w)))
		}
	case jcoord:
		g, err := strconv.ParseFloat(num(), 64)
		if err != nil || math.Abs(g-w.v) > w.unit/20 {
			return fmt.Sprintf("%s is %v instead of %v", path, got, w.v)
		}
	case jf32:
		f := float64(w)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "" // JSON has no form for it
		}
		g, err := strconv.ParseFloat(num(), 32)
		if err != nil || float32(g) != float32(w) {
			return bad()
		}
	case jb64:
		if got == nil && len(w) == 0 {
			return ""
		}
		s, ok := got.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		if !ok || err != nil || !bytes.Equal(b, w) {
			return fmt.Sprintf("%s is %v instead of base64 of %x", path, got, []byte(w))
		}
	case jenum:
		if s, ok := got.(string); ok {
			if s != ref.ReasonName(uint64(w)) {
				return bad()
			}
		} else if num() != strconv.FormatUint(uint64(w), 10) {
			return bad()
		}
	default:
		panic(fmt.Sprintf("no rule for %T", want))
	}
	return ""
}

// nonFinite tells whether the packet carries a number JSON has no form for.
func nonFinite(v any) bool {
	switch w := v.(type) {
	case jobj:
		for _, x := range w {
			if nonFinite(x) {
				return true
			}
		}
	case jlist:
		for _, x := range w {
			if nonFinite(x) {
				return true
			}
		}
	case jf32:
		return math.IsNaN(float64(w)) || math.IsInf(float64(w), 0)
	}
	return false
}

func runC29(p ref.Packet, r *pbt.Rec) error {
	e, err := decode(p.Bytes())
	if err != nil {
		return fmt.Errorf("well-formed packet is rejected: %v", err)
	}
	want := jpacket(p)
	subs := 0
	for _, rec := range p.Records {
		for _, s := range rec.Subs {
			if s.Raw == nil {
				r.Class("subrecord %d", s.T)
			}
			subs++
		}
	}
	if subs > 0 {
		r.NonTrivial()
	}
	r.ClassIf(p.PT == ref.PtResponse, "response packet")
	out, err := e.ToBytes()
	if err != nil {
		if nonFinite(want) {
			r.Class("a number JSON cannot express")
			return nil
		}
		return fmt.Errorf("ToBytes fails: %v", err)
	}
	d := json.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	var got any
	if err := d.Decode(&got); err != nil {
		return fmt.Errorf("the JSON form does not parse: %v: %s", err, clip(out))
	}
	if _, err := d.Token(); err != io.EOF {
		return fmt.Errorf("the JSON form is followed by more")
	}
	if diff := jdiff("packet", want, got); diff != "" {
		return fmt.Errorf("JSON form: %s", diff)
	}
	// neither is the packet changed, nor is the text by what comes later
	keep := append([]byte{}, out...)
	if df := (bridge.Cmp{Lengths: true}).Diff(bridge.Packet(p, true), e); df != "" {
		return fmt.Errorf("ToBytes changed the packet: %s", df)
	}
	again, err := e.ToBytes()
	if err != nil || !bytes.Equal(again, keep) || !bytes.Equal(out, keep) {
		return fmt.Errorf("a second ToBytes differs: %v", err)
	}
	return nil
}

// runC29Built: a packet put together by the program has the same form, with
// the lengths and checksums as they are in the structure.
func runC29Built(p ref.Packet, r *pbt.Rec) error {
	e := bridge.Packet(p, false)
	want := jpacket(p)
	for _, k := range []string{"HL", "FDL", "HCS", "SFRCS"} {
		want[k] = uint64(0)
	}
	sfrd := want["SFRD"]
	if o, ok := sfrd.(jobj); ok {
		sfrd = o["SDR"]
	}
	for _, x := range sfrd.(jlist) {
		rec := x.(jobj)
		rec["RL"] = uint64(0)
		for _, y := range rec["RD"].(jlist) {
			y.(jobj)["SRL"] = uint64(0)
			r.NonTrivial()
		}
	}
	out, err := e.ToBytes()
	if err != nil {
		if nonFinite(want) {
			return nil
		}
		return fmt.Errorf("ToBytes fails: %v", err)
	}
	d := json.NewDecoder(bytes.NewReader(out))
	d.UseNumber()
	var got any
	if err := d.Decode(&got); err != nil {
		return fmt.Errorf("the JSON form does not parse: %v: %s", err, clip(out))
	}
	if diff := jdiff("packet", want, got); diff != "" {
		return fmt.Errorf("JSON form of a built packet: %s", diff)
	}
	return nil
}

// enumReasons: the names of the reason codes, both ways.
func enumReasons(tier string, yield func(uint64) bool) {
	for _, v := range ref.Reasons {
		if !yield(v) {
			return
		}
	}
}

func runC29Reason(v uint64, r *pbt.Rec) error {
	r.NonTrivial()
	x, name := egts.StorageRecordReason(v), ref.ReasonName(v)
	if x.String() != name {
		return fmt.Errorf("reason %d is called %q instead of %q", v, x.String(), name)
	}
	for _, text := range []string{strconv.Quote(name), strconv.FormatUint(v, 10)} {
		var y egts.StorageRecordReason
		if err := json.Unmarshal([]byte(text), &y); err != nil || y != x {
			return fmt.Errorf("JSON %s is read as %d (%v) instead of %d", text, y, err, v)
		}
	}
	return nil
}

func c29() pbt.Property {
	o := gen.Opt{Unknown: true, SrcData: true}
	return pbt.Property{
		ID: "C29",
		Rule: "generated packets (all packet types, all subrecord types, any presence of optional fields, boundary values), decoded or built, written as JSON by Package.ToBytes, parsed, " +
			"and compared key by key with the form made from the transmitted values by an independent table of the EGTS abbreviations; non-trivial: at least one subrecord; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("reasons", enumReasons, runC29Reason),
			pbt.Make("decoded", 120000, 6000000, func(t *rapid.T) ref.Packet { p := gen.Packet(t, o); return p }, runC29),
			pbt.Make("built", 40000, 2000000, func(t *rapid.T) ref.Packet { p := gen.Packet(t, gen.Opt{}); return p }, runC29Built),
		},
	}
}
