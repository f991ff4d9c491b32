// Package gen holds the rapid generators for EGTS values. They are biased
// towards boundaries (0, 1, maximum, powers of two) and towards every
// combination of presence flags, and they only build values inside the
// documented wire ranges; hostile input is made by the mutators in mutate.go.
package gen

import (
	"math/rand"

	"pgregory.net/rapid"
	"verif/ref"
)

// U draws an unsigned integer of the given bit width, boundary-biased.
func U(t *rapid.T, bits uint, label string) uint64 {
	max := uint64(1)<<bits - 1
	switch rapid.IntRange(0, 9).Draw(t, label+".k") {
	case 0:
		return rapid.Uint64Range(0, 3).Draw(t, label) & max
	case 1:
		return max - rapid.Uint64Range(0, 2).Draw(t, label)
	case 2:
		p := rapid.IntRange(0, int(bits)-1).Draw(t, label+".p")
		v := uint64(1) << uint(p)
		return (v + rapid.Uint64Range(0, 2).Draw(t, label) - 1) & max
	default:
		return rapid.Uint64Range(0, max).Draw(t, label)
	}
}

// B8, U16, U24, U32 are the usual widths.
func B8(t *rapid.T, l string) byte    { return byte(U(t, 8, l)) }
func U16(t *rapid.T, l string) uint16 { return uint16(U(t, 16, l)) }
func U24(t *rapid.T, l string) uint32 { return uint32(U(t, 24, l)) }
func U32(t *rapid.T, l string) uint32 { return uint32(U(t, 32, l)) }

// Bit draws 0 or 1.
func Bit(t *rapid.T, l string) byte { return byte(rapid.IntRange(0, 1).Draw(t, l)) }

// Chance is true about once in n draws (false when shrunk).
func Chance(t *rapid.T, n int, l string) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }

// Bytes draws exactly n bytes.
func Bytes(t *rapid.T, n int, l string) []byte {
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, l)
}

// BytesUpTo draws 0..n bytes.
func BytesUpTo(t *rapid.T, n int, l string) []byte {
	return rapid.SliceOfN(rapid.Byte(), 0, n).Draw(t, l)
}

// Blob makes n pseudo-random bytes from one draw.
func Blob(t *rapid.T, n int, l string) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, l)))).Read(b)
	return b
}

// Text draws a byte string without zero bytes.
func Text(t *rapid.T, n int, l string) []byte {
	b := rapid.SliceOfN(rapid.ByteRange(1, 255), 0, n).Draw(t, l)
	return b
}

func fixed(t *rapid.T, n int, l string) []byte {
	if Bit(t, l+".has") == 0 {
		return nil
	}
	return Bytes(t, n, l)
}

func p8(t *rapid.T, l string) *byte {
	if Bit(t, l+".has") == 0 {
		return nil
	}
	v := B8(t, l)
	return &v
}

func p16(t *rapid.T, l string) *uint16 {
	if Bit(t, l+".has") == 0 {
		return nil
	}
	v := U16(t, l)
	return &v
}

func p24(t *rapid.T, l string) *uint32 {
	if Bit(t, l+".has") == 0 {
		return nil
	}
	v := U24(t, l)
	return &v
}

func p32(t *rapid.T, l string) *uint32 {
	if Bit(t, l+".has") == 0 {
		return nil
	}
	v := U32(t, l)
	return &v
}

// Pos draws a position subrecord (heading 0..359).
func Pos(t *rapid.T) *ref.Pos {
	p := &ref.Pos{NTM: U32(t, "NTM"), LAT: U32(t, "LAT"), LONG: U32(t, "LONG"),
		ALTE: Bit(t, "ALTE"), LOHS: Bit(t, "LOHS"), LAHS: Bit(t, "LAHS"), MV: Bit(t, "MV"), BB: Bit(t, "BB"),
		CS: Bit(t, "CS"), FIX: Bit(t, "FIX"), VLD: Bit(t, "VLD"),
		DIRH: Bit(t, "DIRH"), ALTS: Bit(t, "ALTS"), SPD: uint16(U(t, 14, "SPD")),
		ODM: U24(t, "ODM"), DIN: B8(t, "DIN"), SRC: B8(t, "SRC")}
	if p.DIRH == 1 {
		p.DIR = byte(rapid.IntRange(0, 103).Draw(t, "DIR"))
	} else {
		p.DIR = B8(t, "DIR")
	}
	if p.ALTE == 1 {
		p.ALT = U24(t, "ALT")
	}
	return p
}

// Ext draws an extended position subrecord.
func Ext(t *rapid.T) *ref.Ext {
	return &ref.Ext{VDOP: p16(t, "VDOP"), HDOP: p16(t, "HDOP"), PDOP: p16(t, "PDOP"), SAT: p8(t, "SAT"), NS: p16(t, "NS")}
}

// AD draws an analog/digital sensors subrecord.
func AD(t *rapid.T) *ref.AD {
	a := &ref.AD{DOUT: B8(t, "DOUT")}
	dm, am := B8(t, "DIOE"), B8(t, "ASFE")
	for i := 0; i < 8; i++ {
		if dm>>uint(i)&1 == 1 {
			v := B8(t, "ADIO")
			a.ADIO[i] = &v
		}
		if am>>uint(i)&1 == 1 {
			v := U24(t, "ANS")
			a.ANS[i] = &v
		}
	}
	return a
}

// Counters draws a counters subrecord.
func Counters(t *rapid.T) *ref.Counters {
	c := &ref.Counters{}
	m := B8(t, "CFE")
	for i := 0; i < 8; i++ {
		if m>>uint(i)&1 == 1 {
			v := U24(t, "CN")
			c.CN[i] = &v
		}
	}
	return c
}

// State draws a state subrecord.
func State(t *rapid.T) *ref.State {
	return &ref.State{ST: B8(t, "ST"), MPSV: B8(t, "MPSV"), BBV: B8(t, "BBV"), IBV: B8(t, "IBV"),
		NMS: Bit(t, "NMS"), IBU: Bit(t, "IBU"), BBU: Bit(t, "BBU")}
}

// LLS draws a liquid level subrecord.
func LLS(t *rapid.T) *ref.LLS {
	return &ref.LLS{EF: Bit(t, "EF"), VU: byte(rapid.IntRange(0, 3).Draw(t, "VU")), RDF: Bit(t, "RDF"),
		N: byte(rapid.IntRange(0, 7).Draw(t, "N")), MADDR: U16(t, "MADDR"), LLSD: U32(t, "LLSD")}
}

// Term draws a terminal identity subrecord.
func Term(t *rapid.T) *ref.Term {
	return &ref.Term{TID: U32(t, "TID"), SSRA: Bit(t, "SSRA"), HDID: p16(t, "HDID"), IMEI: fixed(t, 15, "IMEI"),
		IMSI: fixed(t, 16, "IMSI"), LNGC: fixed(t, 3, "LNGC"), NID: fixed(t, 3, "NID"), BS: p16(t, "BS"),
		MSISDN: fixed(t, 15, "MSISDN")}
}

// Module draws a module data subrecord.
func Module(t *rapid.T) *ref.Module {
	return &ref.Module{MT: B8(t, "MT"), VID: U32(t, "VID"), FWV: U16(t, "FWV"), SWV: U16(t, "SWV"), MD: B8(t, "MD"),
		ST: B8(t, "ST"), SRN: Text(t, 32, "SRN"), DSCR: Text(t, 32, "DSCR")}
}

// Disp draws a dispatcher identity subrecord.
func Disp(t *rapid.T) *ref.Disp {
	return &ref.Disp{DT: B8(t, "DT"), DID: U32(t, "DID"), DSCR: BytesUpTo(t, 40, "DSCR")}
}

// Auth draws an auth info subrecord.
func Auth(t *rapid.T) *ref.Auth {
	return &ref.Auth{UNM: Text(t, 32, "UNM"), UPSW: Text(t, 32, "UPSW"), SS: Text(t, 40, "SS")}
}

// PlusScalar draws a value for a scalar schema field.
func PlusScalar(t *rapid.T, d ref.PFieldDef) ref.PVal {
	v := ref.PVal{Name: d.Name}
	switch d.Kind {
	case ref.KBool:
		v.V = uint64(Bit(t, d.Name))
	case ref.KBytes:
		v.B = BytesUpTo(t, 24, d.Name)
	case ref.KEnum:
		v.V = rapid.SampledFrom(ref.Reasons).Draw(t, d.Name)
	case ref.KFloat:
		// any float but NaN (whose payload bits are not comparable)
		u := U32(t, d.Name)
		if u&0x7F800000 == 0x7F800000 && u&0x7FFFFF != 0 {
			u &= 0x7F800000 - 1
		}
		v.V = uint64(u)
	default:
		v.V = U(t, 32, d.Name)
	}
	return v
}

// Plus draws an EGTS+ storage record. Optional sensors appear each with some
// probability; with shuffle the fields go on the wire in any order.
func Plus(t *rapid.T) *ref.PMsg {
	m := &ref.PMsg{Type: "storage_record"}
	dense := Chance(t, 4, "dense")
	for _, d := range ref.Schema["storage_record"] {
		switch {
		case d.Required:
			m.F = append(m.F, PlusScalar(t, d))
		case d.Kind == ref.KEnum:
			for i := rapid.IntRange(0, 3).Draw(t, "nreasons"); i > 0; i-- {
				m.F = append(m.F, PlusScalar(t, d))
			}
		default:
			n := 0
			if dense {
				n = rapid.IntRange(0, 2).Draw(t, "n")
			} else if Chance(t, 9, "has") {
				n = rapid.IntRange(1, 2).Draw(t, "n")
			}
			for ; n > 0; n-- {
				m.F = append(m.F, ref.PVal{Name: d.Name, M: PlusSensor(t, d.Msg)})
			}
		}
	}
	if Chance(t, 3, "shuffle") {
		// keep the relative order of repeated occurrences: shuffle by moving
		// whole groups of equal names
		groups := map[string][]ref.PVal{}
		var names []string
		for _, f := range m.F {
			if groups[f.Name] == nil {
				names = append(names, f.Name)
			}
			groups[f.Name] = append(groups[f.Name], f)
		}
		names = rapid.Permutation(names).Draw(t, "order")
		m.F = nil
		for _, n := range names {
			m.F = append(m.F, groups[n]...)
		}
	}
	return m
}

// PlusSensor draws one sensor message.
func PlusSensor(t *rapid.T, typ string) *ref.PMsg {
	m := &ref.PMsg{Type: typ}
	for _, d := range ref.Schema[typ] {
		if Bit(t, "has") == 1 {
			m.F = append(m.F, PlusScalar(t, d))
		}
	}
	return m
}

// UnknownType draws a type code the library does not support.
func UnknownType(t *rapid.T) byte {
	for {
		v := B8(t, "unkT")
		if !ref.IsSupported(v) {
			return v
		}
		// move to the next unsupported code (keeps shrinking well-behaved)
		for ref.IsSupported(v) {
			v++
		}
		return v
	}
}

// Unknown draws an unsupported subrecord.
func Unknown(t *rapid.T) ref.Sub {
	s := ref.Sub{T: UnknownType(t)}
	switch rapid.IntRange(0, 5).Draw(t, "unkL") {
	case 0: // empty
	case 1:
		s.Raw = Blob(t, rapid.IntRange(1, 400).Draw(t, "n"), "blob")
	case 2: // looks like subrecords
		s.Raw = ref.SubsBytes(Subs(t, 2, Opt{}))
	default:
		s.Raw = BytesUpTo(t, 30, "raw")
	}
	return s
}

// Opt selects what a packet may contain.
type Opt struct {
	Unknown bool // unsupported subrecords
	SrcData bool // position source data
	Server  bool // restrict to what the receiver's storage model is specified for
	Types   []byte
}

// Sub draws one subrecord.
func Sub(t *rapid.T, o Opt) ref.Sub {
	types := o.Types
	if types == nil {
		types = ref.Supported
	}
	if o.Unknown && Chance(t, 6, "unk") {
		return Unknown(t)
	}
	return SubOf(t, rapid.SampledFrom(types).Draw(t, "T"), o)
}

// SubOf draws a subrecord of a given supported type.
func SubOf(t *rapid.T, typ byte, o Opt) ref.Sub {
	s := ref.Sub{T: typ}
	switch typ {
	case ref.TResponse:
		s.Resp = &ref.Resp{CRN: U16(t, "CRN"), RST: B8(t, "RST")}
	case ref.TTerm:
		s.Term = Term(t)
	case ref.TModule:
		s.Mod = Module(t)
	case ref.TDisp:
		s.Disp = Disp(t)
	case ref.TAuth:
		s.Auth = Auth(t)
	case ref.TResult:
		v := B8(t, "RCD")
		s.Result = &v
	case ref.TPlus:
		s.Plus = Plus(t)
	case ref.TPos:
		s.Pos = Pos(t)
		if o.SrcData && Bit(t, "srcd") == 1 {
			s.Pos.SRCD = Bytes(t, 2, "SRCD")
		}
	case ref.TExt:
		s.Ext = Ext(t)
	case ref.TAD:
		s.AD = AD(t)
	case ref.TCounters:
		s.Cnt = Counters(t)
	case ref.TState20, ref.TState:
		s.State = State(t)
	case ref.TAbsAn:
		s.AbsAn = &ref.NumVal{N: B8(t, "ASN"), V: U24(t, "ASV")}
	case ref.TAbsCntr:
		s.Abs = &ref.NumVal{N: B8(t, "CN"), V: U24(t, "CNV")}
	case ref.TLLS:
		s.LLS = LLS(t)
	default:
		panic("gen: unsupported type")
	}
	return s
}

// Subs draws up to n subrecords.
func Subs(t *rapid.T, n int, o Opt) []ref.Sub {
	var out []ref.Sub
	for i := rapid.IntRange(0, n).Draw(t, "nsubs"); i > 0; i-- {
		out = append(out, Sub(t, o))
	}
	return out
}

// Record draws a record with up to n subrecords.
func Record(t *rapid.T, n int, o Opt) ref.Record {
	return ref.Record{RN: U16(t, "RN"), SSOD: Bit(t, "SSOD"), RSOD: Bit(t, "RSOD"), GRP: Bit(t, "GRP"),
		RPP: byte(rapid.IntRange(0, 3).Draw(t, "RPP")), OID: p32(t, "OID"), EVID: p32(t, "EVID"), TM: p32(t, "TM"),
		SST: B8(t, "SST"), RST: B8(t, "RST"), Subs: Subs(t, n, o)}
}

// Header draws the transport header of a plain (unencrypted) packet.
func Header(t *rapid.T) ref.Packet {
	p := ref.Packet{PRV: 1, SKID: B8(t, "SKID"), PRF: byte(rapid.IntRange(0, 3).Draw(t, "PRF")), RTE: Bit(t, "RTE"),
		CMP: Bit(t, "CMP"), PRI: byte(rapid.IntRange(0, 3).Draw(t, "PRI")), HE: B8(t, "HE"), PID: U16(t, "PID"),
		PT: ref.PtAppdata}
	if p.RTE == 1 {
		p.PRA, p.RCA, p.TTL = U16(t, "PRA"), U16(t, "RCA"), B8(t, "TTL")
	}
	return p
}

// MaxBody is the largest services frame of a packet not above 65535 bytes.
const MaxBody = 65517

// Packet draws a packet of ordinary size.
func Packet(t *rapid.T, o Opt) ref.Packet {
	p := Header(t)
	if Chance(t, 4, "isResp") {
		p.PT = ref.PtResponse
		p.RPID, p.Result = U16(t, "RPID"), B8(t, "PRES")
	}
	nrec := rapid.IntRange(0, 4).Draw(t, "nrec")
	for i := 0; i < nrec; i++ {
		p.Records = append(p.Records, Record(t, 5, o))
	}
	return p
}

// BigPacket draws a packet whose body is large: thousands of records, one
// huge record, or filler up to an exact total length.
func BigPacket(t *rapid.T, o Opt) ref.Packet {
	p := Header(t)
	if Chance(t, 5, "isResp") {
		p.PT = ref.PtResponse
		p.RPID, p.Result = U16(t, "RPID"), B8(t, "PRES")
	}
	room := MaxBody - 3
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0: // many small records
		seed := rapid.Uint32().Draw(t, "seed")
		rnd := rand.New(rand.NewSource(int64(seed)))
		tmpl := Record(t, 2, o)
		size := len(tmpl.Bytes())
		n := rapid.IntRange(1, room/size).Draw(t, "n")
		if Bit(t, "full") == 1 {
			n = room / size
		}
		for i := 0; i < n; i++ {
			r := tmpl
			r.RN = uint16(rnd.Uint32())
			p.Records = append(p.Records, r)
		}
	case 1: // one record with a very long subrecord
		r := Record(t, 2, o)
		used := len(r.Bytes())
		n := rapid.IntRange(0, room-used-3-5).Draw(t, "n")
		if Bit(t, "full") == 1 {
			n = room - used - 3 - 5
		}
		r.Subs = append(r.Subs, ref.Sub{T: ref.TDisp, Disp: &ref.Disp{DT: 1, DID: U32(t, "DID"), DSCR: Blob(t, n, "blob")}})
		p.Records = append(p.Records, r)
	case 2: // one record with very many subrecords
		r := Record(t, 0, o)
		room -= len(r.Bytes())
		tmpl := Subs(t, 3, o)
		if len(tmpl) == 0 {
			tmpl = []ref.Sub{{T: ref.TAbsCntr, Abs: &ref.NumVal{N: 7, V: 9}}}
		}
		size := len(ref.SubsBytes(tmpl))
		n := rapid.IntRange(1, max(1, room/size)).Draw(t, "n")
		for i := 0; i < n && size <= room; i++ {
			r.Subs = append(r.Subs, tmpl...)
			room -= size
		}
		p.Records = append(p.Records, r)
	default: // filler to an exact body length around a power of two
		want := rapid.SampledFrom([]int{255, 256, 257, 511, 512, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 32769, 65000, 65500, MaxBody - 1, MaxBody}).Draw(t, "len")
		if p.PT == ref.PtResponse {
			want -= 3
		}
		r := Record(t, 1, o)
		base := len(r.Bytes()) + 3 + 5
		if want > base {
			r.Subs = append(r.Subs, ref.Sub{T: ref.TDisp, Disp: &ref.Disp{DT: 2, DID: 3, DSCR: Blob(t, want-base, "blob")}})
		}
		p.Records = append(p.Records, r)
	}
	return p
}
