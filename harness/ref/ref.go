// Package ref is an independent model of the EGTS wire format (Order No. 285,
// GOST R 54619-2011): plain value types, an encoder and the two checksums,
// written from the published layout and sharing no code with /repo.
package ref

import "encoding/binary"

// Subrecord type codes.
const (
	TResponse = 0
	TTerm     = 1
	TModule   = 2
	TDisp     = 5
	TAuth     = 7
	TResult   = 9
	TPlus     = 15
	TPos      = 16
	TExt      = 17
	TAD       = 18
	TCounters = 19
	TState20  = 20
	TState    = 21
	TAbsAn    = 24
	TAbsCntr  = 25
	TLLS      = 27
)

// Supported lists the type codes the library decodes.
var Supported = []byte{0, 1, 2, 5, 7, 9, 15, 16, 17, 18, 19, 20, 21, 24, 25, 27}

// IsSupported tells whether the library decodes that type code.
func IsSupported(t byte) bool {
	for _, s := range Supported {
		if s == t {
			return true
		}
	}
	return false
}

// Packet types.
const (
	PtResponse = 0
	PtAppdata  = 1
)

// Packet is a transport packet.
type Packet struct {
	PRV, SKID               byte
	PRF, RTE, ENA, CMP, PRI byte
	HE                      byte
	PID                     uint16
	PT                      byte
	PRA, RCA                uint16
	TTL                     byte
	RPID                    uint16 `json:",omitempty"` // response packets
	Result                  byte   `json:",omitempty"`
	Records                 []Record
	// KeepBody replaces the encoded records (used for raw bodies).
	RawBody []byte `json:",omitempty"`
	HasRaw  bool   `json:",omitempty"`
}

// Record is a service data record.
type Record struct {
	RN                   uint16
	SSOD, RSOD, GRP, RPP byte
	OID, EVID, TM        *uint32
	SST, RST             byte
	Subs                 []Sub
}

// Sub is one subrecord; exactly one of the pointers (or Raw) is set.
type Sub struct {
	T      byte
	Pos    *Pos      `json:",omitempty"`
	Ext    *Ext      `json:",omitempty"`
	AD     *AD       `json:",omitempty"`
	Cnt    *Counters `json:",omitempty"`
	State  *State    `json:",omitempty"`
	Abs    *NumVal   `json:",omitempty"`
	AbsAn  *NumVal   `json:",omitempty"`
	LLS    *LLS      `json:",omitempty"`
	Term   *Term     `json:",omitempty"`
	Mod    *Module   `json:",omitempty"`
	Disp   *Disp     `json:",omitempty"`
	Auth   *Auth     `json:",omitempty"`
	Resp   *Resp     `json:",omitempty"`
	Result *byte     `json:",omitempty"`
	Plus   *PMsg     `json:",omitempty"`
	Raw    []byte    `json:",omitempty"` // unsupported types: opaque content
}

// Pos is EGTS_SR_POS_DATA.
type Pos struct {
	NTM, LAT, LONG uint32
	ALTE           byte
	LOHS, LAHS     byte
	MV, BB, CS     byte
	FIX, VLD       byte
	DIRH, ALTS     byte
	SPD            uint16 // 14 bits, 0.1 km/h
	DIR            byte
	ODM            uint32 // 24 bits
	DIN, SRC       byte
	ALT            uint32 // 24 bits, present when ALTE
	SRCD           []byte `json:",omitempty"` // source data (0 or 2 bytes)
}

// Ext is EGTS_SR_EXT_POS_DATA.
type Ext struct {
	VDOP, HDOP, PDOP *uint16
	SAT              *byte
	NS               *uint16
}

// AD is EGTS_SR_AD_SENSORS_DATA.
type AD struct {
	DOUT byte
	ADIO [8]*byte
	ANS  [8]*uint32 // 24 bits
}

// Counters is EGTS_SR_COUNTERS_DATA.
type Counters struct {
	CN [8]*uint32 // 24 bits
}

// State is EGTS_SR_STATE_DATA.
type State struct {
	ST, MPSV, BBV, IBV byte
	NMS, IBU, BBU      byte
}

// NumVal is EGTS_SR_ABS_CNTR_DATA and EGTS_SR_ABS_AN_SENS_DATA.
type NumVal struct {
	N byte
	V uint32 // 24 bits
}

// LLS is EGTS_SR_LIQUID_LEVEL_SENSOR.
type LLS struct {
	EF, VU, RDF, N byte
	MADDR          uint16
	LLSD           uint32
}

// Term is EGTS_SR_TERM_IDENTITY.
type Term struct {
	TID    uint32
	SSRA   byte
	HDID   *uint16
	IMEI   []byte // 15
	IMSI   []byte // 16
	LNGC   []byte // 3
	NID    []byte // 3
	BS     *uint16
	MSISDN []byte // 15
}

// Module is EGTS_SR_MODULE_DATA.
type Module struct {
	MT       byte
	VID      uint32
	FWV, SWV uint16
	MD, ST   byte
	SRN      []byte // no zero byte
	DSCR     []byte // no zero byte
}

// Disp is EGTS_SR_DISPATCHER_IDENTITY.
type Disp struct {
	DT   byte
	DID  uint32
	DSCR []byte
}

// Auth is EGTS_SR_AUTH_INFO.
type Auth struct {
	UNM, UPSW, SS []byte // no zero bytes; SS absent when empty
}

// Resp is EGTS_SR_RECORD_RESPONSE.
type Resp struct {
	CRN uint16
	RST byte
}

// CRC8 is the header checksum: polynomial x^8+x^5+x^4+1, initial value 0xFF,
// most significant bit first (table-driven, unlike the code under test).
func CRC8(b []byte) byte {
	c := byte(0xFF)
	for _, x := range b {
		c = t8[c^x]
	}
	return c
}

// CRC16 is the body checksum: polynomial x^16+x^12+x^5+1, initial 0xFFFF.
func CRC16(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c = c<<8 ^ t16[byte(c>>8)^x]
	}
	return c
}

var (
	t8  [256]byte
	t16 [256]uint16
)

func init() {
	for i := 0; i < 256; i++ {
		a := uint(i)
		b := uint(i) << 8
		for k := 0; k < 8; k++ {
			a <<= 1
			if a&0x100 != 0 {
				a ^= 0x131
			}
			b <<= 1
			if b&0x10000 != 0 {
				b ^= 0x11021
			}
		}
		t8[i] = byte(a)
		t16[i] = uint16(b)
	}
	if CRC8([]byte("123456789")) != 0xF7 || CRC16([]byte("123456789")) != 0x29B1 {
		panic("ref: checksum self-test failed")
	}
}

func u16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func u24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func u32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func bit(on bool, n uint) byte {
	if on {
		return 1 << n
	}
	return 0
}

// Content is the encoded subrecord data (without type and length).
func (s Sub) Content() []byte {
	var b []byte
	switch {
	case s.Pos != nil:
		p := s.Pos
		b = u32(u32(u32(b, p.NTM), p.LAT), p.LONG)
		b = append(b, p.ALTE<<7|p.LOHS<<6|p.LAHS<<5|p.MV<<4|p.BB<<3|p.CS<<2|p.FIX<<1|p.VLD)
		b = u16(b, p.SPD&0x3FFF|uint16(p.ALTS)<<14|uint16(p.DIRH)<<15)
		b = append(b, p.DIR)
		b = u24(b, p.ODM)
		b = append(b, p.DIN, p.SRC)
		if p.ALTE == 1 {
			b = u24(b, p.ALT)
		}
		b = append(b, p.SRCD...)
	case s.Ext != nil:
		e := s.Ext
		b = append(b, bit(e.VDOP != nil, 0)|bit(e.HDOP != nil, 1)|bit(e.PDOP != nil, 2)|bit(e.SAT != nil, 3)|bit(e.NS != nil, 4))
		for _, p := range []*uint16{e.VDOP, e.HDOP, e.PDOP} {
			if p != nil {
				b = u16(b, *p)
			}
		}
		if e.SAT != nil {
			b = append(b, *e.SAT)
		}
		if e.NS != nil {
			b = u16(b, *e.NS)
		}
	case s.AD != nil:
		var d, a byte
		for i := 0; i < 8; i++ {
			d |= bit(s.AD.ADIO[i] != nil, uint(i))
			a |= bit(s.AD.ANS[i] != nil, uint(i))
		}
		b = append(b, d, s.AD.DOUT, a)
		for _, p := range s.AD.ADIO {
			if p != nil {
				b = append(b, *p)
			}
		}
		for _, p := range s.AD.ANS {
			if p != nil {
				b = u24(b, *p)
			}
		}
	case s.Cnt != nil:
		var f byte
		for i := 0; i < 8; i++ {
			f |= bit(s.Cnt.CN[i] != nil, uint(i))
		}
		b = append(b, f)
		for _, p := range s.Cnt.CN {
			if p != nil {
				b = u24(b, *p)
			}
		}
	case s.State != nil:
		t := s.State
		b = append(b, t.ST, t.MPSV, t.BBV, t.IBV, t.NMS<<2|t.IBU<<1|t.BBU)
	case s.Abs != nil:
		b = u24(append(b, s.Abs.N), s.Abs.V)
	case s.AbsAn != nil:
		b = u24(append(b, s.AbsAn.N), s.AbsAn.V)
	case s.LLS != nil:
		l := s.LLS
		b = append(b, l.EF<<6|l.VU<<4|l.RDF<<3|l.N)
		b = u32(u16(b, l.MADDR), l.LLSD)
	case s.Term != nil:
		t := s.Term
		b = u32(b, t.TID)
		b = append(b, bit(t.HDID != nil, 0)|bit(t.IMEI != nil, 1)|bit(t.IMSI != nil, 2)|bit(t.LNGC != nil, 3)|
			t.SSRA<<4|bit(t.NID != nil, 5)|bit(t.BS != nil, 6)|bit(t.MSISDN != nil, 7))
		if t.HDID != nil {
			b = u16(b, *t.HDID)
		}
		b = append(b, t.IMEI...)
		b = append(b, t.IMSI...)
		b = append(b, t.LNGC...)
		b = append(b, t.NID...)
		if t.BS != nil {
			b = u16(b, *t.BS)
		}
		b = append(b, t.MSISDN...)
	case s.Mod != nil:
		m := s.Mod
		b = u16(u16(u32(append(b, m.MT), m.VID), m.FWV), m.SWV)
		b = append(b, m.MD, m.ST)
		b = append(append(b, m.SRN...), 0)
		b = append(append(b, m.DSCR...), 0)
	case s.Disp != nil:
		b = u32(append(b, s.Disp.DT), s.Disp.DID)
		b = append(b, s.Disp.DSCR...)
	case s.Auth != nil:
		b = append(append(b, s.Auth.UNM...), 0)
		b = append(append(b, s.Auth.UPSW...), 0)
		if len(s.Auth.SS) > 0 {
			b = append(append(b, s.Auth.SS...), 0)
		}
	case s.Resp != nil:
		b = append(u16(b, s.Resp.CRN), s.Resp.RST)
	case s.Result != nil:
		b = append(b, *s.Result)
	case s.Plus != nil:
		b = s.Plus.Marshal()
	default:
		b = append(b, s.Raw...)
	}
	return b
}

// Bytes is the whole subrecord.
func (s Sub) Bytes() []byte {
	c := s.Content()
	return append(u16([]byte{s.T}, uint16(len(c))), c...)
}

// SubsBytes is a record data section.
func SubsBytes(subs []Sub) []byte {
	var b []byte
	for _, s := range subs {
		b = append(b, s.Bytes()...)
	}
	return b
}

// Bytes is the whole service data record.
func (r Record) Bytes() []byte {
	d := SubsBytes(r.Subs)
	return append(r.Header(uint16(len(d))), d...)
}

// Header is the record header with the given RL.
func (r Record) Header(rl uint16) []byte {
	b := u16(u16(nil, rl), r.RN)
	b = append(b, r.SSOD<<7|r.RSOD<<6|r.GRP<<5|r.RPP<<3|bit(r.TM != nil, 2)|bit(r.EVID != nil, 1)|bit(r.OID != nil, 0))
	for _, p := range []*uint32{r.OID, r.EVID, r.TM} {
		if p != nil {
			b = u32(b, *p)
		}
	}
	return append(b, r.SST, r.RST)
}

// RecordsBytes is a services frame data section.
func RecordsBytes(rs []Record) []byte {
	var b []byte
	for _, r := range rs {
		b = append(b, r.Bytes()...)
	}
	return b
}

// Body is SFRD before encryption.
func (p Packet) Body() []byte {
	if p.HasRaw {
		return p.RawBody
	}
	var b []byte
	if p.PT == PtResponse {
		b = append(u16(b, p.RPID), p.Result)
	}
	return append(b, RecordsBytes(p.Records)...)
}

// HeaderLen is HL.
func (p Packet) HeaderLen() int {
	if p.RTE == 1 {
		return 16
	}
	return 11
}

// Bytes is the whole packet.
func (p Packet) Bytes() []byte { return p.WithBody(p.Body()) }

// WithBody is the packet carrying that SFRD.
func (p Packet) WithBody(body []byte) []byte {
	b := p.header(len(body))
	b = append(b, CRC8(b))
	if len(body) > 0 {
		b = append(b, body...)
		b = u16(b, CRC16(body))
	}
	return b
}

func (p Packet) header(bodyLen int) []byte {
	b := []byte{p.PRV, p.SKID, p.PRF<<6 | p.RTE<<5 | p.ENA<<3 | p.CMP<<2 | p.PRI, byte(p.HeaderLen()), p.HE}
	b = u16(u16(b, uint16(bodyLen)), p.PID)
	b = append(b, p.PT)
	if p.RTE == 1 {
		b = append(u16(u16(b, p.PRA), p.RCA), p.TTL)
	}
	return b
}

// Frame describes a packet as read off a stream, validated against the
// checksums and lengths.
type Frame struct {
	PID  uint16
	PT   byte
	Body []byte
	Raw  []byte
}

// ParseFrame reads one plain (unrouted or routed, unencrypted) packet at the
// start of b. It returns the frame and its size; ok is false if b does not
// start with a complete, correct packet.
func ParseFrame(b []byte) (f Frame, n int, why string) {
	if len(b) < 11 {
		return f, 0, "shorter than a header"
	}
	if b[0] != 1 {
		return f, 0, "protocol version is not 1"
	}
	hl := int(b[3])
	want := 11
	if b[2]&0x20 != 0 {
		want = 16
	}
	if hl != want {
		return f, 0, "header length contradicts the routing flag"
	}
	if len(b) < hl {
		return f, 0, "header is cut short"
	}
	if CRC8(b[:hl-1]) != b[hl-1] {
		return f, 0, "header checksum is wrong"
	}
	fdl := int(binary.LittleEndian.Uint16(b[5:7]))
	n = hl
	if fdl > 0 {
		n += fdl + 2
	}
	if len(b) < n {
		return f, 0, "body is cut short"
	}
	f = Frame{PID: binary.LittleEndian.Uint16(b[7:9]), PT: b[9], Raw: b[:n]}
	if fdl > 0 {
		f.Body = b[hl : hl+fdl]
		if CRC16(f.Body) != binary.LittleEndian.Uint16(b[hl+fdl:]) {
			return f, 0, "body checksum is wrong"
		}
	}
	return f, n, ""
}

// RawSub is a subrecord as found on the wire.
type RawSub struct {
	T byte
	C []byte
}

// RawRecord is a record as found on the wire.
type RawRecord struct {
	RN       uint16
	Flags    byte
	OID      *uint32
	SST, RST byte
	Subs     []RawSub
}

// ParseRecords splits a services frame data section.
func ParseRecords(b []byte) (rs []RawRecord, why string) {
	for len(b) > 0 {
		if len(b) < 7 {
			return nil, "record header is cut short"
		}
		rl := int(binary.LittleEndian.Uint16(b))
		r := RawRecord{RN: binary.LittleEndian.Uint16(b[2:]), Flags: b[4]}
		b = b[5:]
		for _, m := range []byte{1, 2, 4} {
			if r.Flags&m != 0 {
				if len(b) < 4 {
					return nil, "record header is cut short"
				}
				if m == 1 {
					v := binary.LittleEndian.Uint32(b)
					r.OID = &v
				}
				b = b[4:]
			}
		}
		if len(b) < 2+rl {
			return nil, "record is cut short"
		}
		r.SST, r.RST = b[0], b[1]
		d := b[2 : 2+rl]
		b = b[2+rl:]
		for len(d) > 0 {
			if len(d) < 3 {
				return nil, "subrecord header is cut short"
			}
			n := int(binary.LittleEndian.Uint16(d[1:]))
			if len(d) < 3+n {
				return nil, "subrecord is cut short"
			}
			r.Subs = append(r.Subs, RawSub{d[0], d[3 : 3+n]})
			d = d[3+n:]
		}
		rs = append(rs, r)
	}
	return rs, ""
}
