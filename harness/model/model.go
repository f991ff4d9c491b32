// Package model is the reference model of the receiver server: what a session
// stores and how it is answered.
package model

import (
	"encoding/json"
	"fmt"
	"math"

	"verif/ref"
)

// Epoch is 2010-01-01 UTC in Unix time.
const Epoch = 1262304000

// An is an exported analog sensor.
type An struct {
	SensorNumber uint8  `json:"sensor_number"`
	Value        uint32 `json:"value"`
}

// Liquid is an exported liquid level.
type Liquid struct {
	SensorNumber uint8  `json:"sensor_number"`
	ErrorFlag    string `json:"error_flag"`
	ValueMm      uint32 `json:"value_mm"`
	ValueL       uint32 `json:"value_l"`
}

// Saved is a navigation record as a store receives it.
type Saved struct {
	Client    uint32   `json:"client"`
	PacketID  uint32   `json:"packet_id"`
	Nav       int64    `json:"navigation_unix_time"`
	Received  int64    `json:"received_unix_time"`
	Latitude  float64  `json:"latitude"`
	Longitude float64  `json:"longitude"`
	Speed     uint16   `json:"speed"`
	Pdop      uint16   `json:"pdop"`
	Hdop      uint16   `json:"hdop"`
	Vdop      uint16   `json:"vdop"`
	Nsat      uint8    `json:"nsat"`
	Ns        uint16   `json:"ns"`
	Course    uint16   `json:"course"`
	An        []An     `json:"an_sensors"`
	Liquid    []Liquid `json:"liquid_sensors"`
}

// Parse reads the serialised record.
func Parse(b string) (s Saved, err error) {
	err = json.Unmarshal([]byte(b), &s)
	return
}

// Expect is an expected save.
type Expect struct {
	Saved
	// known deviations: the values the code is known to export instead
	CourseKnown uint16
	LiqKnown    []uint32
}

// Confirm is the expected confirmation of a record.
type Confirm struct {
	RN     uint16
	Failed bool
}

// Reply is an expected packet from the server.
type Reply struct {
	ResultCode bool // the result-code packet; otherwise a response
	PID        uint16
	Code       byte
	Confirms   []Confirm
	// Service is the service type of the confirmed records when they agree.
	Service *byte
}

// Item is one element of a client's byte stream.
type Item struct {
	P *ref.Packet `json:",omitempty"`
	// Bad: a framed packet that cannot be decoded, refused with Code.
	Bad  []byte `json:",omitempty"`
	Code byte   `json:",omitempty"`
	// Junk: bytes that make the server close the connection.
	Junk []byte `json:",omitempty"`
	// Part: an incomplete packet (only as the last item).
	Part []byte `json:",omitempty"`
}

// Bytes is the wire form of the item.
func (i Item) Bytes() []byte {
	switch {
	case i.P != nil:
		return i.P.Bytes()
	case i.Bad != nil:
		return i.Bad
	case i.Junk != nil:
		return i.Junk
	}
	return i.Part
}

// Session is the model's state for one connection.
type Session struct {
	Client  uint32
	Closed  bool
	Saves   []Expect
	Replies []Reply
}

// Feed processes one item. fails tells whether a save of that navigation time
// is refused by some store.
func (s *Session) Feed(it Item, fails func(nav int64) bool) {
	if s.Closed {
		return
	}
	switch {
	case it.Junk != nil:
		s.Closed = true
	case it.Part != nil:
	case it.Bad != nil:
		s.Replies = append(s.Replies, Reply{PID: uint16(it.Bad[7]) | uint16(it.Bad[8])<<8, Code: it.Code})
	case it.P.PT == ref.PtResponse:
	default:
		s.appdata(it.P, fails)
	}
}

func (s *Session) appdata(p *ref.Packet, fails func(int64) bool) {
	rep := Reply{PID: p.PID}
	auth := false
	for i := range p.Records {
		r := &p.Records[i]
		if r.OID != nil {
			s.Client = *r.OID
		}
		if i == 0 {
			v := r.SST
			rep.Service = &v
		} else if rep.Service != nil && *rep.Service != r.SST {
			rep.Service = nil
		}
		e := Expect{}
		e.PacketID = uint32(p.PID)
		has := false
		var low, high *uint32
		for _, q := range r.Subs {
			switch {
			case q.Term != nil:
				s.Client = q.Term.TID
				auth = true
			case q.Auth != nil:
				auth = true
			case q.Pos != nil:
				has = true
				e.Nav = Epoch + int64(q.Pos.NTM)
				e.Latitude = float64(q.Pos.LAT) * 90 / 0xFFFFFFFF
				e.Longitude = float64(q.Pos.LONG) * 180 / 0xFFFFFFFF
				if q.Pos.LAHS == 1 {
					e.Latitude = -e.Latitude
				}
				if q.Pos.LOHS == 1 {
					e.Longitude = -e.Longitude
				}
				e.Speed = q.Pos.SPD / 10
				e.Course = uint16(q.Pos.DIR) | uint16(q.Pos.DIRH)<<8
				e.CourseKnown = uint16(q.Pos.DIR | q.Pos.DIRH<<7)
			case q.Ext != nil:
				e.Nsat, e.Ns, e.Pdop, e.Hdop, e.Vdop = val(q.Ext.SAT), val(q.Ext.NS), val(q.Ext.PDOP), val(q.Ext.HDOP), val(q.Ext.VDOP)
			case q.AD != nil:
				for n, a := range q.AD.ANS {
					if a != nil {
						e.An = append(e.An, An{uint8(n + 1), *a})
					}
				}
			case q.AbsAn != nil:
				e.An = append(e.An, An{q.AbsAn.N, q.AbsAn.V})
			case q.Abs != nil:
				v := q.Abs.V
				if q.Abs.N == 110 {
					low = &v
				}
				if q.Abs.N == 111 {
					high = &v
				}
			case q.LLS != nil:
				l := Liquid{SensorNumber: q.LLS.N, ErrorFlag: fmt.Sprint(q.LLS.EF)}
				known := uint32(0)
				switch q.LLS.VU {
				case 0, 1:
					l.ValueMm = q.LLS.LLSD
				case 2:
					l.ValueL = q.LLS.LLSD / 10 // the unit is 0.1 l
					known = q.LLS.LLSD * 10
				}
				e.Liquid = append(e.Liquid, l)
				e.LiqKnown = append(e.LiqKnown, known)
			}
		}
		if low != nil {
			e.PacketID = *low & 0xFFFFFF
			if high != nil {
				e.PacketID |= *high << 24
			}
		}
		e.Client = s.Client
		c := Confirm{RN: r.RN}
		if has {
			s.Saves = append(s.Saves, e)
			c.Failed = fails != nil && fails(e.Nav)
		}
		rep.Confirms = append(rep.Confirms, c)
	}
	s.Replies = append(s.Replies, rep)
	if auth {
		s.Replies = append(s.Replies, Reply{ResultCode: true})
	}
}

func val[T any](p *T) (v T) {
	if p != nil {
		v = *p
	}
	return
}

// Diff compares a stored record with the expected one, leaving out the client
// identifier; known is called for the listed deviations.
func (e Expect) Diff(g Saved, known func(string)) string {
	f := func(name string, want, got any) string {
		if want != got {
			return fmt.Sprintf("%s: stored %v, transmitted %v", name, got, want)
		}
		return ""
	}
	for _, d := range []string{
		f("packet number", e.PacketID, g.PacketID), f("navigation time", e.Nav, g.Nav), f("speed", e.Speed, g.Speed),
		f("pdop", e.Pdop, g.Pdop), f("hdop", e.Hdop, g.Hdop), f("vdop", e.Vdop, g.Vdop), f("satellites", e.Nsat, g.Nsat), f("navigation system", e.Ns, g.Ns),
	} {
		if d != "" {
			return d
		}
	}
	if math.Abs(e.Latitude-g.Latitude) > 90.0/0xFFFFFFFF/20 {
		return fmt.Sprintf("latitude: stored %v, transmitted %v", g.Latitude, e.Latitude)
	}
	if math.Abs(e.Longitude-g.Longitude) > 180.0/0xFFFFFFFF/20 {
		return fmt.Sprintf("longitude: stored %v, transmitted %v", g.Longitude, e.Longitude)
	}
	if e.Course != g.Course {
		if e.CourseKnown != g.Course {
			return f("course", e.Course, g.Course)
		}
		known("C10-course")
	}
	if len(e.An) != len(g.An) {
		return fmt.Sprintf("analog sensors: stored %v, transmitted %v", g.An, e.An)
	}
	for i := range e.An {
		if e.An[i] != g.An[i] {
			return fmt.Sprintf("analog sensors: stored %v, transmitted %v", g.An, e.An)
		}
	}
	if len(e.Liquid) != len(g.Liquid) {
		return fmt.Sprintf("liquid levels: stored %v, transmitted %v", g.Liquid, e.Liquid)
	}
	for i := range e.Liquid {
		if e.Liquid[i] == g.Liquid[i] {
			continue
		}
		w := e.Liquid[i]
		w.ValueL = e.LiqKnown[i]
		if w != g.Liquid[i] {
			return fmt.Sprintf("liquid levels: stored %v, transmitted %v", g.Liquid, e.Liquid)
		}
		known("C10-liquid-unit")
	}
	return ""
}

// ParseReplies splits what the server sent.
func ParseReplies(b []byte) ([]Reply, string) {
	var out []Reply
	for len(b) > 0 {
		f, n, why := ref.ParseFrame(b)
		if why != "" {
			return out, fmt.Sprintf("packet %d from the server: %s (%x)", len(out)+1, why, clip(b))
		}
		b = b[n:]
		if f.Raw[2]&0x1C != 0 {
			return out, fmt.Sprintf("packet %d from the server is marked as encrypted or compressed: %x", len(out)+1, clip(f.Raw))
		}
		switch f.PT {
		case ref.PtResponse:
			if len(f.Body) < 3 {
				return out, fmt.Sprintf("response without its fields: %x", f.Raw)
			}
			r := Reply{PID: uint16(f.Body[0]) | uint16(f.Body[1])<<8, Code: f.Body[2]}
			recs, why := ref.ParseRecords(f.Body[3:])
			if why != "" {
				return out, fmt.Sprintf("response from the server: %s (%x)", why, clip(f.Raw))
			}
			for i, rec := range recs {
				if i == 0 {
					v := rec.SST
					r.Service = &v
				}
				if rec.SST != rec.RST || rec.SST != *r.Service {
					return out, fmt.Sprintf("response from the server names services %d and %d", rec.SST, rec.RST)
				}
				for _, s := range rec.Subs {
					if s.T != 0 || len(s.C) != 3 {
						return out, fmt.Sprintf("response from the server contains a subrecord of type %d, length %d", s.T, len(s.C))
					}
					r.Confirms = append(r.Confirms, Confirm{RN: uint16(s.C[0]) | uint16(s.C[1])<<8, Failed: s.C[2] != 0})
				}
			}
			out = append(out, r)
		case ref.PtAppdata:
			recs, why := ref.ParseRecords(f.Body)
			if why != "" {
				return out, fmt.Sprintf("application data from the server: %s (%x)", why, clip(f.Raw))
			}
			if len(recs) != 1 || len(recs[0].Subs) != 1 || recs[0].Subs[0].T != 9 || len(recs[0].Subs[0].C) != 1 {
				return out, fmt.Sprintf("unexpected application data from the server: %x", clip(f.Raw))
			}
			if recs[0].SST != 1 || recs[0].RST != 1 {
				return out, fmt.Sprintf("result code sent for services %d, %d instead of the authorisation service", recs[0].SST, recs[0].RST)
			}
			out = append(out, Reply{ResultCode: true, Code: recs[0].Subs[0].C[0]})
		default:
			return out, fmt.Sprintf("packet of type %d from the server: %x", f.PT, clip(f.Raw))
		}
	}
	return out, ""
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// DiffReplies compares the replies with the expected ones. With status false
// the record statuses are not compared.
func DiffReplies(want, got []Reply, status bool) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		w, g := want[i], got[i]
		if w.ResultCode != g.ResultCode {
			return fmt.Sprintf("reply %d: want %s, got %s", i+1, w, g)
		}
		if w.ResultCode {
			if g.Code != 0 {
				return fmt.Sprintf("result code is %d", g.Code)
			}
			continue
		}
		if w.PID != g.PID || w.Code != g.Code {
			return fmt.Sprintf("reply %d: want %s, got %s", i+1, w, g)
		}
		if len(w.Confirms) != len(g.Confirms) {
			return fmt.Sprintf("reply %d (packet %d) confirms %d records instead of %d: want %s, got %s", i+1, w.PID, len(g.Confirms), len(w.Confirms), w, g)
		}
		for k := range w.Confirms {
			if w.Confirms[k].RN != g.Confirms[k].RN {
				return fmt.Sprintf("reply %d (packet %d), confirmation %d names record %d instead of %d", i+1, w.PID, k+1, g.Confirms[k].RN, w.Confirms[k].RN)
			}
			if status && w.Confirms[k].Failed != g.Confirms[k].Failed {
				return fmt.Sprintf("reply %d (packet %d), record %d: reported failed=%v, should be %v", i+1, w.PID, w.Confirms[k].RN, g.Confirms[k].Failed, w.Confirms[k].Failed)
			}
		}
		if w.Service != nil && g.Service != nil && len(w.Confirms) > 0 && *w.Service != *g.Service {
			return fmt.Sprintf("reply %d (packet %d) is for service %d instead of %d", i+1, w.PID, *g.Service, *w.Service)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d replies instead of %d: want %v, got %v", len(got), len(want), brief(want), brief(got))
	}
	return ""
}

func brief(r []Reply) []Reply {
	if len(r) > 8 {
		return r[:8]
	}
	return r
}

func (r Reply) String() string {
	if r.ResultCode {
		return "result-code"
	}
	c := r.Confirms
	if len(c) > 10 {
		c = c[:10]
	}
	return fmt.Sprintf("response{packet %d, result %d, records %v}", r.PID, r.Code, c)
}
