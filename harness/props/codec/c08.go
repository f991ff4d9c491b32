package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type plusCase struct {
	M *ref.PMsg
	// Around: the packet the message travels in, at position (Rec, Sub).
	P        ref.Packet
	Rec, Sub int
}

func plusStruct(m *ref.PMsg) *egts.StorageRecord {
	r := &egts.StorageRecord{}
	bridge.SetPlus(reflect.ValueOf(r).Elem(), m)
	return r
}

// accessors checks the Get methods of a decoded message against what was
// sent: the value, or zero when the field is absent.
func accessors(v reflect.Value, m *ref.PMsg) string {
	for _, d := range ref.Schema[m.Type] {
		get := v.MethodByName("Get" + bridge.GoName(d.Name))
		if !get.IsValid() || get.Type().NumIn() != 0 || get.Type().NumOut() != 1 {
			return fmt.Sprintf("%s has no accessor for %s", m.Type, d.Name)
		}
		got := get.Call(nil)[0]
		var sent []ref.PVal
		for _, f := range m.F {
			if f.Name == d.Name {
				sent = append(sent, f)
			}
		}
		if d.Repeated {
			if got.Len() != len(sent) {
				return fmt.Sprintf("the accessor for %s.%s gives %d values instead of %d", m.Type, d.Name, got.Len(), len(sent))
			}
			for i, f := range sent {
				if d.Kind == ref.KMsg {
					if s := accessors(got.Index(i), f.M); s != "" {
						return s
					}
				} else if got.Index(i).Int() != int64(int32(f.V)) {
					return fmt.Sprintf("the accessor for %s.%s gives %v instead of %d", m.Type, d.Name, got.Index(i), f.V)
				}
			}
			continue
		}
		f := ref.PVal{}
		if len(sent) > 0 {
			f = sent[len(sent)-1]
		}
		ok := true
		switch d.Kind {
		case ref.KBool:
			ok = got.Bool() == (f.V != 0)
		case ref.KFloat:
			ok = math.Float32bits(float32(got.Float())) == math.Float32bits(f.Float()) || math.IsNaN(got.Float()) && math.IsNaN(float64(f.Float()))
		case ref.KBytes:
			ok = bytes.Equal(got.Bytes(), f.B)
		case ref.KS32, ref.KSF32:
			ok = got.Int() == int64(int32(f.V))
		default:
			ok = got.Uint() == f.V
		}
		if !ok {
			return fmt.Sprintf("the accessor for %s.%s gives %v instead of %+v", m.Type, d.Name, got, f)
		}
	}
	return ""
}

func runC08(c plusCase, r *pbt.Rec) error {
	for _, f := range c.M.F {
		if f.M != nil {
			r.Class("sensor %s", f.Name)
		}
	}
	if len(c.M.F) > 3 {
		r.NonTrivial()
	}
	wire := c.M.Marshal()
	want := plusStruct(c.M)

	// decoding
	got := &egts.StorageRecord{}
	if err := got.Decode(append([]byte{}, wire...)); err != nil {
		return fmt.Errorf("valid message %x is rejected: %v", clip(wire), err)
	}
	if d := (bridge.Cmp{}).Diff(want, got); d != "" {
		return fmt.Errorf("message %x decodes wrongly: %s", clip(wire), d)
	}

	if d := accessors(reflect.ValueOf(got), c.M); d != "" {
		return fmt.Errorf("message %x: %s", clip(wire), d)
	}

	// encoding: both the decoded and a freshly built structure
	for i, s := range []*egts.StorageRecord{got, plusStruct(c.M)} {
		b, err := s.Encode()
		if err != nil {
			return fmt.Errorf("encoding failed: %v", err)
		}
		if len(b) != int(s.Length()) {
			return fmt.Errorf("reports length %d, encodes to %d", s.Length(), len(b))
		}
		m, err := ref.UnmarshalPlus("storage_record", b)
		if err != nil {
			return fmt.Errorf("encoding %d is not a message of the schema: %v (%x)", i, err, clip(b))
		}
		if m.Canon() != c.M.Canon() {
			return fmt.Errorf("encoding %d changes the content:\n got %s\nwant %s", i, m.Canon(), c.M.Canon())
		}
	}

	// transport
	p := c.P
	p.Records = append([]ref.Record{}, c.P.Records...)
	rec := &p.Records[c.Rec]
	subs := append([]ref.Sub{}, rec.Subs[:c.Sub]...)
	subs = append(subs, ref.Sub{T: ref.TPlus, Plus: c.M})
	rec.Subs = append(subs, rec.Subs[c.Sub:]...)
	r.ClassIf(len(rec.Subs) > 1, "next to other subrecords")
	dec, err := decode(p.Bytes())
	if err != nil {
		return fmt.Errorf("packet with the message: %v", err)
	}
	wantPkt := bridge.Packet(p, false)
	if d := (bridge.Cmp{}).Diff(wantPkt, dec); d != "" {
		return fmt.Errorf("packet with the message decodes wrongly: %s", d)
	}
	for i, e := range []*egts.Package{bridge.Packet(p, false), dec} {
		if i == 0 {
			// the type code can be inferred
			forEach(e, nil, func(rd *egts.RecordData) {
				if _, ok := rd.SubrecordData.(*egts.StorageRecord); ok {
					rd.SubrecordType = 0
				}
			})
		}
		out, err := e.Encode()
		if err != nil {
			return fmt.Errorf("encoding the packet: %v", err)
		}
		f, n, why := ref.ParseFrame(out)
		if why != "" || n != len(out) {
			return fmt.Errorf("encoded packet is malformed (%s): %x", why, clip(out))
		}
		body := f.Body
		if p.PT == ref.PtResponse {
			body = body[3:]
		}
		raw, why := ref.ParseRecords(body)
		if why != "" {
			return fmt.Errorf("encoded packet is malformed (%s): %x", why, clip(out))
		}
		k, at := 0, c.Sub
		if len(raw) != len(p.Records) || len(raw[c.Rec].Subs) != len(rec.Subs) {
			return fmt.Errorf("encoded packet has other records: %x", clip(out))
		}
		_ = k
		s := raw[c.Rec].Subs[at]
		if s.T != ref.TPlus {
			return fmt.Errorf("the message went out as subrecord type %d", s.T)
		}
		m, err := ref.UnmarshalPlus("storage_record", s.C)
		if err != nil {
			return fmt.Errorf("sent message: %v", err)
		}
		if m.Canon() != c.M.Canon() {
			return fmt.Errorf("sending changes the content:\n got %s\nwant %s", m.Canon(), c.M.Canon())
		}
		// and back
		back, err := decode(out)
		if err != nil {
			return fmt.Errorf("own packet: %v", err)
		}
		if d := (bridge.Cmp{CoordTol: 2}).Diff(wantPkt, back); d != "" {
			return fmt.Errorf("round trip in a packet changes it: %s", d)
		}
	}
	return nil
}

func genPlusIn(t *rapid.T, m *ref.PMsg) plusCase {
	c := plusCase{M: m, P: gen.Packet(t, gen.Opt{Types: noPlus})}
	if len(c.P.Records) == 0 {
		c.P.Records = []ref.Record{gen.Record(t, 3, gen.Opt{Types: noPlus})}
	}
	normalise(&c.P)
	c.Rec = rapid.IntRange(0, len(c.P.Records)-1).Draw(t, "rec")
	c.Sub = rapid.IntRange(0, len(c.P.Records[c.Rec].Subs)).Draw(t, "sub")
	return c
}

// enumPlus: one message per field of the schema, and one with everything.
func enumPlus(tier string, yield func(plusCase) bool) {
	base := func() *ref.PMsg {
		return &ref.PMsg{Type: "storage_record", F: []ref.PVal{{Name: "record_number", V: 0x01020304}, {Name: "time_stamp", V: 0x11121314}, {Name: "status_flags", V: 0x21222324}}}
	}
	p := ref.Packet{PRV: 1, PT: 1, PID: 3, Records: []ref.Record{{RN: 5, SST: 2, RST: 2}}}
	value := func(d ref.PFieldDef, k int) ref.PVal {
		v := ref.PVal{Name: d.Name}
		switch d.Kind {
		case ref.KBytes:
			v.B = [][]byte{{}, {0}, {1, 2, 3, byte(d.Num)}}[k%3]
		case ref.KBool:
			v.V = uint64(k % 2)
		case ref.KFloat:
			v.V = []uint64{0, 0x3F800000, 0xC2280000, 0x7F7FFFFF}[k%4]
		case ref.KEnum:
			v.V = ref.Reasons[k%len(ref.Reasons)]
		default:
			v.V = []uint64{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 127, 128, uint64(1000 + d.Num)}[k%8]
		}
		return v
	}
	all := base()
	for _, d := range ref.Schema["storage_record"] {
		if d.Kind == ref.KEnum {
			for _, x := range ref.Reasons {
				m := base()
				m.F = append(m.F, ref.PVal{Name: d.Name, V: x})
				if !yield(plusCase{M: m, P: p}) {
					return
				}
			}
			continue
		}
		if d.Kind != ref.KMsg {
			continue
		}
		full := &ref.PMsg{Type: d.Msg}
		for _, f := range ref.Schema[d.Msg] {
			full.F = append(full.F, value(f, 7))
			for k := 0; k < 8; k++ {
				m := base()
				m.F = append(m.F, ref.PVal{Name: d.Name, M: &ref.PMsg{Type: d.Msg, F: []ref.PVal{value(f, k)}}})
				if !yield(plusCase{M: m, P: p}) {
					return
				}
			}
		}
		all.F = append(all.F, ref.PVal{Name: d.Name, M: full}, ref.PVal{Name: d.Name, M: full})
	}
	yield(plusCase{M: all, P: p})
}

type missCase struct {
	M    *ref.PMsg
	Drop string
}

// runC08Missing: a message without one of its required fields is rejected
// everywhere.
func runC08Missing(c missCase, r *pbt.Rec) error {
	r.Class("without %s", c.Drop)
	r.NonTrivial()
	m := &ref.PMsg{Type: c.M.Type}
	for _, f := range c.M.F {
		if f.Name != c.Drop {
			m.F = append(m.F, f)
		}
	}
	b := m.Marshal()
	if err := new(egts.StorageRecord).Decode(b); err == nil {
		return fmt.Errorf("message %x without %s is accepted", clip(b), c.Drop)
	}
	p := ref.Packet{PRV: 1, PT: 1, Records: []ref.Record{{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPlus, Plus: m}}}}}
	if code, err := new(egts.Package).Decode(p.Bytes()); err == nil || code == 0 {
		return fmt.Errorf("packet with a message without %s is accepted", c.Drop)
	}
	s := plusStruct(m)
	if out, err := s.Encode(); err == nil {
		return fmt.Errorf("structure without %s encodes to %x", c.Drop, clip(out))
	}
	return nil
}

func c08() pbt.Property {
	return pbt.Property{
		ID: "C08",
		Rule: "storage records drawn from the published schema (every sensor kind, any subset of fields, boundary values, any field order), encoded by an independent protobuf model, " +
			"decoded, re-encoded and carried in generated packets; plus one case per schema field and value class, and messages lacking a required field; " +
			"non-trivial: more than the three required fields; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("fields", enumPlus, runC08),
			pbt.Make("message", 20000*6, 800000, func(t *rapid.T) plusCase { return genPlusIn(t, gen.Plus(t)) }, runC08),
			pbt.Make("required", 4000*6, 100000, func(t *rapid.T) missCase {
				return missCase{gen.Plus(t), rapid.SampledFrom([]string{"record_number", "time_stamp", "status_flags"}).Draw(t, "drop")}
			}, runC08Missing),
		},
	}
}
