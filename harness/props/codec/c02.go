package main

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type encCase struct {
	P ref.Packet
	// Preset: lengths (and HL) are given by the caller instead of left zero.
	Preset bool
	// Infer: the subrecord type codes are left zero where they can be inferred.
	Infer bool
	// Zone shifts the time zone of the time values (minutes).
	Zone int
	// Stray fills the optional fields whose presence flag is not set.
	Stray bool `json:",omitempty"`
	// Coord replaces the coordinates of position i by these (degrees).
	Coord [][2]float64 `json:",omitempty"`
}

// normalise brings a packet to values the structures can express: whole km/h
// and no source data.
func normalise(p *ref.Packet) {
	for i := range p.Records {
		for j := range p.Records[i].Subs {
			if q := p.Records[i].Subs[j].Pos; q != nil {
				q.SPD = q.SPD / 10 * 10
				q.SRCD = nil
			}
		}
	}
}

// noPlus: EGTS+ subrecords have no single byte form (protobuf field order is
// free); C08 decides them.
var noPlus = func() (out []byte) {
	for _, t := range ref.Supported {
		if t != ref.TPlus {
			out = append(out, t)
		}
	}
	return
}()

func genEnc(big bool) func(t *rapid.T) encCase {
	return func(t *rapid.T) encCase {
		var c encCase
		if big {
			c.P = gen.BigPacket(t, gen.Opt{Types: noPlus})
		} else {
			c.P = gen.Packet(t, gen.Opt{Types: noPlus})
		}
		normalise(&c.P)
		c.Preset = gen.Bit(t, "preset") == 1
		c.Infer = gen.Bit(t, "infer") == 1
		c.Stray = gen.Bit(t, "stray") == 1
		if gen.Chance(t, 3, "zone") {
			c.Zone = rapid.IntRange(-720, 720).Draw(t, "zoneMin")
		}
		if !big && gen.Chance(t, 3, "coord") {
			for range bridge.PosOffsets(c.P) {
				c.Coord = append(c.Coord, [2]float64{rapid.Float64Range(0, 90).Draw(t, "lat"), rapid.Float64Range(0, 180).Draw(t, "lon")})
			}
		}
		return c
	}
}

// forEach visits every record data entry of a packet structure.
func forEach(p *egts.Package, rec func(*egts.ServiceDataRecord), sub func(*egts.RecordData)) {
	var sds *egts.ServiceDataSet
	switch b := p.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		sds = b
	case *egts.PtResponse:
		sds, _ = b.SDR.(*egts.ServiceDataSet)
	}
	if sds == nil {
		return
	}
	for i := range *sds {
		if rec != nil {
			rec(&(*sds)[i])
		}
		if sub != nil {
			for j := range (*sds)[i].RecordDataSet {
				sub(&(*sds)[i].RecordDataSet[j])
			}
		}
	}
}

// optional lists, per structure, presence flags and their fields.
var optional = map[string][][2]string{
	"ServiceDataRecord": {{"TimeFieldExists", "Time"}, {"EventIDFieldExists", "EventIdentifier"}, {"ObjectIDFieldExists", "ObjectIdentifier"}},
	"SrPosData":         {{"ALTE", "Altitude"}},
	"SrExtPosData": {{"NavigationSystemFieldExists", "NavigationSystem"}, {"SatellitesFieldExists", "Satellites"}, {"PdopFieldExists", "PositionDilutionOfPrecision"},
		{"HdopFieldExists", "HorizontalDilutionOfPrecision"}, {"VdopFieldExists", "VerticalDilutionOfPrecision"}},
	"SrTermIdentity": {{"MNE", "MobileNumber"}, {"BSE", "BufferSize"}, {"NIDE", "NetworkIdentifier"}, {"LNGCE", "LanguageCode"}, {"IMSIE", "IMSI"},
		{"IMEIE", "IMEI"}, {"HDIDE", "HomeDispatcherIdentifier"}},
	"SrAdSensorsData": numbered("DigitalInputsOctetExists", "AdditionalDigitalInputsOctet", "AnalogSensorFieldExists", "AnalogSensor"),
	"SrCountersData":  numbered("CounterFieldExists", "Counter"),
}

func numbered(pairs ...string) (out [][2]string) {
	for i := 0; i < len(pairs); i += 2 {
		for n := 1; n <= 8; n++ {
			out = append(out, [2]string{fmt.Sprint(pairs[i], n), fmt.Sprint(pairs[i+1], n)})
		}
	}
	return
}

// structs visits every structure of the packet that has fields of its own.
func structs(p *egts.Package, f func(v reflect.Value)) {
	f(reflect.ValueOf(p).Elem())
	forEach(p, func(sdr *egts.ServiceDataRecord) { f(reflect.ValueOf(sdr).Elem()) }, func(rd *egts.RecordData) {
		if v := reflect.ValueOf(rd.SubrecordData); v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct {
			f(v.Elem())
		}
	})
}

// stray gives every optional field that is not flagged a value.
func stray(p *egts.Package) {
	structs(p, func(v reflect.Value) {
		for _, o := range optional[v.Type().Name()] {
			if v.FieldByName(o[0]).String() == "1" {
				continue
			}
			switch f := v.FieldByName(o[1]); f.Kind() {
			case reflect.String:
				f.SetString("stray")
			case reflect.Slice:
				f.SetBytes([]byte{1, 2, 3})
			case reflect.Struct:
				f.Set(reflect.ValueOf(bridge.At(77)))
			default:
				f.SetUint(0x7B)
			}
		}
	})
}

// flagCase is a packet with one flag field that has no binary form.
type flagCase struct {
	P     ref.Packet
	Which int
	Text  string
}

var notFlags = map[string]bool{"IMEI": true, "IMSI": true, "LanguageCode": true, "MobileNumber": true, "SerialNumber": true, "Description": true,
	"UserName": true, "UserPassword": true, "ServerSequence": true}

// runC02Flag: it must not be sent as something else.
func runC02Flag(c flagCase, r *pbt.Rec) error {
	e := bridge.Packet(c.P, false)
	type place struct {
		v    reflect.Value
		name string
	}
	var places []place
	structs(e, func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.Type.Kind() == reflect.String && !notFlags[f.Name] {
				places = append(places, place{v.Field(i), v.Type().Name() + "." + f.Name})
			}
		}
	})
	x := places[c.Which%len(places)]
	x.v.SetString(c.Text)
	r.NonTrivial()
	r.Class("%s", x.name)
	if b, err := e.Encode(); err == nil {
		return fmt.Errorf("a packet with %s = %q encodes to %x", x.name, c.Text, clip(b))
	}
	return nil
}

func near(a, b uint32) bool {
	d := int64(a) - int64(b)
	return d >= -1 && d <= 1
}

func runC02(c encCase, r *pbt.Rec) error {
	classify(c.P, r)
	r.ClassIf(c.Preset, "lengths preset")
	r.ClassIf(c.Infer, "types inferred")
	if hasSubs(c.P) {
		r.NonTrivial()
	}
	e := bridge.Packet(c.P, c.Preset)
	if c.Stray {
		stray(e)
		r.Class("values behind unset presence flags")
	}
	zone := time.FixedZone("z", c.Zone*60)
	k := 0
	forEach(e, func(sdr *egts.ServiceDataRecord) {
		if sdr.TimeFieldExists == "1" {
			sdr.Time = sdr.Time.In(zone)
		}
	}, func(rd *egts.RecordData) {
		if c.Infer && rd.SubrecordType != ref.TState20 {
			rd.SubrecordType = 0
		}
		if p, ok := rd.SubrecordData.(*egts.SrPosData); ok {
			p.NavigationTime = p.NavigationTime.In(zone)
			if k < len(c.Coord) {
				p.Latitude, p.Longitude = c.Coord[k][0], c.Coord[k][1]
			}
			k++
		}
	})
	got, err := e.Encode()
	if err != nil {
		return fmt.Errorf("encode failed: %v", err)
	}
	// coordinates may be off by one unit: adopt the library's choice
	want := c.P
	k = 0
	for _, po := range bridge.PosOffsets(want) {
		if len(got) < po.Off+8 {
			break
		}
		la, lo := po.Pos.LAT, po.Pos.LONG
		if k < len(c.Coord) {
			la = uint32(c.Coord[k][0] * 0xFFFFFFFF / 90)
			lo = uint32(c.Coord[k][1] * 0xFFFFFFFF / 180)
		}
		k++
		gla, glo := binary.LittleEndian.Uint32(got[po.Off:]), binary.LittleEndian.Uint32(got[po.Off+4:])
		if near(gla, la) {
			la = gla
		}
		if near(glo, lo) {
			lo = glo
		}
		saveLa, saveLo, pp := po.Pos.LAT, po.Pos.LONG, po.Pos
		pp.LAT, pp.LONG = la, lo
		defer func() { pp.LAT, pp.LONG = saveLa, saveLo }()
	}
	wire := want.Bytes()
	if string(got) != string(wire) {
		return fmt.Errorf("encoded bytes differ from the EGTS layout at offset %d:\n got %x\nwant %x", firstDiff(got, wire), clip(got), clip(wire))
	}
	again, err := e.Encode()
	if err != nil || string(again) != string(got) {
		return fmt.Errorf("second encoding differs (err %v)", err)
	}
	if n := e.ServicesFrameData.Length(); int(n) != len(want.Body()) {
		return fmt.Errorf("services frame reports length %d, encodes to %d", n, len(want.Body()))
	}
	var bad error
	forEach(e, func(sdr *egts.ServiceDataRecord) {
		if b, err := sdr.RecordDataSet.Encode(); err != nil || len(b) != int(sdr.RecordDataSet.Length()) {
			bad = fmt.Errorf("record data set reports length %d, encodes to %d (%v)", sdr.RecordDataSet.Length(), len(b), err)
		}
	}, func(rd *egts.RecordData) {
		if b, err := rd.SubrecordData.Encode(); err != nil || len(b) != int(rd.SubrecordData.Length()) {
			bad = fmt.Errorf("%T reports length %d, encodes to %d (%v)", rd.SubrecordData, rd.SubrecordData.Length(), len(b), err)
		}
	})
	return bad
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func encFromSub(s ref.Sub) encCase {
	p := ref.Packet{PRV: 1, PT: ref.PtAppdata, PID: 7, Records: []ref.Record{{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{s}}}}
	normalise(&p)
	return encCase{P: p}
}

func c02() pbt.Property {
	return pbt.Property{
		ID: "C02",
		Rule: "structures built from model values drawn over the whole wire range (lengths preset or left zero, type codes given or inferred, " +
			"times in any zone, arbitrary coordinates), encoded by the library and compared byte by byte with the reference encoder; " +
			"non-trivial: at least one subrecord; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("packet", 40000*6, 1500000, genEnc(false), runC02),
			pbt.Make("large", 150, 3000, genEnc(true), runC02).With(func(s *pbt.Sub) { s.Budget = 30 * time.Second }),
			pbt.Make("not-a-flag", 12000, 400000, func(t *rapid.T) flagCase {
				c := flagCase{P: gen.Packet(t, gen.Opt{Types: noPlus}), Which: rapid.IntRange(0, 999).Draw(t, "which"),
					Text: rapid.SampledFrom([]string{"2", "x", "-1", "1x", "0b1", "100000000", "no", "1 ", "1_0"}).Draw(t, "text")}
				return c
			}, runC02Flag),
			pbt.MakeEnum("flag-bytes", func(tier string, yield func(encCase) bool) {
				enumFlagBytes(tier, func(s subCase) bool { return yield(encFromSub(s.S)) })
			}, runC02),
			pbt.MakeEnum("headers", func(tier string, yield func(encCase) bool) {
				enumHeaders(tier, func(p pktCase) bool { return yield(encCase{P: p.P}) })
			}, runC02),
		},
	}
}
