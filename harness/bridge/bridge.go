// Package bridge translates between the reference model and the library's
// structures, through exported fields only, and compares them.
package bridge

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"verif/ref"
)

// Epoch is the EGTS time origin.
var Epoch = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC)

func bits(v byte, n int) string { return fmt.Sprintf("%0*b", n, v) }

func flag(on bool) string {
	if on {
		return "1"
	}
	return "0"
}

func val[T any](p *T) (v T) {
	if p != nil {
		v = *p
	}
	return
}

// At is the instant of an EGTS time value.
func At(v uint32) time.Time { return Epoch.Add(time.Duration(v) * time.Second) }

// Lat and Lon are the magnitudes of wire coordinates.
func Lat(v uint32) float64 { return float64(v) * 90 / 0xFFFFFFFF }

// Lon is the magnitude of a wire longitude.
func Lon(v uint32) float64 { return float64(v) * 180 / 0xFFFFFFFF }

// Sub builds the library's subrecord data.
func Sub(s ref.Sub) egts.BinaryData {
	switch {
	case s.Pos != nil:
		p := s.Pos
		return &egts.SrPosData{NavigationTime: At(p.NTM), Latitude: Lat(p.LAT), Longitude: Lon(p.LONG),
			ALTE: bits(p.ALTE, 1), LOHS: bits(p.LOHS, 1), LAHS: bits(p.LAHS, 1), MV: bits(p.MV, 1), BB: bits(p.BB, 1),
			CS: bits(p.CS, 1), FIX: bits(p.FIX, 1), VLD: bits(p.VLD, 1), DirectionHighestBit: p.DIRH, AltitudeSign: p.ALTS,
			Speed: p.SPD / 10, Direction: p.DIR | p.DIRH<<7, Odometer: p.ODM, DigitalInputs: p.DIN, Source: p.SRC, Altitude: p.ALT}
	case s.Ext != nil:
		e := s.Ext
		return &egts.SrExtPosData{NavigationSystemFieldExists: flag(e.NS != nil), SatellitesFieldExists: flag(e.SAT != nil),
			PdopFieldExists: flag(e.PDOP != nil), HdopFieldExists: flag(e.HDOP != nil), VdopFieldExists: flag(e.VDOP != nil),
			VerticalDilutionOfPrecision: val(e.VDOP), HorizontalDilutionOfPrecision: val(e.HDOP),
			PositionDilutionOfPrecision: val(e.PDOP), Satellites: val(e.SAT), NavigationSystem: val(e.NS)}
	case s.AD != nil:
		a := s.AD
		d := &egts.SrAdSensorsData{DigitalOutputs: a.DOUT}
		v := reflect.ValueOf(d).Elem()
		for i := 0; i < 8; i++ {
			n := strconv.Itoa(i + 1)
			v.FieldByName("DigitalInputsOctetExists" + n).SetString(flag(a.ADIO[i] != nil))
			v.FieldByName("AnalogSensorFieldExists" + n).SetString(flag(a.ANS[i] != nil))
			v.FieldByName("AdditionalDigitalInputsOctet" + n).SetUint(uint64(val(a.ADIO[i])))
			v.FieldByName("AnalogSensor" + n).SetUint(uint64(val(a.ANS[i])))
		}
		return d
	case s.Cnt != nil:
		d := &egts.SrCountersData{}
		v := reflect.ValueOf(d).Elem()
		for i := 0; i < 8; i++ {
			n := strconv.Itoa(i + 1)
			v.FieldByName("CounterFieldExists" + n).SetString(flag(s.Cnt.CN[i] != nil))
			v.FieldByName("Counter" + n).SetUint(uint64(val(s.Cnt.CN[i])))
		}
		return d
	case s.State != nil:
		t := s.State
		return &egts.SrStateData{State: t.ST, MainPowerSourceVoltage: t.MPSV, BackUpBatteryVoltage: t.BBV,
			InternalBatteryVoltage: t.IBV, NMS: bits(t.NMS, 1), IBU: bits(t.IBU, 1), BBU: bits(t.BBU, 1)}
	case s.Abs != nil:
		return &egts.SrAbsCntrData{CounterNumber: s.Abs.N, CounterValue: s.Abs.V}
	case s.AbsAn != nil:
		return &egts.SrAbsAnSensData{SensorNumber: s.AbsAn.N, Value: s.AbsAn.V}
	case s.LLS != nil:
		l := s.LLS
		return &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: bits(l.EF, 1), LiquidLevelSensorValueUnit: bits(l.VU, 2),
			RawDataFlag: bits(l.RDF, 1), LiquidLevelSensorNumber: l.N, ModuleAddress: l.MADDR, LiquidLevelSensorData: l.LLSD}
	case s.Term != nil:
		t := s.Term
		return &egts.SrTermIdentity{TerminalIdentifier: t.TID, MNE: flag(t.MSISDN != nil), BSE: flag(t.BS != nil),
			NIDE: flag(t.NID != nil), SSRA: bits(t.SSRA, 1), LNGCE: flag(t.LNGC != nil), IMSIE: flag(t.IMSI != nil),
			IMEIE: flag(t.IMEI != nil), HDIDE: flag(t.HDID != nil), HomeDispatcherIdentifier: val(t.HDID),
			IMEI: string(t.IMEI), IMSI: string(t.IMSI), LanguageCode: string(t.LNGC), NetworkIdentifier: t.NID,
			BufferSize: val(t.BS), MobileNumber: string(t.MSISDN)}
	case s.Mod != nil:
		m := s.Mod
		return &egts.SrModuleData{ModuleType: int8(m.MT), VendorID: m.VID, FirmwareVersion: m.FWV, SoftwareVersion: m.SWV,
			Modification: m.MD, State: m.ST, SerialNumber: string(m.SRN), Description: string(m.DSCR)}
	case s.Disp != nil:
		return &egts.SrDispatcherIdentity{DispatcherType: s.Disp.DT, DispatcherID: s.Disp.DID, Description: string(s.Disp.DSCR)}
	case s.Auth != nil:
		return &egts.SrAuthInfo{UserName: string(s.Auth.UNM), UserPassword: string(s.Auth.UPSW), ServerSequence: string(s.Auth.SS)}
	case s.Resp != nil:
		return &egts.SrResponse{ConfirmedRecordNumber: s.Resp.CRN, RecordStatus: s.Resp.RST}
	case s.Result != nil:
		return &egts.SrResultCode{ResultCode: *s.Result}
	case s.Plus != nil:
		r := &egts.StorageRecord{}
		SetPlus(reflect.ValueOf(r).Elem(), s.Plus)
		return r
	}
	return nil
}

// New returns an empty structure for a supported type code.
func New(t byte) egts.BinaryData {
	switch t {
	case ref.TResponse:
		return &egts.SrResponse{}
	case ref.TTerm:
		return &egts.SrTermIdentity{}
	case ref.TModule:
		return &egts.SrModuleData{}
	case ref.TDisp:
		return &egts.SrDispatcherIdentity{}
	case ref.TAuth:
		return &egts.SrAuthInfo{}
	case ref.TResult:
		return &egts.SrResultCode{}
	case ref.TPlus:
		return &egts.StorageRecord{}
	case ref.TPos:
		return &egts.SrPosData{}
	case ref.TExt:
		return &egts.SrExtPosData{}
	case ref.TAD:
		return &egts.SrAdSensorsData{}
	case ref.TCounters:
		return &egts.SrCountersData{}
	case ref.TState20, ref.TState:
		return &egts.SrStateData{}
	case ref.TAbsAn:
		return &egts.SrAbsAnSensData{}
	case ref.TAbsCntr:
		return &egts.SrAbsCntrData{}
	case ref.TLLS:
		return &egts.SrLiquidLevelSensor{}
	}
	return nil
}

// GoName is the Go field name generated for a schema field.
func GoName(s string) string {
	out := ""
	for i, part := range strings.Split(s, "_") {
		if part == "" {
			continue
		}
		if part[0] >= '0' && part[0] <= '9' && i > 0 {
			out += "_"
		}
		out += strings.ToUpper(part[:1]) + part[1:]
	}
	return out
}

// SetPlus fills a generated message structure from the model.
func SetPlus(v reflect.Value, m *ref.PMsg) {
	for _, f := range m.F {
		d := ref.Def(m.Type, f.Name)
		fv := v.FieldByName(GoName(f.Name))
		if !fv.IsValid() {
			panic("no field " + v.Type().Name() + "." + GoName(f.Name))
		}
		set := func(x reflect.Value) {
			switch d.Kind {
			case ref.KBool:
				x.SetBool(f.V != 0)
			case ref.KFloat:
				x.SetFloat(float64(f.Float()))
			case ref.KS32, ref.KSF32, ref.KEnum:
				x.SetInt(int64(int32(f.V)))
			default:
				x.SetUint(f.V)
			}
		}
		switch {
		case d.Kind == ref.KMsg:
			n := reflect.New(fv.Type().Elem().Elem())
			SetPlus(n.Elem(), f.M)
			fv.Set(reflect.Append(fv, n))
		case d.Kind == ref.KBytes:
			b := f.B
			if b == nil {
				b = []byte{}
			}
			fv.SetBytes(b)
		case d.Repeated:
			n := reflect.New(fv.Type().Elem()).Elem()
			set(n)
			fv.Set(reflect.Append(fv, n))
		default:
			n := reflect.New(fv.Type().Elem())
			set(n.Elem())
			fv.Set(n)
		}
	}
}

// Subs builds a record data set; subrecords of unsupported types are left out
// (that is how the library presents them). lens fills the lengths in.
func Subs(subs []ref.Sub, lens bool) egts.RecordDataSet {
	var out egts.RecordDataSet
	for _, s := range subs {
		d := Sub(s)
		if d == nil {
			continue
		}
		rd := egts.RecordData{SubrecordType: s.T, SubrecordData: d}
		if lens {
			rd.SubrecordLength = uint16(len(s.Content()))
		}
		out = append(out, rd)
	}
	return out
}

// Records builds a service data set.
func Records(rs []ref.Record, lens bool) egts.ServiceDataSet {
	var out egts.ServiceDataSet
	for _, r := range rs {
		sdr := egts.ServiceDataRecord{RecordNumber: r.RN, SourceServiceOnDevice: bits(r.SSOD, 1),
			RecipientServiceOnDevice: bits(r.RSOD, 1), Group: bits(r.GRP, 1), RecordProcessingPriority: bits(r.RPP, 2),
			TimeFieldExists: flag(r.TM != nil), EventIDFieldExists: flag(r.EVID != nil), ObjectIDFieldExists: flag(r.OID != nil),
			ObjectIdentifier: val(r.OID), EventIdentifier: val(r.EVID), SourceServiceType: r.SST, RecipientServiceType: r.RST,
			RecordDataSet: Subs(r.Subs, lens)}
		if r.TM != nil {
			sdr.Time = At(*r.TM)
		}
		if lens {
			sdr.RecordLength = uint16(len(ref.SubsBytes(r.Subs)))
		}
		out = append(out, sdr)
	}
	return out
}

// Body builds the services frame data.
func Body(p ref.Packet, lens bool) egts.BinaryData {
	rs := Records(p.Records, lens)
	if p.PT == ref.PtResponse {
		r := &egts.PtResponse{ResponsePacketID: p.RPID, ProcessingResult: p.Result}
		if len(p.Records) > 0 {
			r.SDR = &rs
		}
		return r
	}
	return &rs
}

// Packet builds the library's structure. With lens, the length and checksum
// fields are those of the wire form (what a decode must report); without, they
// are left zero for the encoder.
func Packet(p ref.Packet, lens bool) *egts.Package {
	e := &egts.Package{ProtocolVersion: p.PRV, SecurityKeyID: p.SKID, Prefix: bits(p.PRF, 2), Route: bits(p.RTE, 1),
		EncryptionAlg: bits(p.ENA, 2), Compression: bits(p.CMP, 1), Priority: bits(p.PRI, 2), HeaderEncoding: p.HE,
		PacketIdentifier: p.PID, PacketType: p.PT, PeerAddress: p.PRA, RecipientAddress: p.RCA, TimeToLive: p.TTL,
		ServicesFrameData: Body(p, lens)}
	if lens {
		b := p.Bytes()
		body := p.Body()
		e.HeaderLength = byte(p.HeaderLen())
		e.FrameDataLength = uint16(len(body))
		e.HeaderCheckSum = b[p.HeaderLen()-1]
		if len(body) > 0 {
			e.ServicesFrameDataCheckSum = ref.CRC16(body)
		}
	}
	return e
}

// Cmp says how strictly to compare.
type Cmp struct {
	// Lengths: also compare length and checksum fields.
	Lengths bool
	// CoordTol is the tolerance for latitude and longitude in wire units.
	CoordTol float64
}

var lengthFields = map[string]bool{"HeaderLength": true, "FrameDataLength": true, "HeaderCheckSum": true,
	"ServicesFrameDataCheckSum": true, "RecordLength": true, "SubrecordLength": true}

var timeType = reflect.TypeOf(time.Time{})

// Diff describes the first difference between two library structures, or "".
func (c Cmp) Diff(want, got any) string {
	return c.diff("", reflect.ValueOf(want), reflect.ValueOf(got))
}

func short(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v.Interface())
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (c Cmp) diff(path string, w, g reflect.Value) string {
	if w.Kind() == reflect.Interface {
		w = w.Elem()
	}
	if g.Kind() == reflect.Interface {
		g = g.Elem()
	}
	empty := func(v reflect.Value) bool {
		if !v.IsValid() {
			return true
		}
		switch v.Kind() {
		case reflect.Slice:
			return v.Len() == 0
		case reflect.Pointer:
			return v.IsNil() || v.Elem().Kind() == reflect.Slice && v.Elem().Len() == 0
		}
		return false
	}
	if !w.IsValid() || !g.IsValid() {
		if empty(w) && empty(g) {
			return ""
		}
		return fmt.Sprintf("%s: one side is missing", path)
	}
	if w.Type() != g.Type() {
		return fmt.Sprintf("%s: want a %s, got a %s", path, w.Type(), g.Type())
	}
	if w.Type() == timeType {
		a, b := w.Interface().(time.Time), g.Interface().(time.Time)
		if !a.Equal(b) {
			return fmt.Sprintf("%s: want %s, got %s", path, a, b)
		}
		return ""
	}
	switch w.Kind() {
	case reflect.Pointer:
		if w.IsNil() || g.IsNil() {
			if w.IsNil() == g.IsNil() {
				return ""
			}
			return fmt.Sprintf("%s: want nil=%v, got nil=%v", path, w.IsNil(), g.IsNil())
		}
		return c.diff(path, w.Elem(), g.Elem())
	case reflect.Slice:
		if w.Len() != g.Len() {
			return fmt.Sprintf("%s: want %d elements, got %d", path, w.Len(), g.Len())
		}
		if w.Type().Elem().Kind() == reflect.Uint8 {
			if string(w.Bytes()) != string(g.Bytes()) {
				return fmt.Sprintf("%s: want %x, got %x", path, w.Bytes(), g.Bytes())
			}
			return ""
		}
		for i := 0; i < w.Len(); i++ {
			if d := c.diff(fmt.Sprintf("%s[%d]", path, i), w.Index(i), g.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < w.NumField(); i++ {
			f := w.Type().Field(i)
			if !f.IsExported() || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			if lengthFields[f.Name] && !c.Lengths {
				continue
			}
			if d := c.diff(path+"."+f.Name, w.Field(i), g.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64, reflect.Float32:
		a, b := w.Float(), g.Float()
		if a == b || math.IsNaN(a) && math.IsNaN(b) {
			return ""
		}
		tol := 0.0
		switch {
		case strings.HasSuffix(path, ".Latitude"):
			tol = 90.0 / 0xFFFFFFFF
		case strings.HasSuffix(path, ".Longitude"):
			tol = 180.0 / 0xFFFFFFFF
		}
		if math.Abs(a-b) <= tol*(c.CoordTol+0.05) {
			return ""
		}
		return fmt.Sprintf("%s: want %v, got %v", path, a, b)
	case reflect.String:
		if w.String() != g.String() {
			return fmt.Sprintf("%s: want %q, got %q", path, w.String(), g.String())
		}
		return ""
	default:
		if w.Interface() != g.Interface() {
			return fmt.Sprintf("%s: want %s, got %s", path, short(w), short(g))
		}
		return ""
	}
}

// PosOffset locates a position subrecord's coordinates in the packet bytes.
type PosOffset struct {
	Pos *ref.Pos
	Off int // of LAT; LONG follows
}

// PosOffsets lists the coordinates of a packet.
func PosOffsets(p ref.Packet) []PosOffset {
	off := p.HeaderLen()
	if p.PT == ref.PtResponse {
		off += 3
	}
	var out []PosOffset
	for _, r := range p.Records {
		off += len(r.Header(0))
		for _, s := range r.Subs {
			if s.Pos != nil {
				out = append(out, PosOffset{s.Pos, off + 3 + 4})
			}
			off += len(s.Bytes())
		}
	}
	return out
}
