package ref

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
)

// This file is an independent protobuf (proto2) model of the published
// docs/egts_sr_egtsplus_data.proto schema: a schema table, an encoder and a
// decoder to the same canonical form.

// PKind is a schema field type.
type PKind int

// Field kinds.
const (
	KU32  PKind = iota // uint32 varint
	KS32               // sint32 zigzag
	KF32               // fixed32
	KSF32              // sfixed32
	KFloat
	KBool
	KBytes
	KEnum
	KMsg
)

// PFieldDef is one field of the schema.
type PFieldDef struct {
	Name     string
	Num      int
	Kind     PKind
	Required bool
	Repeated bool
	Msg      string
}

// PMsg is a message value; fields in the order they go on the wire.
type PMsg struct {
	Type string
	F    []PVal
}

// PVal is one field occurrence.
type PVal struct {
	Name string
	V    uint64 `json:",omitempty"` // numeric kinds: the raw 32-bit (or bool) value
	B    []byte `json:",omitempty"`
	M    *PMsg  `json:",omitempty"`
}

// Reasons lists the values of enum reason.
var Reasons = func() []uint64 {
	var r []uint64
	for i := uint64(1); i <= 38; i++ {
		r = append(r, i)
	}
	return append(r, 99)
}()

// reasonNames are the published names of the reason codes.
var reasonNames = map[uint64]string{
	1:  "DEVICE_RESET",
	2:  "PROFILE_CHANGE",
	3:  "IGNITION_ON",
	4:  "IGNITION_OFF",
	5:  "TRIP_BEGIN",
	6:  "TRIP_END",
	7:  "STOP",
	8:  "MOVE",
	9:  "TOWING_BEGIN",
	10: "TOWING_END",
	11: "TIMER_MOVE",
	12: "TIMER_STOP",
	13: "ANGLE",
	14: "DISTANCE",
	15: "SOS_BUTTON",
	16: "SERVICE_BUTTON",
	17: "TAMPER",
	18: "ANTENNA_SWITCH",
	19: "GSM_LOST",
	20: "GSM_RECONNECT",
	21: "GNSS_LOST",
	22: "GNSS_REAQUISITION",
	23: "JAMMER_GSM",
	24: "JAMMER_GNSS",
	25: "OVER_SPEED",
	26: "OVER_RPM",
	27: "OVER_TEMPERATURE",
	28: "DANGEROUS_DRIVING",
	29: "ACCIDENT",
	30: "OVERTHROW",
	31: "ON_BATTERY",
	32: "BATTERY_DISCHARGE",
	33: "RADIO_TAG_REG",
	34: "RADIO_TAG_UNREG",
	35: "MOVE_WITHOUT_RADIO_TAG",
	36: "ECU_ERROR_CODE",
	37: "EXTERNAL_REQUEST",
	38: "DEVICE_TEST",
	99: "OTHER_REASON",
}

// ReasonName is the published name of a reason code.
func ReasonName(v uint64) string { return reasonNames[v] }

func o(name string, num int, k PKind) PFieldDef { return PFieldDef{Name: name, Num: num, Kind: k} }
func rm(name string, num int) PFieldDef {
	return PFieldDef{Name: name, Num: num, Kind: KMsg, Repeated: true, Msg: name}
}

// Schema is the published schema, message name to fields.
var Schema = map[string][]PFieldDef{
	"storage_record": {
		{Name: "record_number", Num: 1, Kind: KU32, Required: true},
		{Name: "time_stamp", Num: 2, Kind: KF32, Required: true},
		{Name: "record_reason", Num: 3, Kind: KEnum, Repeated: true},
		{Name: "status_flags", Num: 4, Kind: KF32, Required: true},
		rm("sens_accelerometer_data", 18), rm("sens_ain_ain_value", 9), rm("sens_buffer_data", 20),
		rm("sens_button_press_counter", 14), rm("sens_can_log_data", 16), rm("sens_can_log_tmp_data_ext", 17),
		rm("sens_counter_count", 11), rm("sens_crash_data", 24), rm("sens_dins_flags", 10),
		rm("sens_douts_flags", 19), rm("sens_fmeter_frequency", 12), rm("sens_fuel_level", 8),
		rm("sens_gsm_cell_monotoring_cell_monitoring", 13), rm("sens_nd_nav_data", 7), rm("sens_stor_info", 21),
		rm("sens_termo_data", 15), rm("sens_test_era_tests", 23), rm("sens_tracker_info", 22),
	},
	"sens_accelerometer_data": {o("sens_num", 1, KU32), o("buf", 2, KBytes), o("atm", 3, KU32), o("frequency", 4, KU32),
		o("range", 5, KU32), o("format", 6, KU32), o("zlib", 7, KU32)},
	"sens_ain_ain_value":        {o("sens_num", 1, KU32), o("mv", 2, KU32)},
	"sens_buffer_data":          {o("sens_num", 1, KU32), o("data", 2, KBytes), o("is_packed", 3, KBool)},
	"sens_button_press_counter": {o("sens_num", 1, KU32), o("state", 2, KBool)},
	"sens_can_log_data": {o("sens_num", 1, KU32), o("flag_security_state", 2, KU32), o("flag_alarm", 3, KU32),
		o("engine_time_all", 4, KU32), o("engine_turn_speed", 5, KU32), o("engine_temperature", 6, KS32),
		o("fuel_consumption_all", 7, KU32), o("fuel_level", 8, KU32), o("track_all", 9, KU32), o("speed", 10, KU32),
		o("pressure_axis_1", 11, KU32), o("pressure_axis_2", 12, KU32), o("pressure_axis_3", 13, KU32),
		o("pressure_axis_4", 14, KU32), o("pressure_axis_5", 15, KU32)},
	"sens_can_log_tmp_data_ext": {o("sens_num", 1, KU32), o("flags_high", 2, KU32), o("flags_low", 3, KU32)},
	"sens_counter_count":        {o("sens_num", 1, KU32), o("value", 2, KU32)},
	"sens_crash_data":           {o("sens_num", 1, KU32), o("energy", 2, KU32), o("is_overturned", 3, KBool)},
	"sens_dins_flags":           {o("sens_num", 1, KU32), o("device", 2, KU32), o("external", 3, KU32)},
	"sens_douts_flags":          {o("sens_num", 1, KU32), o("device", 2, KU32), o("external", 3, KU32)},
	"sens_fmeter_frequency":     {o("sens_num", 1, KU32), o("value", 2, KU32)},
	"sens_fuel_level": {o("sens_num", 1, KU32), o("value", 2, KFloat), o("parrots", 3, KU32), o("unit", 4, KU32),
		o("t", 5, KU32), o("status", 6, KU32)},
	"sens_gsm_cell_monotoring_cell_monitoring": {o("sens_num", 1, KU32), o("lac", 4, KBytes), o("cid", 5, KBytes),
		o("rssi", 6, KBytes), o("time_adv", 7, KBytes), o("mcc", 2, KU32), o("mnc", 3, KU32)},
	"sens_nd_nav_data": {o("sens_num", 1, KU32), o("longitude", 2, KSF32), o("latitude", 3, KSF32), o("altitude", 4, KU32),
		o("speed", 5, KU32), o("course", 6, KU32), o("sat_count", 7, KU32), o("pdop", 8, KU32), o("track", 9, KU32),
		o("odometer", 10, KU32)},
	"sens_stor_info": {o("sens_num", 1, KU32), o("id_max", 2, KU32), o("id_min", 3, KU32), o("tm_oldest", 4, KU32),
		o("tm_oldest_unack", 5, KU32), o("cnt_unack", 6, KU32), o("cnt_unack_losted", 7, KU32)},
	"sens_termo_data": {o("sens_num", 1, KU32), o("status", 2, KU32), o("temperature", 3, KS32)},
	"sens_test_era_tests": {o("sens_num", 1, KU32), o("mic_con_failure", 2, KBool), o("mic_failure", 3, KBool),
		o("ignition_failure", 4, KBool), o("uim_failure", 5, KBool), o("bat_failure", 6, KBool), o("bat_volt_low", 7, KBool),
		o("crash_sens_failure", 8, KBool), o("raim_problem", 9, KBool), o("gnss_antenna_failure", 10, KBool),
		o("events_memory_overflow", 11, KBool)},
	"sens_tracker_info": {o("sens_num", 1, KU32), o("cnt_ack", 2, KU32), o("cnt_ack_realtime", 3, KU32), o("cnt_noack", 4, KU32),
		o("cnt_connect", 5, KU32)},
}

// Def finds a field definition.
func Def(msg, name string) PFieldDef {
	for _, d := range Schema[msg] {
		if d.Name == name {
			return d
		}
	}
	panic("ref: no field " + msg + "." + name)
}

func zig(v uint32) uint64 {
	s := int32(v)
	return uint64(uint32(s<<1) ^ uint32(s>>31))
}

// Marshal encodes the message, fields in the order of m.F.
func (m *PMsg) Marshal() []byte {
	var b []byte
	for _, f := range m.F {
		d := Def(m.Type, f.Name)
		tag := func(wt int) { b = binary.AppendUvarint(b, uint64(d.Num)<<3|uint64(wt)) }
		switch d.Kind {
		case KU32, KBool, KEnum:
			tag(0)
			b = binary.AppendUvarint(b, f.V)
		case KS32:
			tag(0)
			b = binary.AppendUvarint(b, zig(uint32(f.V)))
		case KF32, KSF32, KFloat:
			tag(5)
			b = u32(b, uint32(f.V))
		case KBytes:
			tag(2)
			b = binary.AppendUvarint(b, uint64(len(f.B)))
			b = append(b, f.B...)
		case KMsg:
			tag(2)
			c := f.M.Marshal()
			b = binary.AppendUvarint(b, uint64(len(c)))
			b = append(b, c...)
		}
	}
	return b
}

// Canon returns the message with fields in schema-number order (repeated
// occurrences keep their order), so that two encodings can be compared.
func (m *PMsg) Canon() string {
	type kv struct {
		n int
		s string
	}
	var l []kv
	for _, f := range m.F {
		d := Def(m.Type, f.Name)
		var s string
		switch d.Kind {
		case KMsg:
			s = "{" + f.M.Canon() + "}"
		case KBytes:
			s = fmt.Sprintf("%x", f.B)
		default:
			s = fmt.Sprint(f.V)
		}
		l = append(l, kv{d.Num, f.Name + "=" + s})
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].n < l[j].n })
	out := ""
	for _, x := range l {
		out += x.s + ";"
	}
	return out
}

// UnmarshalPlus decodes a message against the schema.
func UnmarshalPlus(typ string, b []byte) (*PMsg, error) {
	m := &PMsg{Type: typ}
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad tag")
		}
		b = b[n:]
		num, wt := int(tag>>3), int(tag&7)
		var d *PFieldDef
		for i := range Schema[typ] {
			if Schema[typ][i].Num == num {
				d = &Schema[typ][i]
			}
		}
		if d == nil {
			return nil, fmt.Errorf("%s: unknown field %d", typ, num)
		}
		var raw uint64
		var data []byte
		switch wt {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, fmt.Errorf("%s.%s: bad varint", typ, d.Name)
			}
			raw = v
			b = b[n:]
		case 5:
			if len(b) < 4 {
				return nil, fmt.Errorf("%s.%s: short", typ, d.Name)
			}
			raw = uint64(binary.LittleEndian.Uint32(b))
			b = b[4:]
		case 2:
			v, n := binary.Uvarint(b)
			if n <= 0 || v > uint64(len(b)-n) {
				return nil, fmt.Errorf("%s.%s: short", typ, d.Name)
			}
			data = b[n : n+int(v)]
			b = b[n+int(v):]
		default:
			return nil, fmt.Errorf("%s.%s: wire type %d", typ, d.Name, wt)
		}
		want := map[PKind]int{KU32: 0, KS32: 0, KBool: 0, KEnum: 0, KF32: 5, KSF32: 5, KFloat: 5, KBytes: 2, KMsg: 2}[d.Kind]
		if wt != want {
			return nil, fmt.Errorf("%s.%s: wire type %d, schema says %d", typ, d.Name, wt, want)
		}
		v := PVal{Name: d.Name}
		switch d.Kind {
		case KMsg:
			c, err := UnmarshalPlus(d.Msg, data)
			if err != nil {
				return nil, err
			}
			v.M = c
		case KBytes:
			v.B = append([]byte{}, data...)
		case KS32:
			u := uint32(raw)
			v.V = uint64(uint32(int32(u>>1) ^ -int32(u&1)))
		default:
			v.V = raw
		}
		m.F = append(m.F, v)
	}
	return m, nil
}

// Float is the float value of a KFloat field.
func (v PVal) Float() float32 { return math.Float32frombits(uint32(v.V)) }
