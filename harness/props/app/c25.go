package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verif/gen"
	"verif/pbt"
)

// navCase holds a record independently of the code under test: the documented
// keys with their values.
type navCase struct {
	Ints   map[string]uint64 // by Go field name
	Times  [2]int64
	Lat    float64
	Lon    float64
	An     []anCase
	Liquid []liqCase
	NilAn  bool
	NilLiq bool
}

type anCase struct {
	N byte
	V uint32
}

type liqCase struct {
	N     byte
	E     string
	Mm, L uint32
}

var navFields = []struct {
	field, key string
	bits       uint
}{
	{"Client", "client", 32}, {"PacketID", "packet_id", 32}, {"Speed", "speed", 16}, {"Pdop", "pdop", 16}, {"Hdop", "hdop", 16}, {"Vdop", "vdop", 16},
	{"Nsat", "nsat", 8}, {"Ns", "ns", 16}, {"Course", "course", 8},
}

func num(t *rapid.T, l string) float64 {
	switch rapid.IntRange(0, 5).Draw(t, l+"k") {
	case 0:
		return float64(gen.U32(t, l)) * 90 / 0xFFFFFFFF
	case 1:
		return -float64(gen.U32(t, l)) * 180 / 0xFFFFFFFF
	case 2:
		return rapid.SampledFrom([]float64{0, 90, -90, 180, -180, 1e-9, 123.456789012345, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e-7, 1e21, 0.1}).Draw(t, l)
	case 3:
		return rapid.Float64().Filter(func(f float64) bool { return !math.IsInf(f, 0) && !math.IsNaN(f) }).Draw(t, l)
	default:
		return rapid.Float64Range(-180, 180).Draw(t, l)
	}
}

func genNav(t *rapid.T) navCase {
	c := navCase{Ints: map[string]uint64{}, Times: [2]int64{rapid.Int64().Draw(t, "nav"), rapid.Int64().Draw(t, "recv")}, Lat: num(t, "lat"), Lon: num(t, "lon")}
	for _, f := range navFields {
		c.Ints[f.field] = gen.U(t, f.bits, f.field)
	}
	for n := rapid.IntRange(0, 4).Draw(t, "nan"); n > 0; n-- {
		c.An = append(c.An, anCase{gen.B8(t, "n"), gen.U32(t, "v")})
	}
	for n := rapid.IntRange(0, 4).Draw(t, "nliq"); n > 0; n-- {
		e := rapid.SampledFrom([]string{"0", "1"}).Draw(t, "err")
		if gen.Chance(t, 5, "text") {
			e = rapid.String().Draw(t, "errtext")
		}
		c.Liquid = append(c.Liquid, liqCase{gen.B8(t, "n"), e, gen.U32(t, "mm"), gen.U32(t, "l")})
	}
	c.NilAn, c.NilLiq = gen.Bit(t, "nilan") == 1, gen.Bit(t, "nilliq") == 1
	return c
}

func setNum(v reflect.Value, x uint64) error {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(x)
		if v.Uint() != x {
			return fmt.Errorf("cannot hold %d", x)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(int64(x))
	default:
		return fmt.Errorf("kind %s", v.Kind())
	}
	return nil
}

func (c navCase) record() (*storage.NavRecord, error) {
	r := &storage.NavRecord{NavigationTimestamp: c.Times[0], ReceivedTimestamp: c.Times[1], Latitude: c.Lat, Longitude: c.Lon}
	v := reflect.ValueOf(r).Elem()
	for _, f := range navFields {
		if err := setNum(v.FieldByName(f.field), c.Ints[f.field]); err != nil {
			return nil, fmt.Errorf("field %s: %v", f.field, err)
		}
	}
	if !c.NilAn {
		r.AnSensors = []storage.AnSensor{}
	}
	if !c.NilLiq {
		r.LiquidSensors = []storage.LiquidSensor{}
	}
	for _, a := range c.An {
		r.AnSensors = append(r.AnSensors, storage.AnSensor{SensorNumber: a.N, Value: a.V})
	}
	for _, l := range c.Liquid {
		r.LiquidSensors = append(r.LiquidSensors, storage.LiquidSensor{SensorNumber: l.N, ErrorFlag: l.E, ValueMm: l.Mm, ValueL: l.L})
	}
	return r, nil
}

func fillNav(t *rapid.T, r *storage.NavRecord) {
	if x, err := genNav(t).record(); err == nil {
		*r = *x
	}
}

// jsonObject parses one JSON object with distinct keys, numbers kept as text.
func jsonObject(b []byte) (map[string]any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	if tok != json.Delim('{') {
		return nil, fmt.Errorf("not an object")
	}
	out := map[string]any{}
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, err
		}
		var v any
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if _, dup := out[k.(string)]; dup {
			return nil, fmt.Errorf("key %q twice", k)
		}
		out[k.(string)] = v
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if rest := strings.TrimSpace(string(b[d.InputOffset():])); rest != "" {
		return nil, fmt.Errorf("text after the object: %.50q", rest)
	}
	return out, nil
}

func keys(m map[string]any) string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

func isInt(v any, want int64) bool {
	n, ok := v.(json.Number)
	return ok && n.String() == strconv.FormatInt(want, 10)
}

func isFloat(v any, want float64) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	f, err := strconv.ParseFloat(n.String(), 64)
	return err == nil && f == want
}

// diff compares serialised bytes with the record.
func (c navCase) diff(b []byte) error {
	m, err := jsonObject(b)
	if err != nil {
		return fmt.Errorf("not one JSON object: %v: %.300q", err, b)
	}
	all := map[string]any{"navigation_unix_time": 0, "received_unix_time": 0, "latitude": 0, "longitude": 0, "an_sensors": 0, "liquid_sensors": 0}
	for _, f := range navFields {
		all[f.key] = 0
		if !isInt(m[f.key], int64(c.Ints[f.field])) {
			return fmt.Errorf("%s: %v instead of %d", f.key, m[f.key], c.Ints[f.field])
		}
	}
	if keys(m) != keys(all) {
		return fmt.Errorf("keys %s", keys(m))
	}
	if !isInt(m["navigation_unix_time"], c.Times[0]) || !isInt(m["received_unix_time"], c.Times[1]) {
		return fmt.Errorf("times %v, %v instead of %v", m["navigation_unix_time"], m["received_unix_time"], c.Times)
	}
	if !isFloat(m["latitude"], c.Lat) || !isFloat(m["longitude"], c.Lon) {
		return fmt.Errorf("coordinates %v, %v instead of %v, %v", m["latitude"], m["longitude"], c.Lat, c.Lon)
	}
	list := func(k string, n int) ([]any, error) {
		l, ok := m[k].([]any)
		if !ok && m[k] != nil || len(l) != n {
			return nil, fmt.Errorf("%s: %v instead of %d elements", k, m[k], n)
		}
		return l, nil
	}
	an, err := list("an_sensors", len(c.An))
	if err != nil {
		return err
	}
	for i, a := range c.An {
		x, _ := an[i].(map[string]any)
		if keys(x) != "sensor_number,value" || !isInt(x["sensor_number"], int64(a.N)) || !isInt(x["value"], int64(a.V)) {
			return fmt.Errorf("analog sensor %d: %v instead of %+v", i+1, an[i], a)
		}
	}
	lq, err := list("liquid_sensors", len(c.Liquid))
	if err != nil {
		return err
	}
	for i, l := range c.Liquid {
		x, _ := lq[i].(map[string]any)
		if keys(x) != "error_flag,sensor_number,value_l,value_mm" || !isInt(x["sensor_number"], int64(l.N)) || x["error_flag"] != l.E ||
			!isInt(x["value_mm"], int64(l.Mm)) || !isInt(x["value_l"], int64(l.L)) {
			return fmt.Errorf("liquid sensor %d: %v instead of %+v", i+1, lq[i], l)
		}
	}
	return nil
}

func sameRecord(a, b *storage.NavRecord) bool {
	x, y := *a, *b
	for _, p := range []*storage.NavRecord{&x, &y} {
		if len(p.AnSensors) == 0 {
			p.AnSensors = nil
		}
		if len(p.LiquidSensors) == 0 {
			p.LiquidSensors = nil
		}
	}
	return reflect.DeepEqual(x, y)
}

func runNav(c navCase, r *pbt.Rec) error {
	rec, err := c.record()
	if err != nil {
		return err
	}
	keep, _ := c.record()
	b, err := rec.ToBytes()
	if err != nil {
		return fmt.Errorf("ToBytes fails: %v", err)
	}
	if !reflect.DeepEqual(rec, keep) {
		return fmt.Errorf("ToBytes changes the record: %+v, was %+v", rec, keep)
	}
	if err := c.diff(b); err != nil {
		return err
	}
	var back storage.NavRecord
	if err := json.Unmarshal(b, &back); err != nil {
		return fmt.Errorf("cannot be parsed back: %v", err)
	}
	if !sameRecord(&back, keep) {
		return fmt.Errorf("parsed back as %+v, was %+v", back, keep)
	}
	// a second record does not touch the bytes of the first
	first := string(b)
	other := &storage.NavRecord{Client: 77, AnSensors: []storage.AnSensor{{SensorNumber: 1, Value: 2}}}
	if _, err := other.ToBytes(); err != nil {
		return fmt.Errorf("ToBytes fails: %v", err)
	}
	if string(b) != first {
		return fmt.Errorf("serialising another record changes the bytes of the first")
	}
	navClasses(c, r)
	return nil
}

func navClasses(c navCase, r *pbt.Rec) {
	r.NonTrivial()
	r.ClassIf(len(c.An) > 0, "analog sensors")
	r.ClassIf(len(c.Liquid) > 0, "liquid sensors")
	r.ClassIf(len(c.An)+len(c.Liquid) == 0, "no sensors")
	r.ClassIf(c.Lat < 0 || c.Lon < 0, "negative coordinates")
	r.ClassIf(math.Abs(c.Lat) > 180 || math.Abs(c.Lon) > 180, "extreme coordinates")
}

var logMu sync.Mutex

// logged runs f and returns what it wrote to the log.
func logged(f func() error) (string, error) {
	logMu.Lock()
	defer logMu.Unlock()
	var b bytes.Buffer
	out, lvl := logrus.StandardLogger().Out, logrus.GetLevel()
	logrus.SetOutput(&b)
	logrus.SetLevel(logrus.InfoLevel)
	defer func() { logrus.SetOutput(out); logrus.SetLevel(lvl) }()
	err := f()
	return b.String(), err
}

// logRecords extracts the JSON objects carried by log lines, whatever the
// field they are in: key="quoted text" or a JSON log line.
func logRecords(text string) (out []string) {
	try := func(s string) bool {
		if m, err := jsonObject([]byte(s)); err == nil {
			if _, ok := m["navigation_unix_time"]; ok {
				out = append(out, s)
				return true
			}
		}
		return false
	}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimRight(l, "\r")
		if m, err := jsonObject([]byte(l)); err == nil {
			if !try(l) {
				for _, v := range m {
					if s, ok := v.(string); ok {
						try(s)
					}
				}
			}
			continue
		}
		for {
			i := strings.Index(l, `="`)
			if i < 0 {
				break
			}
			l = l[i+1:]
			q, err := strconv.QuotedPrefix(l)
			if err != nil {
				break
			}
			if s, err := strconv.Unquote(q); err == nil {
				try(s)
			}
			l = l[len(q):]
		}
	}
	return out
}

func runLog(c navCase, r *pbt.Rec) error {
	rec, err := c.record()
	if err != nil {
		return err
	}
	text, err := logged(func() error {
		s := storage.LogConnector{}
		if err := s.Init(nil); err != nil {
			return fmt.Errorf("Init fails: %v", err)
		}
		if err := s.Save(rec); err != nil {
			return fmt.Errorf("Save fails: %v", err)
		}
		return s.Close()
	})
	if err != nil {
		return err
	}
	recs := logRecords(text)
	if len(recs) != 1 {
		return fmt.Errorf("the log holds %d records instead of 1: %.400q", len(recs), text)
	}
	if err := c.diff([]byte(recs[0])); err != nil {
		return fmt.Errorf("logged record: %v", err)
	}
	navClasses(c, r)
	return nil
}

func c25() pbt.Property {
	return pbt.Property{
		ID: "C25",
		Rule: "records with generated field values (edge and random integers of each width, coordinates incl. extreme finite numbers, 0..4 sensors of each kind), serialised and compared key by key with the generated values, " +
			"parsed back and compared; the log store's output likewise; non-trivial: every case; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("json", 400000, 12000000, genNav, runNav),
			pbt.Make("log", 100000, 3000000, genNav, runLog),
		},
	}
}
