package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

type hostileCase struct {
	// Target: "packet", "packet-key", "records", "subs", "response" or a
	// subrecord type code.
	Target string
	B      []byte
	// Nest > 0: the input is a chain of that many nested responses.
	Nest int `json:",omitempty"`
	// Repeat > 0: B repeated that many times.
	Repeat int `json:",omitempty"`
}

type passKey struct{}

func (passKey) Decode(b []byte) ([]byte, error) { return b, nil }
func (passKey) Encode(b []byte) ([]byte, error) { return b, nil }

func withKey(k egts.SecretKey) func(*egts.Options) { return func(o *egts.Options) { o.Secret = k } }

func runC04(c hostileCase, r *pbt.Rec) error {
	in := c.B
	if c.Nest > 0 {
		in = gen.NestedResponse(c.Nest)
		if c.Target == "packet" {
			in = ref.Packet{PRV: 1, PT: 1}.WithBody(in)
		}
	}
	if c.Repeat > 0 {
		in = nil
		for i := 0; i < c.Repeat && len(in)+len(c.B) < 65500; i++ {
			in = append(in, c.B...)
		}
		if c.Target == "packet" {
			in = ref.Packet{PRV: 1, PT: 1}.WithBody(in)
		}
	}
	if len(in) > 0 {
		r.NonTrivial()
	}
	data := append([]byte{}, in...)
	var m0, m1 runtime.MemStats
	big := len(in) > 4000
	if big {
		runtime.ReadMemStats(&m0)
	}
	t0 := time.Now()
	var err error
	switch c.Target {
	case "packet", "packet-key":
		p := &egts.Package{}
		var code uint8
		if c.Target == "packet" {
			code, err = p.Decode(data)
		} else {
			code, err = p.Decode(data, withKey(passKey{}))
		}
		if (err == nil) != (code == 0) {
			return fmt.Errorf("decode of %x reports code %d with error %v", clip(in), code, err)
		}
		r.Class("packet code %d", code)
	case "records":
		err = new(egts.ServiceDataSet).Decode(data)
	case "subs":
		err = new(egts.RecordDataSet).Decode(data)
	case "response":
		err = new(egts.PtResponse).Decode(data)
	default:
		var t int
		fmt.Sscan(c.Target, &t)
		err = bridge.New(byte(t)).Decode(data)
	}
	r.Class("%s %s", c.Target, map[bool]string{true: "accepted", false: "rejected"}[err == nil])
	if big {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 3<<30 {
			return fmt.Errorf("decoding %d bytes allocated %d bytes", len(in), d)
		}
	}
	if d := time.Since(t0); d > 20*time.Second {
		return pbt.Soft("decoding %d bytes took %s", len(in), d)
	}
	return nil
}

func genHostile(t *rapid.T) hostileCase {
	o := gen.Opt{Unknown: true, SrcData: true}
	switch rapid.IntRange(0, 9).Draw(t, "target") {
	case 0, 1, 2, 3:
		return hostileCase{Target: "packet", B: gen.HostilePacket(t)}
	case 4:
		return hostileCase{Target: "packet-key", B: gen.HostilePacket(t)}
	case 5:
		b := gen.BytesUpTo(t, 50, "noise")
		if gen.Bit(t, "m") == 1 {
			b = gen.Mutate(t, ref.RecordsBytes([]ref.Record{gen.Record(t, 3, o), gen.Record(t, 3, o)}), 3)
		}
		return hostileCase{Target: rapid.SampledFrom([]string{"records", "response"}).Draw(t, "tt"), B: b}
	case 6:
		b := gen.BytesUpTo(t, 50, "noise")
		if gen.Bit(t, "m") == 1 {
			b = gen.Mutate(t, ref.SubsBytes(gen.Subs(t, 4, o)), 3)
		}
		return hostileCase{Target: "subs", B: b}
	default:
		typ := rapid.SampledFrom(ref.Supported).Draw(t, "T")
		var b []byte
		switch rapid.IntRange(0, 2).Draw(t, "k") {
		case 0:
			b = gen.BytesUpTo(t, 60, "noise")
		case 1:
			b = gen.Mutate(t, gen.SubOf(t, typ, o).Content(), 3)
		default:
			b = gen.SubOf(t, typ, o).Content()
			b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
		}
		return hostileCase{Target: fmt.Sprint(typ), B: b}
	}
}

func genHostileBig(t *rapid.T) hostileCase {
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		return hostileCase{Target: rapid.SampledFrom([]string{"packet", "records"}).Draw(t, "t"), Nest: rapid.IntRange(1, 4800).Draw(t, "nest")}
	case 1:
		b := gen.Mutate(t, ref.RecordsBytes([]ref.Record{gen.Record(t, 2, gen.Opt{Unknown: true})}), 2)
		return hostileCase{Target: rapid.SampledFrom([]string{"packet", "records"}).Draw(t, "t"), B: b, Repeat: rapid.IntRange(2, 5000).Draw(t, "n")}
	case 2:
		b := gen.Mutate(t, ref.SubsBytes(gen.Subs(t, 2, gen.Opt{Unknown: true})), 2)
		return hostileCase{Target: "subs", B: b, Repeat: rapid.IntRange(2, 20000).Draw(t, "n")}
	default:
		return hostileCase{Target: rapid.SampledFrom([]string{"packet", "records", "subs", "response", "2", "5", "7", "15"}).Draw(t, "t"),
			B: gen.Blob(t, rapid.IntRange(100, 66000).Draw(t, "n"), "blob")}
	}
}

// enumC04: every input of up to two bytes for every decoder, and every header
// length and flag byte on a packet that is otherwise intact.
func enumC04(tier string, yield func(hostileCase) bool) {
	targets := []string{"packet", "packet-key", "records", "subs", "response"}
	for _, s := range ref.Supported {
		targets = append(targets, fmt.Sprint(s))
	}
	for _, t := range targets {
		if !yield(hostileCase{Target: t}) {
			return
		}
		for a := 0; a < 256; a++ {
			if !yield(hostileCase{Target: t, B: []byte{byte(a)}}) {
				return
			}
			if !yield(hostileCase{Target: t, B: []byte{byte(a), 0}}) || !yield(hostileCase{Target: t, B: []byte{0, byte(a)}}) ||
				!yield(hostileCase{Target: t, B: []byte{byte(a), 0xFF, 0xFF, 0xFF}}) || !yield(hostileCase{Target: t, B: []byte{0xFF, 0xFF, byte(a)}}) {
				return
			}
		}
	}
	one := byte(0)
	base := ref.Packet{PRV: 1, PID: 1, PT: 1, Records: []ref.Record{{RN: 1, Subs: []ref.Sub{{T: ref.TResult, Result: &one}}}}}
	routed := base
	routed.RTE = 1
	for _, p := range []ref.Packet{base, routed} {
		for hl := 0; hl < 256; hl++ {
			for _, fl := range []int{0, 1, 2, 3, 11, 12, 1000, 65535} {
				for pt := 0; pt < 3; pt++ {
					b := p.Bytes()
					b[3] = byte(hl)
					b[5], b[6] = byte(fl), byte(fl>>8)
					b[9] = byte(pt)
					if !yield(hostileCase{Target: "packet", B: gen.FixCRC(b)}) {
						return
					}
				}
			}
		}
		full := p.Bytes()
		for n := 0; n <= len(full); n++ {
			if !yield(hostileCase{Target: "packet", B: full[:n]}) {
				return
			}
		}
	}
}

func c04() pbt.Property {
	return pbt.Property{
		ID: "C04",
		Rule: "byte strings for every decoder (packet with and without key, record set, record data set, response, each subrecord type): noise, mutated valid encodings with and " +
			"without repaired checksums and lengths, cut encodings, nested and repeated structures up to 66 kB, and an enumeration of short inputs and header lengths; " +
			"non-trivial: a non-empty input; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.MakeEnum("short", enumC04, runC04),
			pbt.Make("hostile", 200000*6, 6000000, genHostile, runC04),
			pbt.Make("large", 200, 4000, genHostileBig, runC04).With(func(s *pbt.Sub) { s.Budget = 40 * time.Second }),
		},
	}
}
