package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// costCase: a structure repeated until it fills a packet.
type costCase struct {
	// Kind: "records" (Unit is a record), "subs" (a subrecord in one record),
	// "response" (records in a response packet), "content" (one subrecord of
	// type T with content Unit).
	Kind string
	T    byte `json:",omitempty"`
	Unit []byte
	// Size of the larger packet's body; the smaller one has an eighth.
	Size int
	// Vary: the repetitions differ (record number, first byte of the content).
	Vary bool `json:",omitempty"`
	// Key: the packet is decoded and encoded with a key.
	Key bool `json:",omitempty"`
}

func (c costCase) packet(size int) []byte {
	p := ref.Packet{PRV: 1, PID: 7, PT: 1}
	var body []byte
	fill := func(at, n int) {
		for i := 0; len(body)+len(c.Unit) <= size; i++ {
			body = append(body, c.Unit...)
			if u := body[len(body)-len(c.Unit):]; c.Vary && len(u) > at+n {
				for k := 0; k < n; k++ {
					u[at+k] ^= byte(i >> (8 * k))
				}
			}
		}
	}
	if c.Kind == "subs" {
		fill(3, 2)
	} else if c.Kind != "content" {
		fill(2, 2)
	} else {
		fill(0, 0)
	}
	switch c.Kind {
	case "subs":
		body = append(ref.Record{RN: 1, SST: 2, RST: 2}.Header(uint16(len(body))), body...)
	case "content":
		body = ref.RecordsBytes([]ref.Record{{RN: 1, SST: 2, RST: 2, Subs: []ref.Sub{{T: c.T, Raw: body}}}})
	case "response":
		p.PT = 0
		body = append([]byte{1, 0, 0}, body...)
	}
	if c.Key {
		p.ENA = 1
	}
	return p.WithBody(body)
}

func genCost(t *rapid.T) costCase {
	c := costCase{Kind: rapid.SampledFrom([]string{"records", "records", "subs", "subs", "response", "content"}).Draw(t, "kind"), Size: rapid.SampledFrom([]int{65400, 65000, 50000, 33000}).Draw(t, "size"), Vary: gen.Bit(t, "vary") == 1, Key: gen.Chance(t, 5, "key")}
	o := gen.Opt{Unknown: true}
	switch c.Kind {
	case "records":
		c.Unit = gen.Record(t, 3, o).Bytes()
	case "response":
		rec := ref.Record{RN: gen.U16(t, "rn"), SST: 2, RST: 2}
		for n := rapid.IntRange(0, 2).Draw(t, "n"); n > 0; n-- {
			rec.Subs = append(rec.Subs, ref.Sub{T: ref.TResponse, Raw: []byte{gen.B8(t, "crn"), 0, 0}})
		}
		c.Unit = rec.Bytes()
	case "subs":
		c.Unit = gen.Sub(t, o).Bytes()
	case "content":
		c.T = rapid.SampledFrom(append([]byte{200}, ref.Supported...)).Draw(t, "T")
		if c.T == ref.TResponse {
			c.T = ref.TPos // responses in responses are a matter of depth
		}
		c.Unit = gen.Bytes(t, rapid.SampledFrom([]int{1, 2, 3, 8, 60}).Draw(t, "len"), "unit")
		if c.T == ref.TPlus && gen.Bit(t, "proto") == 1 {
			c.Unit = ref.Sub{T: ref.TPlus, Plus: gen.Plus(t)}.Content()
		}
	}
	if gen.Chance(t, 3, "mutate") {
		c.Unit = gen.Mutate(t, c.Unit, 2)
	}
	if len(c.Unit) == 0 {
		c.Unit = []byte{0}
	}
	return c
}

// cpu is the processor time of this thread.
func cpu() time.Duration {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0)
	return time.Duration(ts.Nano())
}

type cost struct {
	bytes uint64
	cpu   time.Duration
}

// measure is the least cost of some runs.
func measure(n int, f func()) (c cost) {
	for i := 0; i < n; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t := cpu()
		f()
		d := cpu() - t
		runtime.ReadMemStats(&b)
		if x := b.TotalAlloc - a.TotalAlloc; i == 0 || x < c.bytes {
			c.bytes = x
		}
		if i == 0 || d < c.cpu {
			c.cpu = d
		}
	}
	return
}

const (
	decodeCap = 800 // bytes allocated per byte of a packet
	encodeCap = 200
	smallCap  = 96 << 10 // bytes allocated for any packet: room for the largest
)

func quiet() func() {
	runtime.LockOSThread()
	g, m := debug.SetGCPercent(-1), debug.SetMemoryLimit(1<<30)
	return func() {
		debug.SetGCPercent(g)
		debug.SetMemoryLimit(m)
		runtime.UnlockOSThread()
	}
}

func runCost(c costCase, r *pbt.Rec) error {
	if len(c.Unit) == 0 {
		return nil
	}
	defer quiet()()
	var opt []func(*egts.Options)
	if c.Key {
		opt = append(opt, withKey(passKey{}))
	}
	small, big := c.packet(c.Size/8), c.packet(c.Size)
	if len(small) < 1000 || len(big) > 65535+30 {
		return nil
	}
	step := func(what string, limit uint64, small, big int, fs, fb func()) error {
		s, b := measure(3, fs), measure(3, fb)
		if b.bytes > limit*uint64(big)+smallCap {
			return fmt.Errorf("%s %d bytes allocates %d bytes", what, big, b.bytes)
		}
		perS, perB := float64(s.bytes)/float64(small), float64(b.bytes)/float64(big)
		if perB > 3*perS+10 {
			return fmt.Errorf("%s %d bytes allocates %d bytes, %d bytes of the same structure only %d", what, big, b.bytes, small, s.bytes)
		}
		for i := 0; ; i++ {
			if float64(b.cpu)/float64(big) <= 3*float64(s.cpu)/float64(small)+20 {
				break
			}
			if i == 4 {
				return pbt.Soft("%s %d bytes takes %v, %d bytes of the same structure only %v", what, big, b.cpu, small, s.cpu)
			}
			s, b = measure(10, fs), measure(10, fb)
		}
		r.ClassIf(perB > 100, what+": over 100 bytes allocated per byte")
		r.ClassIf(perB > 200, what+": over 200 bytes allocated per byte")
		return nil
	}
	ok := true
	decode := func(b []byte) func() {
		return func() {
			_, err := new(egts.Package).Decode(b, opt...)
			ok = ok && err == nil
		}
	}
	if err := step("decoding", decodeCap, len(small), len(big), decode(small), decode(big)); err != nil {
		return err
	}
	r.NonTrivial()
	r.Class("%s", c.Kind)
	r.ClassIf(!ok, "refused")
	if ok {
		var ps, pb egts.Package
		ps.Decode(small, opt...)
		pb.Decode(big, opt...)
		encode := func(p *egts.Package) func() { return func() { p.Encode(opt...) } }
		if err := step("encoding", encodeCap, len(small), len(big), encode(&ps), encode(&pb)); err != nil {
			return err
		}
	}
	return nil
}

// runSmall: announced lengths cost nothing.
func runSmall(c hostileCase, r *pbt.Rec) error {
	if len(c.B) == 0 || c.Nest > 0 || c.Repeat > 0 {
		return nil
	}
	f := func() { new(egts.Package).Decode(c.B) }
	switch c.Target {
	case "packet":
	case "records":
		f = func() { new(egts.ServiceDataSet).Decode(c.B) }
	case "subs":
		f = func() { new(egts.RecordDataSet).Decode(c.B) }
	case "response":
		f = func() { new(egts.PtResponse).Decode(c.B) }
	default:
		var t int
		if fmt.Sscan(c.Target, &t); t == 0 {
			return nil
		}
		f = func() { bridge.New(byte(t)).Decode(c.B) }
	}
	k := measure(1, f)
	if k.bytes > decodeCap*uint64(len(c.B))+smallCap {
		// a garbage collection or the test's own goroutines may have allocated
		if k = measure(5, f); k.bytes > decodeCap*uint64(len(c.B))+smallCap {
			return fmt.Errorf("decoding the %d bytes %x as %s allocates %d bytes", len(c.B), clip(c.B), c.Target, k.bytes)
		}
	}
	r.NonTrivial()
	return nil
}

func c33() pbt.Property {
	return pbt.Property{
		ID: "C33",
		Rule: "cost: one generated, sometimes mutated record, subrecord or content (every kind, with and without a key) repeated to 33..65 kB and to an eighth of that; memory allocated and processor time of decoding, and of encoding what was decoded, per byte, compared (a violation: three times as much per byte in the larger one, or more than 800 bytes allocated per byte decoded, 200 per byte encoded); " +
			"announced: hostile inputs as for C04, each allocating at most 800 bytes per byte and 96 kB; non-trivial: decoded or refused after measuring; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("cost", 1200, 50000, genCost, runCost),
			pbt.Make("announced", 40000, 2000000, genHostile, runSmall),
		},
	}
}
