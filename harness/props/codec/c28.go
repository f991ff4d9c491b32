package main

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// input is a packet, or bytes that need not be one.
type input struct {
	P *ref.Packet `json:",omitempty"`
	B []byte      `json:",omitempty"`
}

func (i input) bytes() []byte {
	if i.P != nil {
		return i.P.Bytes()
	}
	return append([]byte{}, i.B...)
}

func genInput(t *rapid.T) input {
	o := gen.Opt{Unknown: true, SrcData: true}
	switch rapid.IntRange(0, 7).Draw(t, "input") {
	case 0:
		return input{B: gen.HostilePacket(t)}
	case 1:
		b := gen.Packet(t, o).Bytes()
		return input{B: gen.Mutate(t, b, 2)}
	case 2:
		b := gen.Packet(t, o).Bytes()
		return input{B: b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]}
	default:
		p := gen.Packet(t, o)
		return input{P: &p}
	}
}

// histOp is one step of a history.
type histOp struct {
	// decode: input A from its buffer
	// spoil: overwrite the buffer of input A
	// encode: result A
	// mangle: overwrite everything that result A refers to
	// scrub: overwrite output A
	Do string
	A  int
}

type histCase struct {
	In  []input
	Ops []histOp
}

func genHist(t *rapid.T) histCase {
	var c histCase
	for n := rapid.IntRange(1, 4).Draw(t, "inputs"); n > 0; n-- {
		c.In = append(c.In, genInput(t))
	}
	for n := rapid.IntRange(2, 14).Draw(t, "ops"); n > 0; n-- {
		c.Ops = append(c.Ops, histOp{rapid.SampledFrom([]string{"decode", "decode", "decode", "encode", "encode", "spoil", "mangle", "scrub"}).Draw(t, "do"), rapid.IntRange(0, 7).Draw(t, "on")})
	}
	return c
}

// outcome is what decoding an input gives, taken apart from everything else.
type outcome struct {
	code uint8
	err  string
	want *egts.Package
}

func alone(in input) (o outcome) {
	p := &egts.Package{}
	code, err := p.Decode(in.bytes())
	o = outcome{code: code, want: p}
	if err != nil {
		o.err = err.Error()
	}
	if in.P != nil {
		o = outcome{want: bridge.Packet(*in.P, true)}
	}
	return
}

func (o outcome) diff(code uint8, err error, p *egts.Package) string {
	switch {
	case (err != nil) != (o.err != ""):
		return fmt.Sprintf("error %v instead of %q", err, o.err)
	case code != o.code:
		return fmt.Sprintf("code %d instead of %d", code, o.code)
	case err != nil:
		return ""
	}
	return (bridge.Cmp{Lengths: true}).Diff(o.want, p)
}

// overwrite changes everything reachable from v.
func overwrite(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			overwrite(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(12345, 0)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				overwrite(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := v.Bytes()
			b = b[:cap(b)]
			for i := range b {
				b[i] = 0xA5
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			overwrite(v.Index(i))
		}
	}
	if !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint())
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 1)
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString(v.String() + "~")
	}
}

const spare = 24

func runHist(c histCase, r *pbt.Rec) error {
	type result struct {
		p     *egts.Package
		in    int
		bytes []byte // its encoding
		dead  bool
	}
	base := make([]outcome, len(c.In))
	bufs := make([][]byte, len(c.In))
	orig := make([][]byte, len(c.In))
	for i, in := range c.In {
		base[i] = alone(in)
		orig[i] = in.bytes()
		bufs[i] = make([]byte, len(orig[i]), len(orig[i])+spare)
	}
	var res []*result
	var outs, copies [][]byte
	spoiled, encoded := false, false
	check := func(when string) error {
		for k, x := range res {
			if x.dead {
				continue
			}
			if d := (bridge.Cmp{}).Diff(base[x.in].want, x.p); d != "" {
				return fmt.Errorf("%s: the structure decoded from input %d (result %d) has changed: %s", when, x.in, k, d)
			}
		}
		for k := range outs {
			if copies[k] != nil && !bytes.Equal(outs[k], copies[k]) {
				return fmt.Errorf("%s: output %d has changed to %x", when, k, clip(outs[k]))
			}
		}
		return nil
	}
	for n, op := range c.Ops {
		when := fmt.Sprintf("step %d (%s)", n+1, op.Do)
		switch op.Do {
		case "decode":
			i := op.A % len(c.In)
			full := bufs[i][:cap(bufs[i])]
			copy(full, orig[i])
			for k := len(orig[i]); k < len(full); k++ {
				full[k] = byte(k)
			}
			p := &egts.Package{}
			code, err := p.Decode(bufs[i])
			if !bytes.Equal(full[:len(orig[i])], orig[i]) {
				return fmt.Errorf("%s: decoding changed its input %x to %x", when, clip(orig[i]), clip(full))
			}
			for k := len(orig[i]); k < len(full); k++ {
				if full[k] != byte(k) {
					return fmt.Errorf("%s: decoding changed bytes behind its input %x", when, clip(orig[i]))
				}
			}
			if d := base[i].diff(code, err, p); d != "" {
				return fmt.Errorf("%s: input %d: %s", when, i, d)
			}
			if err == nil {
				res = append(res, &result{p: p, in: i})
			} else {
				r.Class("a failed decode in between")
			}
		case "spoil":
			full := bufs[op.A%len(c.In)]
			for k := range full {
				full[k] = 0x5A
			}
			spoiled = spoiled || len(res) > 0
		case "encode":
			if len(res) == 0 {
				continue
			}
			x := res[op.A%len(res)]
			if x.dead {
				continue
			}
			b, err := x.p.Encode()
			if base[x.in].want.EncryptionAlg != "00" {
				if err == nil {
					return fmt.Errorf("%s: encrypted packet encodes without a key", when)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: result of input %d does not encode: %v", when, x.in, err)
			}
			if x.bytes != nil && !bytes.Equal(b, x.bytes) {
				return fmt.Errorf("%s: encoding the same structure again gives\n%x instead of\n%x", when, clip(b), clip(x.bytes))
			}
			x.bytes = append([]byte{}, b...)
			outs, copies = append(outs, b), append(copies, x.bytes)
			encoded = true
		case "mangle":
			if len(res) == 0 {
				continue
			}
			x := res[op.A%len(res)]
			overwrite(reflect.ValueOf(x.p))
			x.dead = true
			r.ClassIf(len(res) > 1, "a result overwritten")
		case "scrub":
			if len(outs) == 0 {
				continue
			}
			k := op.A % len(outs)
			b := outs[k][:cap(outs[k])]
			for i := range b {
				b[i] = 0xC3
			}
			copies[k] = nil
			r.Class("an output overwritten")
		}
		if err := check(when); err != nil {
			return err
		}
	}
	r.ClassIf(spoiled, "the buffer reused after decoding")
	r.ClassIf(encoded, "encoded")
	if len(res) > 1 && (spoiled || encoded) {
		r.NonTrivial()
	}
	return nil
}

// parCase decodes and encodes in several goroutines at once.
type parCase struct {
	In     []input
	Lanes  [][]int // per goroutine, inputs by index
	Yield  bool
	Rounds int
}

func genPar(t *rapid.T) parCase {
	c := parCase{Yield: gen.Bit(t, "yield") == 1, Rounds: rapid.IntRange(1, 4).Draw(t, "rounds")}
	for n := rapid.IntRange(1, 5).Draw(t, "inputs"); n > 0; n-- {
		c.In = append(c.In, genInput(t))
	}
	for n := rapid.IntRange(2, 6).Draw(t, "lanes"); n > 0; n-- {
		var l []int
		for m := rapid.IntRange(1, 4).Draw(t, "steps"); m > 0; m-- {
			l = append(l, rapid.IntRange(0, len(c.In)-1).Draw(t, "in"))
		}
		c.Lanes = append(c.Lanes, l)
	}
	return c
}

func runPar(c parCase, r *pbt.Rec) error {
	base := make([]outcome, len(c.In))
	enc := make([][]byte, len(c.In))
	bufs := make([][]byte, len(c.In))
	ok := 0
	for i, in := range c.In {
		base[i] = alone(in)
		bufs[i] = in.bytes()
		if base[i].err == "" {
			ok++
			p := &egts.Package{}
			if code, err := p.Decode(in.bytes()); err != nil {
				return fmt.Errorf("input %d: code %d, %v", i, code, err)
			}
			enc[i], _ = p.Encode()
		}
	}
	before := races()
	var wg sync.WaitGroup
	errs := make(chan error, len(c.Lanes))
	start := make(chan bool)
	for g, lane := range c.Lanes {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for n := 0; n < c.Rounds; n++ {
				for _, i := range lane {
					p := &egts.Package{}
					code, err := p.Decode(bufs[i])
					if c.Yield {
						runtime.Gosched()
					}
					if d := base[i].diff(code, err, p); d != "" {
						errs <- fmt.Errorf("goroutine %d, input %d %x: %s", g, i, clip(bufs[i]), d)
						return
					}
					if err != nil {
						continue
					}
					b, err := p.Encode()
					if enc[i] != nil && (err != nil || !bytes.Equal(b, enc[i])) {
						errs <- fmt.Errorf("goroutine %d, input %d encodes to\n%x (%v) instead of\n%x", g, i, clip(b), err, clip(enc[i]))
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if n := races() - before; n > 0 {
		return fmt.Errorf("%d data races", n)
	}
	if ok > 0 {
		r.NonTrivial()
	}
	r.ClassIf(ok < len(c.In), "with inputs that are refused")
	return nil
}

func c28() pbt.Property {
	return pbt.Property{
		ID: "C28",
		Rule: "histories of 2..14 steps (decode, encode, overwrite the input buffer, overwrite everything a result refers to, overwrite an output) over 1..4 inputs (packets with any subrecords, corrupted, cut, hostile bytes), every other result and output compared after every step; 2..6 goroutines decoding shared inputs and encoding, under the race detector; " +
			"non-trivial: at least two results and a reused buffer or an encoding (histories), an accepted input (goroutines); distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("history", 60000, 3000000, genHist, runHist),
			pbt.Make("concurrent", 12000, 600000, genPar, runPar),
		},
	}
}
