package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"

	"github.com/kuznetsovin/egts-protocol/libs/egts"
	"pgregory.net/rapid"
	"verif/bridge"
	"verif/gen"
	"verif/pbt"
	"verif/ref"
)

// keySpec describes a stand-in cipher.
type keySpec struct {
	// Kind: "xor", "pad" (adds a random-looking tail), "prefix" (adds an
	// initialisation vector), "reverse" or "shrink" (drops a known tail).
	Kind string
	Arg  byte
	// Fail makes the key report an error: "encode", "decode" or "".
	Fail string
}

type cipher struct {
	spec     keySpec
	enc, dec int
}

func (k *cipher) xform(b []byte) []byte {
	out := append([]byte{}, b...)
	switch k.spec.Kind {
	case "xor":
		for i := range out {
			out[i] ^= k.spec.Arg + byte(i*7)
		}
	case "pad":
		for i := 0; i <= int(k.spec.Arg%16); i++ {
			out = append(out, byte(i)^k.spec.Arg)
		}
	case "prefix":
		out = append(bytes.Repeat([]byte{k.spec.Arg}, 1+int(k.spec.Arg%16)), out...)
	case "reverse":
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (k *cipher) undo(b []byte) ([]byte, error) {
	out := append([]byte{}, b...)
	n := 1 + int(k.spec.Arg%16)
	switch k.spec.Kind {
	case "xor", "reverse":
		return k.xform(b), nil
	case "pad":
		if len(out) < n {
			return nil, errors.New("too short")
		}
		return out[:len(out)-n], nil
	case "prefix":
		if len(out) < n {
			return nil, errors.New("too short")
		}
		return out[n:], nil
	}
	return out, nil
}

var errKey = errors.New("key refuses")

func (k *cipher) Encode(b []byte) ([]byte, error) {
	k.enc++
	if k.spec.Fail == "encode" {
		return b, errKey
	}
	return k.xform(b), nil
}

func (k *cipher) Decode(b []byte) ([]byte, error) {
	k.dec++
	if k.spec.Fail == "decode" {
		// hand the plain text back together with the error
		out, _ := k.undo(b)
		return out, errKey
	}
	return k.undo(b)
}

type cryptCase struct {
	P   ref.Packet
	Key keySpec
	// NoKey: no key is supplied at all.
	NoKey bool
}

// adoptCoords takes over the library's choice of coordinates where it is
// within one wire unit of the model's; it returns the undo function.
func adoptCoords(p ref.Packet, got []byte) func() {
	var undo []func()
	for _, po := range bridge.PosOffsets(p) {
		if len(got) < po.Off+8 {
			break
		}
		q, la, lo := po.Pos, po.Pos.LAT, po.Pos.LONG
		undo = append(undo, func() { q.LAT, q.LONG = la, lo })
		if g := binary.LittleEndian.Uint32(got[po.Off:]); near(g, la) {
			q.LAT = g
		}
		if g := binary.LittleEndian.Uint32(got[po.Off+4:]); near(g, lo) {
			q.LONG = g
		}
	}
	return func() {
		for _, f := range undo {
			f()
		}
	}
}

func runC07(c cryptCase, r *pbt.Rec) error {
	k := &cipher{spec: c.Key}
	encrypted := c.P.ENA != 0
	var opts []func(*egts.Options)
	if !c.NoKey {
		opts = append(opts, withKey(k))
	}
	r.Class("key %s ena %d", c.Key.Kind, c.P.ENA)
	r.ClassIf(c.NoKey, "no key")
	r.ClassIf(c.Key.Fail != "", "failing key: "+c.Key.Fail)
	if encrypted {
		r.NonTrivial()
	}
	body := c.P.Body()
	cbody := body
	if encrypted {
		cbody = k.xform(body)
	}

	// encoding
	e := bridge.Packet(c.P, false)
	out, err := e.Encode(opts...)
	switch {
	case encrypted && (c.NoKey || c.Key.Fail == "encode"):
		r.Class("encode must fail")
		if err == nil {
			return fmt.Errorf("encrypted packet encoded without a working key to %x", clip(out))
		}
		if bytes.Contains(out, body) {
			return fmt.Errorf("failed encoding returned the plain text body: %x", clip(out))
		}
	case err != nil:
		return fmt.Errorf("encode failed: %v", err)
	default:
		if !encrypted && k.enc+k.dec != 0 {
			return fmt.Errorf("key applied to an unencrypted packet")
		}
		hl := c.P.HeaderLen()
		if len(out) < hl+2 {
			return fmt.Errorf("encoded packet %x is too short", out)
		}
		plain := out[hl : len(out)-2]
		if encrypted {
			if plain, err = k.undo(plain); err != nil {
				return fmt.Errorf("encoded body %x is not the transformed body", clip(out))
			}
		}
		undo := adoptCoords(c.P, append(append([]byte{}, out[:hl]...), plain...))
		want := c.P.Body()
		if encrypted {
			want = k.xform(want)
		}
		wire := c.P.WithBody(want)
		undo()
		if !bytes.Equal(out, wire) {
			return fmt.Errorf("encrypted packet differs at offset %d:\n got %x\nwant %x", firstDiff(out, wire), clip(out), clip(wire))
		}
		if c.Key.Fail == "" {
			// the library's own round trip
			got, err := decode(out, opts...)
			if err != nil {
				return fmt.Errorf("own packet: %v", err)
			}
			if d := (bridge.Cmp{CoordTol: 1}).Diff(bridge.Packet(c.P, false), got); d != "" {
				return fmt.Errorf("round trip changes the packet: %s", d)
			}
		}
	}

	// decoding
	k.enc, k.dec = 0, 0
	wire := c.P.WithBody(cbody)
	got := &egts.Package{}
	code, err := got.Decode(append([]byte{}, wire...), opts...)
	if encrypted && (c.NoKey || c.Key.Fail == "decode") {
		r.Class("decode must fail")
		if err == nil || code != 129 {
			return fmt.Errorf("encrypted packet decoded without a working key: code %d, error %v (want code 129)", code, err)
		}
		return nil
	}
	if err != nil || code != 0 {
		return fmt.Errorf("decode failed with code %d: %v", code, err)
	}
	if !encrypted && k.enc+k.dec != 0 {
		return fmt.Errorf("key applied to an unencrypted packet")
	}
	w := bridge.Packet(c.P, true)
	w.FrameDataLength = uint16(len(cbody))
	w.HeaderCheckSum = wire[c.P.HeaderLen()-1]
	w.ServicesFrameDataCheckSum = ref.CRC16(cbody)
	if d := (bridge.Cmp{Lengths: true}).Diff(w, got); d != "" {
		return fmt.Errorf("packet %x decodes wrongly with its key: %s", clip(wire), d)
	}

	// a damaged cipher text is refused before the key can make sense of it
	if encrypted && len(cbody) > 0 {
		bad := append([]byte{}, wire...)
		bad[c.P.HeaderLen()+int(c.Key.Arg)%len(cbody)] ^= 0x10
		code, err := new(egts.Package).Decode(bad, opts...)
		if err == nil || code == 0 {
			return fmt.Errorf("encrypted packet with a damaged body is accepted")
		}
	}
	return nil
}

func genCrypt(t *rapid.T) cryptCase {
	c := cryptCase{P: gen.Packet(t, gen.Opt{Types: noPlus})}
	if len(c.P.Records) == 0 {
		c.P.Records = []ref.Record{gen.Record(t, 3, gen.Opt{Types: noPlus})}
	}
	normalise(&c.P)
	c.P.ENA = byte(rapid.IntRange(0, 3).Draw(t, "ENA"))
	c.Key = keySpec{Kind: rapid.SampledFrom([]string{"xor", "pad", "prefix", "reverse"}).Draw(t, "kind"), Arg: gen.B8(t, "arg")}
	switch rapid.IntRange(0, 5).Draw(t, "fail") {
	case 4:
		c.Key.Fail = "encode"
	case 5:
		c.Key.Fail = "decode"
	}
	c.NoKey = gen.Chance(t, 5, "nokey")
	return c
}

func c07() pbt.Property {
	return pbt.Property{
		ID: "C07",
		Rule: "packets with every encryption flag value and stand-in keys (byte-wise, length-changing, order-changing; working, failing to encode, failing to decode, absent), " +
			"against the reference packet carrying the transformed body; non-trivial: the encryption flag is set; distinct by the case's JSON",
		Subs: []pbt.Sub{pbt.Make("crypt", 40000*6, 1500000, genCrypt, runC07)},
	}
}
