package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
)

// toolCase is one run of the packet generator against a server behaviour.
type toolCase struct {
	PID, OID uint64
	Unix     int64 // navigation time
	Frac     string
	Zone     int // minutes east
	Lat, Lon float64
	Liquid   uint64
	// flags left out
	NoLat, NoLon, NoLiquid bool
	Timeout                int // 0: not given
	Eq                     bool
	// Server is what the server does with the packet.
	Server string
	Ack    ref.Packet // the reply, its RPID relative to PID
	Cut    []int      // sizes of the pieces
	Pause  int        // milliseconds between the pieces
	At     int        // position of damage
	After  []byte     // sent after the reply
}

var tools = []string{"ack", "ack", "ack", "ack", "wrong-pid", "result", "record", "damaged", "appdata", "garbage", "partial", "close", "reset"}

func genTool(t *rapid.T) toolCase {
	c := toolCase{PID: uint64(rapid.Uint16Range(1, 65535).Draw(t, "pid")), OID: gen.U(t, 32, "oid"), Server: rapid.SampledFrom(tools).Draw(t, "server"),
		Unix: model.Epoch + int64(gen.U32(t, "time")), Zone: rapid.SampledFrom([]int{0, 0, 180, -300, 345, -720, 840}).Draw(t, "zone"),
		Frac: rapid.SampledFrom([]string{"", "", "", ".5", ".25", ".999"}).Draw(t, "frac"), Liquid: gen.U(t, 32, "liquid"),
		NoLat: gen.Chance(t, 8, "nolat"), NoLon: gen.Chance(t, 8, "nolon"), NoLiquid: gen.Chance(t, 4, "noliquid"), Eq: gen.Bit(t, "eq") == 1}
	if c.OID == 0 {
		c.OID = 1
	}
	coord := func(l string, max float64) float64 {
		switch rapid.IntRange(0, 4).Draw(t, l+"k") {
		case 0:
			return rapid.SampledFrom([]float64{0, max, -max, max / 2, -max / 2, 0.000001, -0.000001, 45, 60.344, -33.9}).Draw(t, l)
		case 1:
			return -float64(gen.U32(t, l)) * max / 0xFFFFFFFF
		case 2:
			return float64(gen.U32(t, l)) * max / 0xFFFFFFFF
		default:
			return rapid.Float64Range(-max, max).Draw(t, l)
		}
	}
	c.Lat, c.Lon = coord("lat", 90), coord("lon", 180)
	if gen.Bit(t, "givetimeout") == 1 {
		c.Timeout = rapid.IntRange(10, 60).Draw(t, "timeout")
	}
	// a confirmation with any number of records
	c.Ack = gen.Header(t)
	c.Ack.PT = ref.PtResponse
	c.Ack.RPID = uint16(c.PID)
	nrec := rapid.IntRange(0, 3).Draw(t, "nrec")
	if gen.Chance(t, 8, "long") {
		nrec = rapid.IntRange(60, 300).Draw(t, "manyrec")
	}
	for ; nrec > 0; nrec-- {
		r := ref.Record{RN: gen.U16(t, "rn"), SST: 2, RST: 2, RPP: 3}
		for n := rapid.IntRange(0, 3).Draw(t, "nsub"); n > 0; n-- {
			r.Subs = append(r.Subs, ref.Sub{T: ref.TResponse, Resp: &ref.Resp{CRN: gen.U16(t, "crn")}})
		}
		if gen.Chance(t, 6, "foreign") {
			r.Subs = append(r.Subs, gen.Unknown(t))
		}
		c.Ack.Records = append(c.Ack.Records, r)
	}
	switch c.Server {
	case "wrong-pid":
		d := rapid.IntRange(1, 65535).Draw(t, "otherpid")
		if gen.Bit(t, "near") == 1 {
			d = rapid.SampledFrom([]int{1, 65535, 256, 65280, 255}).Draw(t, "nearpid")
		}
		c.Ack.RPID = uint16(int(c.PID) + d)
	case "result":
		c.Ack.Result = rapid.ByteRange(1, 255).Draw(t, "code")
	case "record":
		s := ref.Sub{T: ref.TResponse, Resp: &ref.Resp{CRN: gen.U16(t, "crn"), RST: rapid.ByteRange(1, 255).Draw(t, "status")}}
		if len(c.Ack.Records) == 0 {
			c.Ack.Records = []ref.Record{{SST: 2, RST: 2}}
		}
		r := &c.Ack.Records[rapid.IntRange(0, len(c.Ack.Records)-1).Draw(t, "which")]
		i := rapid.IntRange(0, len(r.Subs)).Draw(t, "where")
		r.Subs = append(r.Subs[:i:i], append([]ref.Sub{s}, r.Subs[i:]...)...)
	case "appdata":
		p := gen.Packet(t, gen.Opt{})
		p.PT = ref.PtAppdata
		p.PID = uint16(c.PID)
		c.Ack = p
	case "garbage":
		c.After = gen.BytesUpTo(t, 80, "garbage")
	}
	if c.Server == "ack" && gen.Chance(t, 4, "after") {
		c.After = gen.Packet(t, gen.Opt{}).Bytes()
	}
	c.At = rapid.IntRange(0, 1<<20).Draw(t, "at")
	for n := rapid.IntRange(0, 4).Draw(t, "pieces"); n > 0; n-- {
		c.Cut = append(c.Cut, rapid.IntRange(1, 40).Draw(t, "piece"))
	}
	if len(c.Cut) > 0 {
		c.Pause = rapid.SampledFrom([]int{1, 3, 10}).Draw(t, "pause")
	}
	return c
}

func (c toolCase) stamp() string {
	z := time.FixedZone("", c.Zone*60)
	s := time.Unix(c.Unix, 0).In(z).Format("2006-01-02T15:04:05")
	if c.Zone == 0 {
		return s + c.Frac + "Z"
	}
	return s + c.Frac + time.Unix(c.Unix, 0).In(z).Format("-07:00")
}

func (c toolCase) args(addr string) []string {
	var a []string
	add := func(k, v string) {
		if c.Eq {
			a = append(a, "-"+k+"="+v)
		} else {
			a = append(a, "--"+k, v)
		}
	}
	add("pid", strconv.FormatUint(c.PID, 10))
	add("oid", strconv.FormatUint(c.OID, 10))
	add("time", c.stamp())
	if !c.NoLat {
		add("lat", strconv.FormatFloat(c.Lat, 'f', -1, 64))
	}
	if !c.NoLon {
		add("lon", strconv.FormatFloat(c.Lon, 'f', -1, 64))
	}
	if !c.NoLiquid {
		add("liquid", strconv.FormatUint(c.Liquid, 10))
	}
	if c.Timeout > 0 {
		add("timeout", strconv.Itoa(c.Timeout))
	}
	add("server", addr)
	return a
}

// checkSent compares what the tool sent with what it was asked to send.
func (c toolCase) checkSent(b []byte) error {
	f, n, why := ref.ParseFrame(b)
	if why != "" {
		return fmt.Errorf("the tool sent no valid packet: %s (%x)", why, b)
	}
	if n != len(b) {
		return fmt.Errorf("the tool sent %d bytes after its packet", len(b)-n)
	}
	if f.PID != uint16(c.PID) || f.PT != ref.PtAppdata {
		return fmt.Errorf("packet id %d type %d instead of %d type 1", f.PID, f.PT, c.PID)
	}
	recs, why := ref.ParseRecords(f.Body)
	if why != "" {
		return fmt.Errorf("the tool sent a wrong packet: %s", why)
	}
	pos, liq := 0, 0
	for _, r := range recs {
		for _, s := range r.Subs {
			switch s.T {
			case ref.TPos:
				pos++
				if r.OID == nil || uint64(*r.OID) != c.OID {
					return fmt.Errorf("the record's object is %v instead of %d", r.OID, c.OID)
				}
				if len(s.C) < 21 {
					return fmt.Errorf("position of %d bytes", len(s.C))
				}
				if ntm := int64(binary.LittleEndian.Uint32(s.C)) + model.Epoch; ntm != c.Unix {
					return fmt.Errorf("navigation time %d instead of %d (%s)", ntm, c.Unix, c.stamp())
				}
				lat := float64(binary.LittleEndian.Uint32(s.C[4:])) * 90 / 0xFFFFFFFF
				lon := float64(binary.LittleEndian.Uint32(s.C[8:])) * 180 / 0xFFFFFFFF
				if s.C[12]&0x20 != 0 {
					lat = -lat
				}
				if s.C[12]&0x40 != 0 {
					lon = -lon
				}
				wlat, wlon := c.Lat, c.Lon
				if c.NoLat {
					wlat = 0
				}
				if c.NoLon {
					wlon = 0
				}
				if math.Abs(lat-wlat) > 1.01*90/0xFFFFFFFF || math.Abs(lon-wlon) > 1.01*180/0xFFFFFFFF {
					return fmt.Errorf("position %.9f, %.9f instead of %.9f, %.9f", lat, lon, wlat, wlon)
				}
				if s.C[12]&1 == 0 {
					return fmt.Errorf("the position is marked as not valid")
				}
			case ref.TLLS:
				liq++
				want := c.Liquid
				if c.NoLiquid {
					want = 0
				}
				if len(s.C) != 7 || uint64(binary.LittleEndian.Uint32(s.C[3:])) != want {
					return fmt.Errorf("liquid level %x instead of %d", s.C, want)
				}
			}
		}
	}
	if pos != 1 || liq != 1 {
		return fmt.Errorf("%d positions and %d liquid levels sent", pos, liq)
	}
	return nil
}

func runTool(c toolCase, r *pbt.Rec) error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return pbt.Inconclusivef("%v", err)
	}
	defer ln.Close()
	sent := make(chan []byte, 4)
	go func() {
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			sent <- c.serve(k.(*net.TCPConn))
		}
	}()
	p, err := start("packet-gen", c.args(ln.Addr().String())...)
	if err != nil {
		return err
	}
	defer p.kill()
	code, ok := p.wait(wait)
	if !ok {
		return pbt.Soft("the tool does not end (server: %s)", c.Server)
	}
	var got []byte
	select {
	case got = <-sent:
	case <-time.After(wait):
		return pbt.Soft("the tool did not connect: status %d, %s", code, tail(p.out.String(), 300))
	}
	ln.Close()
	select {
	case <-sent:
		return fmt.Errorf("the tool connected more than once")
	default:
	}
	if c.Server != "reset" {
		if err := c.checkSent(got); err != nil {
			return err
		}
	}
	if good := c.Server == "ack"; good != (code == 0) {
		return fmt.Errorf("exit status %d, server: %s (%+v): %s", code, c.Server, brief(c.Ack), tail(p.out.String(), 300))
	}
	r.NonTrivial()
	r.Class("server: %s", c.Server)
	n := len(c.Ack.Bytes())
	r.ClassIf(c.Server == "ack" && n > 1024, "reply over 1024 bytes")
	r.ClassIf(c.Server == "ack" && len(c.Ack.Records) == 0, "reply without records")
	r.ClassIf(c.Server == "ack" && len(c.Cut) > 0, "reply in pieces")
	r.ClassIf(c.Lat < 0 || c.Lon < 0, "south or west")
	r.ClassIf(c.Zone != 0, "time zone")
	return nil
}

func brief(p ref.Packet) string {
	return fmt.Sprintf("PID %d result %d, %d records, %d bytes", p.RPID, p.Result, len(p.Records), len(p.Bytes()))
}

// serve plays the server's part and returns everything the tool sent.
func (c toolCase) serve(k *net.TCPConn) []byte {
	defer k.Close()
	k.SetNoDelay(true)
	var got []byte
	buf := make([]byte, 4096)
	k.SetReadDeadline(time.Now().Add(wait))
	for {
		n, err := k.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			return got
		}
		if _, _, why := ref.ParseFrame(got); why == "" {
			break
		}
	}
	reply := c.Ack.Bytes()
	switch c.Server {
	case "close":
		reply = nil
	case "reset":
		k.SetLinger(0)
		return got
	case "garbage":
		reply = c.After
	case "partial":
		reply = reply[:c.At%len(reply)]
	case "damaged":
		reply[c.At%len(reply)] ^= 1 << (c.At / 7 % 8)
	}
	if c.Server == "ack" {
		reply = append(reply, c.After...)
	}
	for _, n := range c.Cut {
		if n >= len(reply) {
			break
		}
		k.Write(reply[:n])
		reply = reply[n:]
		time.Sleep(time.Duration(c.Pause) * time.Millisecond)
	}
	k.Write(reply)
	k.CloseWrite()
	for {
		n, err := k.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			return got
		}
	}
}

// misuse: runs that must fail before or without a reply.
type misuse struct {
	Base toolCase
	What string
	Text string
}

var badTimes = []string{"", "now", "2021-12-16", "2021-12-16 09:12:00", "2021-12-16T09:12:00", "2021-13-16T09:12:00Z", "2021-12-16T25:12:00Z", "1639645920", "16.12.2021", "2021-12-16T09:12:00+3", "2021-02-30T00:00:00Z", "T"}

func genMisuse(t *rapid.T) misuse {
	c := misuse{Base: genTool(t), What: rapid.SampledFrom([]string{"nopid", "nooid", "notime", "zeropid", "zerooid", "badtime", "badtime", "refused", "badaddr", "silent", "late"}).Draw(t, "what")}
	c.Text = rapid.SampledFrom(badTimes).Draw(t, "text")
	return c
}

func runMisuse(c misuse, r *pbt.Rec) error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return pbt.Inconclusivef("%v", err)
	}
	defer ln.Close()
	b := c.Base
	b.Eq = true
	b.Timeout = 0
	args := b.args(ln.Addr().String())
	drop := func(k string, v string) {
		var out []string
		for _, a := range args {
			if len(a) > len(k)+2 && a[:len(k)+2] == "-"+k+"=" || a == "-"+k+"=" {
				if v == "" {
					continue
				}
				a = "-" + k + "=" + v
			}
			out = append(out, a)
		}
		args = out
	}
	contact, reply := false, false
	delay := time.Duration(0)
	switch c.What {
	case "nopid":
		drop("pid", "")
	case "nooid":
		drop("oid", "")
	case "notime":
		drop("time", "")
	case "zeropid":
		drop("pid", "0")
	case "zerooid":
		drop("oid", "0")
	case "badtime":
		drop("time", c.Text)
	case "refused":
		drop("server", "127.0.0.1:1")
	case "badaddr":
		drop("server", []string{"127.0.0.1", "127.0.0.1:99999", "nohost.invalid:5555", ":::"}[b.At%4])
	case "silent":
		args = append(args, "-timeout=1")
		contact = true
	case "late":
		// a reply within the waiting time
		contact, reply = true, true
		delay = 1300 * time.Millisecond
		if b.At%2 == 0 {
			args = append(args, "-timeout=60")
		}
	}
	conns := make(chan net.Conn, 4)
	go func() {
		for {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			conns <- k
			if reply {
				go func() {
					buf := make([]byte, 4096)
					k.Read(buf)
					time.Sleep(delay)
					k.Write((ref.Packet{PRV: 1, PID: 9, PT: ref.PtResponse, RPID: uint16(b.PID)}).Bytes())
				}()
			}
		}
	}()
	t0 := time.Now()
	p, err := start("packet-gen", args...)
	if err != nil {
		return err
	}
	defer p.kill()
	code, ok := p.wait(wait)
	took := time.Since(t0)
	if !ok {
		return pbt.Soft("the tool does not end (%s)", c.What)
	}
	ln.Close()
	if reply {
		if code != 0 {
			return pbt.Soft("status %d although the reply comes after %s: %s", code, delay, tail(p.out.String(), 300))
		}
	} else if code == 0 {
		return fmt.Errorf("exit status 0 (%s %q)", c.What, c.Text)
	}
	if c.What == "silent" && took < 980*time.Millisecond {
		return fmt.Errorf("gives up after %s, the waiting time is 1 s", took)
	}
	select {
	case k := <-conns:
		defer k.Close()
		if !contact {
			k.SetReadDeadline(time.Now().Add(wait))
			if b, _ := io.ReadAll(k); len(b) > 0 {
				return fmt.Errorf("a packet is sent although the parameters are wrong (%s %q)", c.What, c.Text)
			}
		}
	default:
		if contact {
			return fmt.Errorf("no connection (%s): %s", c.What, tail(p.out.String(), 300))
		}
	}
	r.NonTrivial()
	r.Class("%s", c.What)
	return nil
}

func c24() pbt.Property {
	return pbt.Property{
		ID: "C24",
		Rule: "the packet generator is run with generated parameters against a server with a generated behaviour (confirmation of any size, in pieces, with or without records; wrong id, error codes, failed record, damaged, foreign or partial packets, garbage, " +
			"close, reset, silence); the bytes sent are decoded independently and compared, the exit status is checked; runs with missing or wrong parameters; non-trivial: every case; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("send", 6000, 150000, genTool, runTool),
			pbt.Make("misuse", 800, 12000, genMisuse, runMisuse),
		},
	}
}
