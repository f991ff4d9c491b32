package main

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

// script is one client's timing. Times are in thousandths of the lifetime.
type script struct {
	// Kind: "idle" (sends, then goes silent), "active" (keeps sending at
	// intervals below the lifetime), "close" (client ends the stream).
	Kind string
	// Packets sent at once at the start.
	Packets int
	// Cut: bytes of one more packet sent before the silence (0: none).
	Cut int
	// Gaps: silences between pieces (active).
	Gaps []int
	// Piece: bytes per piece; 0 sends whole packets (active).
	Piece int
	// Pause before the first byte (active and idle).
	Pause int
	// Mix: what the packets are, in turn (active): "" a position, "bad" a
	// wrong checksum, "response" an acknowledgement, "other" a record without
	// position.
	Mix []string `json:",omitempty"`
	// Store: thousandths of the lifetime that saving every second packet takes
	// (active).
	Store int `json:",omitempty"`
	// base is where the numbers of this script's packets start.
	base int
}

// packet is the n-th (from 1) packet of the script.
func (s script) packet(n int) []byte {
	kind := ""
	if len(s.Mix) > 0 {
		kind = s.Mix[n%len(s.Mix)]
	}
	b := ttlPacket(s.base + n)
	switch kind {
	case "bad":
		b[len(b)-1] ^= 0x55
	case "response":
		b = ref.Packet{PRV: 1, PID: uint16(s.base + n), PT: 0, RPID: uint16(n)}.Bytes()
	case "other":
		b = ref.Packet{PRV: 1, PID: uint16(s.base + n), PT: 1, Records: []ref.Record{{RN: uint16(n), SST: 2, RST: 2}}}.Bytes()
	}
	return b
}

// replies is how many of the script's first n packets the server answers.
func (s script) replies(n int) int {
	k := 0
	for i := 1; i <= n; i++ {
		if len(s.Mix) == 0 || s.Mix[i%len(s.Mix)] != "response" {
			k++
		}
	}
	return k
}

type ttlCase struct {
	TTLms   int
	Scripts []script
}

func genTTL(t *rapid.T) ttlCase {
	c := ttlCase{TTLms: rapid.SampledFrom([]int{600, 800, 1000}).Draw(t, "ttl")}
	for n := rapid.IntRange(8, 24).Draw(t, "n"); n > 0; n-- {
		s := script{Kind: rapid.SampledFrom([]string{"idle", "idle", "active", "active", "close"}).Draw(t, "kind"), Packets: rapid.IntRange(0, 3).Draw(t, "packets")}
		switch s.Kind {
		case "active":
			s.Gaps = rapid.SliceOfN(rapid.IntRange(200, 420), 6, 14).Draw(t, "gaps")
			s.Piece = rapid.SampledFrom([]int{0, 0, 1, 3, 4, 7, 10, 11, 20}).Draw(t, "piece")
			s.Pause = rapid.SampledFrom([]int{0, 0, 300}).Draw(t, "pause")
			switch rapid.IntRange(0, 5).Draw(t, "sort") {
			case 0, 1:
				s.Mix = rapid.SliceOfN(rapid.SampledFrom([]string{"", "bad", "response", "other"}), 2, 3).Draw(t, "mix")
			case 2:
				s.Mix = []string{rapid.SampledFrom([]string{"bad", "response", "other"}).Draw(t, "only")}
			case 3:
				s.Store = rapid.SampledFrom([]int{300, 900, 1200, 1700}).Draw(t, "store")
			}
		default:
			s.Cut = rapid.SampledFrom([]int{0, 1, 5, 9, 10, 11, 12, 30}).Draw(t, "cut")
			if gen.Bit(t, "p") == 1 {
				s.Pause = rapid.IntRange(0, 400).Draw(t, "pause")
			}
		}
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

func ttlPacket(pid int) []byte {
	p := ref.Packet{PRV: 1, PID: uint16(pid), PT: 1, Records: []ref.Record{{RN: uint16(pid), SST: 2, RST: 2, Subs: []ref.Sub{{T: ref.TPos, Pos: &ref.Pos{NTM: uint32(pid), VLD: 1}}}}}}
	return p.Bytes()
}

// errDiscard: the harness itself was too slow to keep the schedule.
var errDiscard = fmt.Errorf("discarded")

func answered(k *srv.Conn, n int) string {
	raw, _, _, _ := k.State()
	rs, bad := model.ParseReplies(raw)
	if bad != "" {
		return bad
	}
	if len(rs) != n {
		return fmt.Sprintf("%d of %d packets answered", len(rs), n)
	}
	return ""
}

func (s script) play(sv *srv.Server, ttl time.Duration) error {
	part := func(m int) time.Duration { return ttl * time.Duration(m) / 1000 }
	begin := time.Now()
	k, err := sv.Dial()
	if err != nil {
		return err
	}
	defer k.Close()
	last := begin
	slow := false
	send := func(b []byte) error {
		if time.Since(last) > ttl*8/10 {
			slow = true
		}
		last = time.Now()
		err := write(k, b)
		if time.Since(last) > ttl*2/10 {
			slow = true
		}
		return err
	}
	time.Sleep(part(s.Pause))
	for i := 0; i < s.Packets; i++ {
		if err := send(s.packet(i + 1)); err != nil {
			if slow {
				return errDiscard
			}
			return pbt.Soft("%+v: connection ended while sending: %v", s, err)
		}
	}
	sent := s.Packets
	switch s.Kind {
	case "close":
		if s.Cut > 0 {
			send(ttlPacket(99)[:s.Cut])
		}
		t := time.Now()
		if err := k.C.CloseWrite(); err != nil {
			return pbt.Soft("%+v: %v", s, err)
		}
		if !k.WaitEnd(ttl + 20*time.Second) {
			return pbt.Soft("%+v: the server does not close after the client did", s)
		}
		if _, _, when, _ := k.State(); when.Sub(t) > 10*time.Second {
			return pbt.Soft("%+v: the server closes only %v after the client did", s, when.Sub(t))
		}
		if d := answered(k, s.replies(sent)); d != "" {
			if slow {
				return errDiscard
			}
			return pbt.Soft("%+v: %s", s, d)
		}
	case "idle":
		if s.Cut > 0 {
			if err := send(ttlPacket(99)[:s.Cut]); err != nil {
				if slow {
					return errDiscard
				}
				return pbt.Soft("%+v: connection ended while sending: %v", s, err)
			}
		}
		quiet := last
		if s.Packets == 0 && s.Cut == 0 {
			quiet = begin
		}
		if !k.WaitEnd(ttl + 15*time.Second) {
			return pbt.Soft("%+v: a connection idle for %v is not closed (lifetime %v)", s, time.Since(quiet), ttl)
		}
		_, _, when, _ := k.State()
		if d := when.Sub(quiet); d < ttl-5*time.Millisecond {
			if slow {
				return errDiscard
			}
			return fmt.Errorf("%+v: closed %v after the last data, before the lifetime of %v", s, d, ttl)
		} else if d > ttl+6*time.Second {
			return pbt.Soft("%+v: closed only %v after the last data, lifetime %v", s, d, ttl)
		}
		if d := answered(k, s.replies(sent)); d != "" {
			if slow {
				return errDiscard
			}
			return pbt.Soft("%+v: %s", s, d)
		}
	case "active":
		var stream []byte
		for i := range s.Gaps {
			time.Sleep(part(s.Gaps[i]))
			if s.Piece == 0 {
				sent++
				err = send(s.packet(sent))
			} else {
				for len(stream) < s.Piece {
					sent++
					stream = append(stream, s.packet(sent)...)
				}
				err = send(stream[:s.Piece])
				stream = stream[s.Piece:]
			}
			if _, ended, _, _ := k.State(); (ended || err != nil) && !slow {
				return pbt.Soft("%+v: an active connection was closed after %v (lifetime %v)", s, time.Since(begin), ttl)
			}
		}
		if err := send(stream); err != nil && !slow {
			return pbt.Soft("%+v: an active connection was closed (lifetime %v): %v", s, ttl, err)
		}
		k.WaitReplies(s.replies(sent), srv.Limit)
		if slow {
			return errDiscard
		}
		if d := answered(k, s.replies(sent)); d != "" {
			return pbt.Soft("%+v: active for %v with lifetime %v: %s", s, time.Since(begin), ttl, d)
		}
	}
	return nil
}

func runC18(c ttlCase, r *pbt.Rec) error {
	ttl := time.Duration(c.TTLms) * time.Millisecond
	sv, err := pool.Get(ttl, 1)
	if err != nil {
		return err
	}
	long, err := pool.Get(60*time.Second, 1)
	if err != nil {
		return err
	}
	delay := map[int64]int64{}
	for i := range c.Scripts {
		s := &c.Scripts[i]
		s.base = 1000 * i
		for n := 2; s.Store > 0 && n < 100; n += 2 {
			delay[model.Epoch+int64(s.base+n)] = int64(c.TTLms * s.Store / 1000)
		}
	}
	if err := sv.Plan(nil, delay); err != nil {
		return err
	}
	defer sv.Plan(nil, nil)
	var wg sync.WaitGroup
	errs := make([]error, len(c.Scripts))
	for i := range c.Scripts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := c.Scripts[i]
			if s.Kind == "close" {
				// with a long lifetime, so that waiting for it would show
				errs[i] = s.play(long, 60*time.Second/1000)
				return
			}
			errs[i] = s.play(sv, ttl)
		}(i)
	}
	wg.Wait()
	sv.Take()
	long.Take()
	if !sv.H.Alive() {
		return sv.H.Died()
	}
	n := 0
	for i, e := range errs {
		if e == errDiscard {
			r.Class("script discarded: machine too slow")
			continue
		}
		if e != nil {
			return e
		}
		s := c.Scripts[i]
		r.Class("%s", s.Kind)
		r.ClassIf(s.Kind == "idle" && s.Cut > 0, "idle in the middle of a packet")
		r.ClassIf(s.Kind == "active" && s.Piece > 0, "active in small pieces")
		r.ClassIf(s.Kind == "active" && s.Piece == 0, "active packet by packet")
		r.ClassIf(s.Store > 1000, "active while the store takes longer than the lifetime")
		r.ClassIf(len(s.Mix) == 1, "active with packets that are not positions only")
		n++
	}
	if n > 0 {
		r.NonTrivial()
	}
	return nil
}

// foreverCase: lifetime zero means no limit.
type foreverCase struct {
	IdleMs int
	Cut    int
}

func runForever(c foreverCase, r *pbt.Rec) error {
	sv, err := pool.Get(0, 1)
	if err != nil {
		return err
	}
	k, err := sv.Dial()
	if err != nil {
		return err
	}
	defer k.Close()
	b := ttlPacket(1)
	write(k, b[:c.Cut])
	time.Sleep(time.Duration(c.IdleMs) * time.Millisecond)
	write(k, b[c.Cut:])
	if !k.WaitReplies(1, srv.Limit) {
		return pbt.Soft("no reply")
	}
	if d := answered(k, 1); d != "" {
		return fmt.Errorf("lifetime 0, idle for %d ms: %s", c.IdleMs, d)
	}
	sv.Take()
	r.Class("no limit")
	r.NonTrivial()
	return nil
}

func enumForever(tier string, yield func(foreverCase) bool) {
	// the last two are for the shards that run nothing else
	for i, cut := range []int{0, 1, 10, 11, 20, 0, 10, 0} {
		ms := []int{1500, 1500, 1500, 1500, 6000, 12000, 33000, 65000}[i]
		if tier == "thorough" {
			ms *= 6
		}
		if !yield(foreverCase{ms, cut}) {
			return
		}
	}
}

// deafCase: clients that stop reading, so that the server cannot send, and
// then fall silent.
type deafCase struct {
	TTLms   int
	Clients int
	Records int // per packet
	Half    bool
	// Sort of the packets: "" many records, "bad" refused ones, "auth"
	// authorisation requests.
	Sort string `json:",omitempty"`
}

func genDeaf(t *rapid.T) deafCase {
	return deafCase{TTLms: rapid.SampledFrom([]int{600, 800, 1000}).Draw(t, "ttl"), Clients: rapid.IntRange(1, 4).Draw(t, "clients"),
		Records: rapid.SampledFrom([]int{500, 3000, 9359}).Draw(t, "records"), Half: gen.Bit(t, "half") == 1,
		Sort: rapid.SampledFrom([]string{"", "", "bad", "auth"}).Draw(t, "sort")}
}

// manyRecords is a packet whose reply is nearly as long as itself.
func manyRecords(pid, n int) []byte {
	p := ref.Packet{PRV: 1, PID: uint16(pid), PT: 1}
	for i := 0; i < n; i++ {
		p.Records = append(p.Records, ref.Record{RN: uint16(i), SST: 2, RST: 2})
	}
	return p.Bytes()
}

func runDeaf(c deafCase, r *pbt.Rec) error {
	ttl := time.Duration(c.TTLms) * time.Millisecond
	sv, err := pool.Get(ttl, 1)
	if err != nil {
		return err
	}
	b := manyRecords(7, c.Records)
	switch c.Sort {
	case "bad":
		x := ttlPacket(1)
		x[len(x)-1] ^= 0x55
		b = bytes.Repeat(x, c.Records)
	case "auth":
		b = bytes.Repeat(ref.Packet{PRV: 1, PID: 9, PT: 1, Records: []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{T: ref.TAuth, Auth: &ref.Auth{UNM: []byte("u"), UPSW: []byte("p")}}}}}}.Bytes(), c.Records)
	}
	var wg sync.WaitGroup
	errs := make([]error, c.Clients)
	filled := make([]bool, c.Clients)
	for i := range errs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			k, err := sv.DialDeaf()
			if err != nil {
				errs[i] = err
				return
			}
			defer k.C.Close()
			filled[i] = k.Fill(b, ttl*8/10, 64<<20)
			if c.Half {
				k.C.CloseWrite()
			}
			silent := time.Now()
			for {
				open, ok := k.Open()
				if !ok || !open {
					return
				}
				if d := time.Since(silent); d > ttl+15*time.Second {
					errs[i] = pbt.Soft("a client that neither sends nor reads is still connected after %v, lifetime %v", d, ttl)
					return
				}
				time.Sleep(20 * time.Millisecond)
			}
		}(i)
	}
	wg.Wait()
	sv.Take()
	if !sv.H.Alive() {
		return sv.H.Died()
	}
	for i, e := range errs {
		if e != nil {
			return e
		}
		if filled[i] {
			r.NonTrivial()
		}
	}
	if c.Sort != "" {
		r.Class("deaf with packets: %s", c.Sort)
	}
	r.ClassIf(c.Half, "client has ended its stream")
	return nil
}

func c18() pbt.Property {
	return pbt.Property{
		ID: "C18",
		Rule: "8..24 concurrent clients per case with generated timing scripts against servers with a lifetime of 0.6..1 s (silent from the start, after packets or in the middle of one; active in packets or small pieces at 0.2..0.42 of the lifetime for several lifetimes; closing the stream on a server with a long lifetime; packets of every sort, also with a store slower than the lifetime) and with lifetime 0; " +
			"closing time and replies checked; non-trivial: at least one script ran to its end; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("scripts", 48, 1600, genTTL, guarded(runC18)).With(func(s *pbt.Sub) { s.Limit, s.Shrink, s.MaxShards = 3*time.Minute, 25*time.Second, 6 }),
			pbt.Make("deaf", 16, 400, genDeaf, guarded(runDeaf)).With(func(s *pbt.Sub) { s.Limit, s.Shrink, s.MaxShards = 3*time.Minute, 25*time.Second, 6 }),
			pbt.MakeEnum("no-limit", enumForever, guarded(runForever)).With(func(s *pbt.Sub) { s.Limit = 10 * time.Minute }),
		},
	}
}
