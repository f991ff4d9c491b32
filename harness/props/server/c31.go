package main

import (
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

// ended is a session that comes to an end.
type ended struct {
	Items []model.Item `json:",omitempty"` // a proper session, or
	Raw   [][]byte     `json:",omitempty"` // anything
	// Cut: bytes of an unfinished packet at the end.
	Cut int
	// End: close, reset, half (only the client's direction ends), idle (the
	// client stays, the server's time limit ends the session).
	End string
	// Hasty: the client leaves without waiting for replies.
	Hasty bool
}

type endCase struct {
	Sessions []ended
	Together bool
	Stores   int
	Fail     []int // positions refused, by index over all sessions
	Slow     []int // positions whose save takes 20 ms
	// Stop: the server of the sessions is one of its own and is stopped: 1
	// before the sessions end, 2 after.
	Stop int
}

func genEnds(t *rapid.T) endCase {
	id := newIDs(t)
	c := endCase{Together: gen.Bit(t, "together") == 1, Stores: rapid.IntRange(1, 2).Draw(t, "stores")}
	c.Stop = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "stop")
	idle := gen.Chance(t, 3, "idle") && c.Stop == 0
	for n := rapid.IntRange(1, 5).Draw(t, "n"); n > 0; n-- {
		e := ended{End: rapid.SampledFrom([]string{"close", "reset", "half"}).Draw(t, "end"), Hasty: gen.Bit(t, "hasty") == 1,
			Cut: rapid.SampledFrom([]int{0, 0, 1, 9, 10, 11, 14, 30}).Draw(t, "cut")}
		if idle && gen.Bit(t, "stay") == 1 {
			e.End = "idle"
		}
		switch rapid.IntRange(0, 4).Draw(t, "what") {
		case 0:
			e.Raw = genHostile(t, id).Pieces
		case 1:
		default:
			e.Items = genSession(t, id, sopt{Packets: 3, Responses: true})
		}
		c.Sessions = append(c.Sessions, e)
	}
	if gen.Chance(t, 3, "plan") {
		c.Fail = rapid.SliceOfN(rapid.IntRange(0, 20), 1, 4).Draw(t, "fail")
	}
	if gen.Chance(t, 3, "plan2") {
		c.Slow = rapid.SliceOfN(rapid.IntRange(0, 20), 1, 2).Draw(t, "slow")
	}
	return c
}

// idleTTL is the lifetime on the server whose sessions end by themselves.
const idleTTL = 150 * time.Millisecond

// run plays the session; what it returns ends the client's part of it.
func (e ended) run(s *srv.Server) (func(), error) {
	c, err := net.DialTimeout("tcp", s.Addr, srv.Limit)
	if err != nil {
		if !s.H.Alive() {
			return nil, s.H.Died()
		}
		return nil, pbt.Soft("cannot connect: %v", err)
	}
	tc := c.(*net.TCPConn)
	var b []byte
	if e.Items != nil {
		b = stream(e.Items)
	}
	for _, x := range e.Raw {
		b = append(b, x...)
	}
	if e.Cut > 0 {
		b = append(b, ttlPacket(7)[:e.Cut]...)
	}
	c.SetDeadline(time.Now().Add(3 * time.Second))
	got := make(chan struct{})
	if !e.Hasty {
		// the replies are read as they come
		go func() {
			io.Copy(io.Discard, c)
			close(got)
		}()
	} else {
		close(got)
	}
	c.Write(b)
	switch e.End {
	case "close":
		if !e.Hasty {
			tc.CloseWrite()
			<-got
		}
		c.Close()
	case "reset":
		if !e.Hasty {
			time.Sleep(2 * time.Millisecond)
		}
		tc.SetLinger(0)
		c.Close()
	case "half":
		tc.CloseWrite()
	}
	return func() { c.Close(); <-got }, nil
}

func (c endCase) round(h *srv.Host, pool *srv.Pool) (func(), error) {
	var release []func()
	var mu sync.Mutex
	var first error
	add := func(f func(), err error) {
		mu.Lock()
		defer mu.Unlock()
		if f != nil {
			release = append(release, f)
		}
		if err != nil && first == nil {
			first = err
		}
	}
	all := func() {
		for _, f := range release {
			f()
		}
	}
	var own *srv.Server
	if c.Stop > 0 {
		var err error
		if own, err = h.NewServer(noLimit, c.Stores); err != nil {
			return all, err
		}
	}
	var wg sync.WaitGroup
	for _, e := range c.Sessions {
		ttl := noLimit
		if e.End == "idle" {
			ttl = idleTTL
		}
		s, err := pool.Get(ttl, c.Stores)
		if err != nil {
			return all, err
		}
		if own != nil {
			s = own
		}
		if c.Stop == 1 {
			e.End, e.Hasty = "half", true // ended below
		}
		if !c.Together {
			add(e.run(s))
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			add(e.run(s))
		}()
	}
	wg.Wait()
	if own != nil && first == nil {
		if _, returned, err := own.Stop(10); err != nil || !returned {
			if err == nil {
				err = pbt.Soft("the server does not stop")
			}
			return all, err
		}
	}
	return all, first
}

func runEnds(c endCase, r *pbt.Rec) error {
	for _, ttl := range []time.Duration{noLimit, idleTTL} {
		s, err := pool.Get(ttl, c.Stores)
		if err != nil {
			return err
		}
		var its []model.Item
		for _, e := range c.Sessions {
			its = append(its, e.Items...)
		}
		if saves := modelOf(its, nil).Saves; len(saves) > 0 {
			var fail [][2]int64
			slow := map[int64]int64{}
			for _, i := range c.Fail {
				fail = append(fail, [2]int64{int64(i % c.Stores), saves[i%len(saves)].Nav})
			}
			for _, i := range c.Slow {
				slow[saves[i%len(saves)].Nav] = 20
			}
			if err := s.Plan(fail, slow); err != nil {
				return err
			}
		}
	}
	h := pool.Host()
	g0, f0, err := h.Open()
	if err != nil {
		return err
	}
	settle := func(limit time.Duration) (g, f int, err error) {
		for end := time.Now().Add(limit); ; time.Sleep(time.Millisecond) {
			if g, f, err = h.Open(); err != nil || g <= g0 && f <= f0 || time.Now().After(end) {
				return
			}
		}
	}
	// what stays behind once may be kept for good; a leak grows each time
	var gs, fs []int
	for n := 0; n < 4; n++ {
		release, err := c.round(h, pool)
		if err != nil {
			release()
			return err
		}
		limit := 300 * time.Millisecond
		g, f, err := settle(limit + 2*idleTTL)
		release()
		if err != nil {
			return err
		}
		for _, ttl := range []time.Duration{noLimit, idleTTL} {
			if s, err := pool.Get(ttl, c.Stores); err == nil {
				s.Take()
			}
		}
		if g <= g0 && f <= f0 {
			c.labels(r)
			return nil
		}
		if n > 0 && g <= gs[n-1] && f <= fs[n-1] {
			r.Class("settled on a higher level")
			c.labels(r)
			return nil
		}
		gs, fs = append(gs, g), append(fs, f)
	}
	if g, f, err := settle(15 * time.Second); err != nil || g <= gs[0] && f <= fs[0] {
		return err
	}
	return pbt.Soft("what ended sessions leave behind grows: goroutines %d, then %v; open files %d, then %v", g0, gs, f0, fs)
}

func (c endCase) labels(r *pbt.Rec) {
	r.NonTrivial()
	r.ClassIf(c.Together, "concurrent sessions")
	r.ClassIf(len(c.Fail) > 0, "refused saves")
	r.ClassIf(len(c.Slow) > 0, "slow saves")
	r.ClassIf(c.Stop == 1, "server stopped during the sessions")
	r.ClassIf(c.Stop == 2, "server stopped")
	for _, e := range c.Sessions {
		r.Class("end: " + e.End)
		r.ClassIf(e.Cut > 0, "unfinished packet")
		r.ClassIf(len(e.Raw) > 0, "arbitrary data")
		r.ClassIf(e.Hasty, "replies not read")
	}
}

// memCase: many sessions, or one long one, and the memory they leave in use.
type memCase struct {
	// Kinds of packets, in turn.
	Kinds []string
	// PerSession packets; 0: all in one session.
	PerSession int
	// End of each session: half, reset
	End string
	// Tail: bytes of an unfinished packet, or data that is no packet (-1).
	Tail int
	N    int // sessions or packets per step
}

var memKinds = []string{"position", "position", "object", "identity", "auth", "sensors", "unknown", "response", "bad crc", "broken", "refused", "big"}

func genMem(long bool) func(t *rapid.T) memCase {
	return func(t *rapid.T) memCase {
		c := memCase{Kinds: rapid.SliceOfN(rapid.SampledFrom(memKinds), 1, 4).Draw(t, "kinds"), N: 1200}
		if !long {
			c.N = rapid.IntRange(200, 300).Draw(t, "sessions")
			c.PerSession = rapid.IntRange(1, 3).Draw(t, "persession")
			c.End = rapid.SampledFrom([]string{"half", "half", "reset"}).Draw(t, "end")
			c.Tail = rapid.SampledFrom([]int{0, 0, 0, -1, 3, 12}).Draw(t, "tail")
		}
		return c
	}
}

// packet n differs from all others in everything that identifies it.
func (c memCase) packet(n int) []byte {
	p := ref.Packet{PRV: 1, PID: uint16(n), PT: 1}
	r := ref.Record{RN: uint16(n), SST: 2, RST: 2}
	oid := uint32(n) * 2654435761
	pos := ref.Sub{T: ref.TPos, Pos: &ref.Pos{NTM: uint32(n), VLD: 1, LAT: oid, LONG: oid * 3}}
	kind := c.Kinds[n%len(c.Kinds)]
	switch kind {
	case "position", "bad crc", "refused":
		r.Subs = []ref.Sub{pos}
	case "object":
		r.OID = &oid
		r.Subs = []ref.Sub{pos}
	case "identity":
		r.SST, r.RST = 1, 1
		r.Subs = []ref.Sub{{T: ref.TTerm, Term: &ref.Term{TID: oid}}}
	case "auth":
		r.SST, r.RST = 1, 1
		r.Subs = []ref.Sub{{T: ref.TAuth, Auth: &ref.Auth{UNM: []byte(fmt.Sprint("user", n)), UPSW: []byte(fmt.Sprint("pw", n))}}}
	case "sensors":
		r.Subs = []ref.Sub{pos, {T: ref.TAbsAn, AbsAn: &ref.NumVal{N: uint8(n), V: uint32(n) & 0xFFFFFF}}, {T: ref.TAbsCntr, Abs: &ref.NumVal{N: 110, V: uint32(n) & 0xFFFFFF}}}
	case "unknown", "big":
		raw := []byte(fmt.Sprint("unknown ", n))
		if kind == "big" {
			raw = append(raw, make([]byte, 3000)...)
		}
		r.Subs = []ref.Sub{pos, {T: 200, Raw: raw}}
	case "response":
		return ref.Packet{PRV: 1, PID: uint16(n), PT: 0, RPID: uint16(n)}.Bytes()
	case "broken":
		return p.WithBody([]byte{byte(n), 1, 2, 3, byte(n >> 8)})
	}
	p.Records = []ref.Record{r}
	b := p.Bytes()
	if kind == "bad crc" {
		b[len(b)-1] ^= 0x55
	}
	return b
}

func (c memCase) answered(n int) int {
	switch c.Kinds[n%len(c.Kinds)] {
	case "response":
		return 0
	case "identity", "auth":
		return 2
	}
	return 1
}

func runMem(c memCase, r *pbt.Rec) error {
	if _, err := pool.Get(noLimit, 1); err != nil {
		return err
	}
	h := pool.Host()
	s, err := h.NewServer(noLimit, 1)
	if err != nil {
		return err
	}
	defer s.Stop(5)
	n := 0
	var step func() error
	var k *srv.Conn
	g0, err := h.Goroutines()
	if err != nil {
		return err
	}
	// calm waits until the sessions have ended
	calm := func() {
		for i := 0; i < 1000; i++ {
			if g, err := h.Goroutines(); err != nil || g <= g0 {
				return
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	if c.PerSession == 0 {
		if k, err = s.Dial(); err != nil {
			return err
		}
		defer k.Close()
		step = func() error {
			want := 0
			var b []byte
			var fail [][2]int64
			for i := 0; i < c.N; i++ {
				n++
				b = append(b, c.packet(n)...)
				want += c.answered(n)
				if c.Kinds[n%len(c.Kinds)] == "refused" {
					fail = append(fail, [2]int64{0, 1262304000 + int64(n)})
				}
			}
			if len(fail) > 0 {
				s.Plan(fail, nil)
			}
			k.Forget()
			if err := write(k, b); err != nil {
				return pbt.Soft("%v", err)
			}
			if !k.WaitReplies(want, srv.Limit) {
				return pbt.Soft("no replies")
			}
			return s.Plan(nil, nil)
		}
	} else {
		step = func() error {
			for i := 0; i < c.N; i++ {
				k, err := s.Dial()
				if err != nil {
					return err
				}
				var b []byte
				for j := 0; j < c.PerSession; j++ {
					n++
					b = append(b, c.packet(n)...)
				}
				switch {
				case c.Tail < 0:
					b = append(b, 'G', 'E', 'T', ' ', '/', byte(n), 0, 0, 0, 0, 0)
				case c.Tail > 0:
					b = append(b, c.packet(n)[:c.Tail]...)
				}
				write(k, b)
				if c.End == "reset" {
					k.Reset()
					// few at a time: what the runtime keeps depends on how
					// many sessions there were at once
					if i%5 == 4 {
						calm()
					}
					continue
				}
				k.C.CloseWrite()
				if !k.WaitEnd(srv.Limit) {
					k.Close()
					return pbt.Soft("the session does not end")
				}
				k.Close()
			}
			return nil
		}
	}
	heap := func() (int64, error) {
		if c.PerSession > 0 {
			calm()
		}
		return h.Heap()
	}
	steps := func(k int) (int64, error) {
		for ; k > 0; k-- {
			if err := step(); err != nil {
				if !h.Alive() {
					return 0, h.Died()
				}
				return 0, err
			}
		}
		return heap()
	}
	per := int64(32)
	if c.PerSession > 0 {
		per = 96
	}
	h0, err := steps(1)
	if err != nil {
		return err
	}
	h1, err := steps(3)
	if err != nil {
		return err
	}
	if g := h1 - h0; g > 3*per*int64(c.N) {
		// once more, and longer: what is bounded has stopped growing
		grown, more := h1, g
		for n := 0; n < 2 && more > 0; n++ {
			h2, err := steps(7)
			if err != nil {
				return err
			}
			if more = h2 - grown; more <= 7*per*int64(c.N) {
				more = 0
			}
			grown = h2
		}
		if more > 0 {
			what := "sessions"
			if c.PerSession == 0 {
				what = "packets of one session"
			}
			return pbt.Soft("memory in use grows: by %d bytes over %d %s, by %d more over the next %d", g, 3*c.N, what, grown-h1, 14*c.N)
		}
		r.Class("growth that ends")
	}
	r.NonTrivial()
	for _, k := range c.Kinds {
		r.Class("packets: " + k)
	}
	if c.PerSession > 0 {
		r.Class("end: " + c.End)
		r.ClassIf(c.Tail < 0, "not EGTS")
		r.ClassIf(c.Tail > 0, "unfinished packet")
	}
	return nil
}

func c31() pbt.Property {
	return pbt.Property{
		ID: "C31",
		Rule: "ends: 1..5 sessions (proper, hostile bytes, empty, with an unfinished packet) against one or two stores that accept, refuse or are slow, ended by the client (close, reset, half-close), by idleness or around a stop of the server; " +
			"afterwards goroutines and open files of the server process are back at their level before (a violation only if they grow with each of four repetitions and stay up); " +
			"many / long: the memory in use after a collection, over hundreds of sessions or thousands of packets of one session, all different; a violation if it grows by more than 96 bytes per session (32 per packet) over 3 steps and again over the next 7 and 7; " +
			"every case is non-trivial; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("ends", 2400, 60000, genEnds, guarded(runEnds)).With(func(s *pbt.Sub) { s.Limit = 120 * time.Second; s.Shrink = 40 * time.Second }),
			pbt.Make("many", 160, 4000, genMem(false), guarded(runMem)).With(func(s *pbt.Sub) { s.Limit = 120 * time.Second; s.Shrink = 20 * time.Second }),
			pbt.Make("long", 160, 4000, genMem(true), guarded(runMem)).With(func(s *pbt.Sub) { s.Limit = 120 * time.Second; s.Shrink = 20 * time.Second }),
		},
	}
}
