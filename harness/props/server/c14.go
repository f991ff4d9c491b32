package main

import (
	"fmt"
	"net"
	"sync"
	"time"

	"pgregory.net/rapid"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/srv"
)

// hostile is a misbehaving client.
type hostile struct {
	Pieces [][]byte
	// End: how it leaves: close, reset, half (stops sending), stay
	End string
	// Deaf: it never reads what the server sends.
	Deaf bool
}

type hostCase struct {
	Normal  [][]model.Item
	Hostile []hostile
	// Order interleaves: the next piece (packet) of that participant.
	Order []int
}

func genHostile(t *rapid.T, id *ids) hostile {
	h := hostile{End: rapid.SampledFrom([]string{"close", "reset", "half", "stay"}).Draw(t, "end"), Deaf: gen.Bit(t, "deaf") == 1}
	for n := rapid.IntRange(0, 4).Draw(t, "pieces"); n > 0; n-- {
		var b []byte
		switch rapid.IntRange(0, 9).Draw(t, "piece") {
		case 0:
			b = gen.Blob(t, rapid.IntRange(1, 5000).Draw(t, "n"), "noise")
		case 1: // half a packet
			b = genPacket(t, id, sopt{}).Bytes()
			b = b[:rapid.IntRange(1, len(b)).Draw(t, "cut")]
		case 2: // a header that announces a lot
			p := gen.Header(t)
			b = p.WithBody(make([]byte, 65000))[:rapid.IntRange(10, 40).Draw(t, "cut")]
		case 3:
			b = stream(genSession(t, id, sopt{Packets: 2, Responses: true}))
		case 4:
			p := gen.Header(t)
			b = p.WithBody(gen.NestedResponse(rapid.IntRange(1, 6000).Draw(t, "depth")))
		case 5: // odd header lengths
			b = genPacket(t, id, sopt{}).Bytes()
			b[3] = gen.B8(t, "hl")
			b = gen.FixCRC(b)
		default:
			b = gen.HostilePacket(t)
			if len(b) > 0 && gen.Bit(t, "fit") == 1 {
				b[0] = 1
			}
		}
		h.Pieces = append(h.Pieces, b)
	}
	return h
}

func genHost(t *rapid.T) hostCase {
	id := newIDs(t)
	id.Base, id.Step = id.Base*2654435761+12345, 0x01000193
	bad := &ids{Base: id.Base ^ 0x80000000, Step: 0x00800021}
	var c hostCase
	total := 0
	for n := rapid.IntRange(1, 2).Draw(t, "normal"); n > 0; n-- {
		c.Normal = append(c.Normal, genSession(t, id, sopt{Packets: 3}))
		total += len(c.Normal[len(c.Normal)-1])
	}
	for n := rapid.IntRange(1, 4).Draw(t, "hostile"); n > 0; n-- {
		c.Hostile = append(c.Hostile, genHostile(t, bad))
		total += len(c.Hostile[len(c.Hostile)-1].Pieces) + 1
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, len(c.Normal)+len(c.Hostile)-1), total, total+4).Draw(t, "order")
	return c
}

type hostileConn struct {
	c    net.Conn
	next int
	done bool
}

func (h *hostileConn) step(s *srv.Server, spec hostile) {
	if h.done {
		return
	}
	if h.c == nil {
		c, err := net.DialTimeout("tcp", s.Addr, 5*time.Second)
		if err != nil {
			h.done = true
			return
		}
		h.c = c
		if !spec.Deaf {
			go func() {
				b := make([]byte, 4096)
				for {
					if _, err := c.Read(b); err != nil {
						return
					}
				}
			}()
		}
		if len(spec.Pieces) > 0 {
			return
		}
	}
	if h.next < len(spec.Pieces) {
		h.c.SetWriteDeadline(time.Now().Add(2 * time.Second))
		h.c.Write(spec.Pieces[h.next])
		h.next++
		return
	}
	h.done = true
	switch spec.End {
	case "close":
		h.c.Close()
	case "reset":
		h.c.(*net.TCPConn).SetLinger(0)
		h.c.Close()
	case "half":
		h.c.(*net.TCPConn).CloseWrite()
	}
}

func runC14(c hostCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	// the normal sessions alone
	var alone []outcome
	want := map[int64]bool{}
	for _, its := range c.Normal {
		o, err := play(s, its)
		if err != nil {
			return err
		}
		// only this session's positions: leftovers of earlier hostile clients
		// may still come in
		mine := map[int64]bool{}
		for _, e := range modelOf(its, nil).Saves {
			want[e.Nav] = true
			mine[e.Nav] = true
		}
		o.saves = only(o.saves, mine)
		alone = append(alone, o)
	}

	hs := make([]hostileConn, len(c.Hostile))
	ns := make([]*srv.Conn, len(c.Normal))
	nx := make([]int, len(c.Normal))
	sess := make([]model.Session, len(c.Normal))
	defer func() {
		for _, h := range hs {
			if h.c != nil {
				h.c.Close()
			}
		}
	}()
	act := func(who int) error {
		if who >= len(c.Normal) {
			i := who - len(c.Normal)
			hs[i].step(s, c.Hostile[i])
			return nil
		}
		if ns[who] == nil {
			k, err := s.Dial()
			if err != nil {
				return err
			}
			ns[who] = k
			return nil
		}
		if nx[who] >= len(c.Normal[who]) {
			return nil
		}
		it := c.Normal[who][nx[who]]
		nx[who]++
		if err := write(ns[who], it.Bytes()); err != nil {
			if !s.H.Alive() {
				return s.H.Died()
			}
			return fmt.Errorf("session %d was ended by the server: %v", who+1, err)
		}
		sess[who].Feed(it, nil)
		if !ns[who].WaitReplies(len(sess[who].Replies), srv.Limit) {
			return pbt.Soft("session %d gets no reply to packet %d", who+1, nx[who])
		}
		return nil
	}
	for _, w := range c.Order {
		if err := act(w); err != nil {
			return err
		}
	}
	// whatever the order did not get to
	for i := range c.Hostile {
		for !hs[i].done {
			hs[i].step(s, c.Hostile[i])
		}
	}
	for i := range c.Normal {
		for ns[i] == nil || nx[i] < len(c.Normal[i]) {
			if err := act(i); err != nil {
				return err
			}
		}
	}
	var got []outcome
	for i := range c.Normal {
		raw, late := ns[i].Finish(len(sess[i].Replies))
		if !s.H.Alive() {
			return s.H.Died()
		}
		o := outcome{raw: raw, late: late}
		o.replies, o.badReply = model.ParseReplies(raw)
		got = append(got, o)
	}
	// a new connection is still served
	probe := &ref.Packet{PRV: 1, PID: 4711, PT: 1, Records: []ref.Record{{RN: 1, SST: 2, RST: 2}}}
	k, err := s.Dial()
	if err != nil {
		return err
	}
	write(k, probe.Bytes())
	raw, late := k.Finish(1)
	if !s.H.Alive() {
		return s.H.Died()
	}
	if rs, bad := model.ParseReplies(raw); bad != "" || len(rs) != 1 || rs[0].PID != 4711 {
		return outcome{late: late}.fail("a new connection is not served any more: replies %v %s", rs, bad)
	}
	var all outcome
	if err := all.parseSaves(s); err != nil {
		return err
	}
	for i := range c.Normal {
		if got[i].badReply != "" {
			return got[i].fail("session %d: %s", i+1, got[i].badReply)
		}
		if d := model.DiffReplies(alone[i].replies, got[i].replies, true); d != "" {
			return got[i].fail("session %d is answered differently next to the other clients: %s", i+1, d)
		}
		mine := map[int64]bool{}
		for _, e := range sess[i].Saves {
			mine[e.Nav] = true
		}
		if a, b := stripped(alone[i].saves), stripped(only(all.saves, mine)); a != b {
			return got[i].fail("session %d is stored differently next to the other clients:\n%s\ninstead of\n%s", i+1, clipText(b), clipText(a))
		}
	}
	n := 0
	for _, h := range c.Hostile {
		r.Class("leaves by %s", h.End)
		r.ClassIf(h.Deaf, "never reads")
		r.ClassIf(len(h.Pieces) == 0, "sends nothing")
		n += len(h.Pieces)
	}
	if n > 0 {
		r.NonTrivial()
	}
	return nil
}

func only(s []model.Saved, nav map[int64]bool) (out []model.Saved) {
	for _, x := range s {
		if nav[x.Nav] {
			out = append(out, x)
		}
	}
	return
}

// genFlood: one client that sends hostile packets in bulk, to reach deep into
// the decoder behind the server.
type floodCase struct{ Packets [][]byte }

func genFlood(t *rapid.T) floodCase {
	var c floodCase
	for n := rapid.IntRange(1, 40).Draw(t, "n"); n > 0; n-- {
		b := gen.HostilePacket(t)
		if len(b) >= 10 && framed(b) {
			c.Packets = append(c.Packets, b)
		}
	}
	return c
}

func runFlood(c floodCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	var b []byte
	for _, p := range c.Packets {
		b = append(b, p...)
	}
	k, err := s.Dial()
	if err != nil {
		return err
	}
	write(k, b)
	raw, _ := k.Finish(0)
	if !s.H.Alive() {
		return s.H.Died()
	}
	if _, err := s.Take(); err != nil {
		return err
	}
	if len(c.Packets) > 0 {
		r.NonTrivial()
		r.ClassIf(len(raw) > 0, "answered")
	}
	return nil
}

// crowdCase: very many clients stay connected at the same time.
type crowdCase struct {
	N int
	// Sends[i%len] is what client i sends before it falls silent.
	Sends [][]byte
	// Gone: every so many clients leaves again (0: none).
	Gone   int
	Normal [][]model.Item
}

func genCrowd(t *rapid.T) crowdCase {
	id := newIDs(t)
	id.Base, id.Step = id.Base*2654435761+12345, 0x01000193
	bad := &ids{Base: id.Base ^ 0x80000000, Step: 0x00800021}
	c := crowdCase{N: rapid.SampledFrom([]int{17, 40, 70, 135, 260, 300, 520, 700, 1100}).Draw(t, "clients"), Gone: rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(t, "gone")}
	for n := rapid.IntRange(1, 4).Draw(t, "kinds"); n > 0; n-- {
		var b []byte
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0: // nothing
		case 1:
			b = genPacket(t, bad, sopt{}).Bytes()
			b = b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")]
		case 2:
			b = gen.HostilePacket(t)
		case 3:
			p := gen.Header(t)
			b = p.WithBody(make([]byte, 65000))[:rapid.IntRange(10, 40).Draw(t, "cut")]
		default:
			b = stream(genSession(t, bad, sopt{Packets: 2}))
		}
		c.Sends = append(c.Sends, b)
	}
	for n := rapid.IntRange(1, 3).Draw(t, "normal"); n > 0; n-- {
		c.Normal = append(c.Normal, genSession(t, id, sopt{Packets: 3}))
	}
	return c
}

// runCrowd: the normal sessions are played after all the others have connected.
func runCrowd(c crowdCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	var conns []net.Conn
	defer func() {
		for _, k := range conns {
			if k != nil {
				k.(*net.TCPConn).SetLinger(0)
				k.Close()
			}
		}
	}()
	for i := 0; i < c.N; i++ {
		k, err := net.DialTimeout("tcp", s.Addr, srv.Limit)
		if err != nil {
			if !s.H.Alive() {
				return s.H.Died()
			}
			return pbt.Soft("client %d of %d cannot connect: %v", i+1, c.N, err)
		}
		conns = append(conns, k)
		if b := c.Sends[i%len(c.Sends)]; len(b) > 0 {
			k.SetWriteDeadline(time.Now().Add(2 * time.Second))
			k.Write(b)
		}
	}
	if c.Gone > 0 {
		for i := range conns {
			if i%c.Gone == 0 {
				conns[i].Close()
				conns[i] = nil
			}
		}
	}
	if err := served(s, c.Normal, fmt.Sprintf("next to %d others", c.N)); err != nil {
		return err
	}
	r.NonTrivial()
	r.Class("%d clients", c.N)
	r.ClassIf(c.Gone > 0, "some leave")
	return nil
}

// deafHostCase: clients that send on without ever reading, until the server
// cannot send them any more replies.
type deafHostCase struct {
	Deaf    int
	Records int
	Normal  [][]model.Item
}

func genDeafHost(t *rapid.T) deafHostCase {
	id := newIDs(t)
	id.Base, id.Step = id.Base*2654435761+12345, 0x01000193
	c := deafHostCase{Deaf: rapid.IntRange(1, 6).Draw(t, "deaf"), Records: rapid.SampledFrom([]int{500, 3000, 9359}).Draw(t, "records")}
	for n := rapid.IntRange(1, 3).Draw(t, "normal"); n > 0; n-- {
		c.Normal = append(c.Normal, genSession(t, id, sopt{Packets: 3}))
	}
	return c
}

// served plays normal sessions and compares them with the model.
func served(s *srv.Server, sessions [][]model.Item, where string) error {
	for i, its := range sessions {
		m := modelOf(its, nil)
		mine := map[int64]bool{}
		for _, e := range m.Saves {
			mine[e.Nav] = true
		}
		o, err := play(s, its)
		if err != nil {
			return err
		}
		if o.badReply != "" {
			return o.fail("session %d %s: %s", i+1, where, o.badReply)
		}
		if d := model.DiffReplies(m.Replies, o.replies, true); d != "" {
			return o.fail("session %d %s: %s", i+1, where, d)
		}
		if d := sameNavs(wantNavs(m.Saves), navs(only(o.saves, mine))); d != "" {
			return o.fail("session %d %s: %s", i+1, where, d)
		}
	}
	return nil
}

func runDeafHost(c deafHostCase, r *pbt.Rec) error {
	s, err := pool.Get(noLimit, 1)
	if err != nil {
		return err
	}
	b := manyRecords(7, c.Records)
	var wg sync.WaitGroup
	filled := make([]bool, c.Deaf)
	conns := make([]*srv.Deaf, c.Deaf)
	for i := range conns {
		k, err := s.DialDeaf()
		if err != nil {
			return err
		}
		defer func() {
			k.C.SetLinger(0)
			k.C.Close()
		}()
		conns[i] = k
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			filled[i] = conns[i].Fill(b, 300*time.Millisecond, 64<<20)
		}(i)
	}
	wg.Wait()
	if err := served(s, c.Normal, fmt.Sprintf("next to %d clients that do not read", c.Deaf)); err != nil {
		return err
	}
	for _, f := range filled {
		if f {
			r.NonTrivial()
		}
	}
	return nil
}

// exhaustCase: so many clients that the process runs out of descriptors.
type exhaustCase struct {
	Spare   int // descriptors left
	Clients int
	Rounds  int
	Send    []byte
	Old     []model.Item // a session from before
	Normal  [][]model.Item
}

func genExhaust(t *rapid.T) exhaustCase {
	id := newIDs(t)
	id.Base, id.Step = id.Base*2654435761+12345, 0x01000193
	bad := &ids{Base: id.Base ^ 0x80000000, Step: 0x00800021}
	c := exhaustCase{Spare: rapid.IntRange(1, 30).Draw(t, "spare"), Rounds: rapid.IntRange(1, 3).Draw(t, "rounds"), Old: genSession(t, id, sopt{Packets: 2})}
	c.Clients = c.Spare + rapid.IntRange(1, 40).Draw(t, "clients")
	if gen.Bit(t, "send") == 1 {
		c.Send = stream(genSession(t, bad, sopt{Packets: 2}))
	}
	for n := rapid.IntRange(1, 2).Draw(t, "normal"); n > 0; n-- {
		c.Normal = append(c.Normal, genSession(t, id, sopt{Packets: 3}))
	}
	return c
}

func runExhaust(c exhaustCase, r *pbt.Rec) error {
	h, err := srv.Start()
	if err != nil {
		return err
	}
	defer h.Kill()
	s, err := h.NewServer(noLimit, 1)
	if err != nil {
		return err
	}
	old, err := s.Dial()
	if err != nil {
		return err
	}
	defer old.Close()
	// let it be accepted
	hello := ref.Packet{PRV: 1, PID: 4711, PT: 1, Records: []ref.Record{{RN: 1, SST: 2, RST: 2}}}
	write(old, hello.Bytes())
	if !old.WaitReplies(1, srv.Limit) {
		return pbt.Soft("no reply")
	}
	free, err := h.LimitFiles(c.Spare)
	if err != nil {
		return err
	}
	m := &model.Session{}
	var kept []model.Saved
	for round := 0; round < c.Rounds; round++ {
		var conns []net.Conn
		for i := 0; i < c.Clients; i++ {
			k, err := net.DialTimeout("tcp", s.Addr, srv.Limit)
			if err != nil {
				if !h.Alive() {
					return h.Died()
				}
				break
			}
			conns = append(conns, k)
			if len(c.Send) > 0 {
				k.SetWriteDeadline(time.Now().Add(time.Second))
				k.Write(c.Send)
			}
		}
		short := false
		for end := time.Now().Add(2 * time.Second); !short && time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			if short, err = h.FilesUsedUp(); err != nil {
				return err
			}
		}
		r.ClassIf(short, "descriptors used up")
		if short {
			r.NonTrivial()
			time.Sleep(20 * time.Millisecond)
		}
		if !h.Alive() {
			return h.Died()
		}
		// the old session is still served
		if round < len(c.Old) {
			m.Feed(c.Old[round], nil)
			if err := write(old, c.Old[round].Bytes()); err != nil {
				return fmt.Errorf("out of descriptors: an earlier session is ended: %v", err)
			}
			if !old.WaitReplies(1+len(m.Replies), srv.Limit) {
				return pbt.Soft("out of descriptors: an earlier session gets no reply")
			}
			var o outcome
			if err := o.parseSaves(s); err != nil {
				return err
			}
			mine := map[int64]bool{}
			for _, e := range m.Saves {
				mine[e.Nav] = true
			}
			kept = append(kept, only(o.saves, mine)...)
			if d := sameNavs(wantNavs(m.Saves), navs(kept)); d != "" {
				return fmt.Errorf("out of descriptors: an earlier session: %s", d)
			}
		}
		for _, k := range conns {
			k.(*net.TCPConn).SetLinger(0)
			k.Close()
		}
	}
	free()
	return served(s, c.Normal, "after the server had run out of descriptors")
}

func c14() pbt.Property {
	return pbt.Property{
		ID: "C14",
		Rule: "1..2 normal sessions interleaved step by step with 1..4 hostile clients (noise, mutants, half packets, deep nesting, odd lengths, reset, silence, never reading), the normal sessions compared with the same sessions played alone, a fresh probe session at the end; " +
			"plus bulk hostile packets, and normal sessions next to 17..1100 clients that stay connected (silent, stuck in a packet, hostile, ordinary), next to clients that stop reading, and after the process ran out of descriptors; non-trivial: a hostile client sent something; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("neighbours", 6000, 300000, genHost, guarded(runC14)),
			pbt.Make("crowd", 64, 1600, genCrowd, guarded(runCrowd)),
			pbt.Make("deaf", 32, 800, genDeafHost, guarded(runDeafHost)),
			pbt.Make("exhausted", 120, 4000, genExhaust, runExhaust),
			pbt.Make("flood", 12000, 600000, genFlood, guarded(runFlood)),
		},
	}
}
