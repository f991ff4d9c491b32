package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

const wait = 20 * time.Second

// message is what is saved.
type message struct {
	Data []byte
	Rep  int  `json:",omitempty"` // repetitions of Data
	Fail bool `json:",omitempty"` // ToBytes fails
	Nil  bool `json:",omitempty"` // no message at all
}

type toBytes interface{ ToBytes() ([]byte, error) }

func (m message) bytes() []byte {
	if m.Rep > 1 {
		return bytes.Repeat(m.Data, m.Rep)
	}
	return append([]byte{}, m.Data...)
}

type payload struct {
	b    []byte
	fail bool
}

func (p *payload) ToBytes() ([]byte, error) {
	if p.fail {
		return p.b, errors.New("cannot serialise")
	}
	return append([]byte{}, p.b...), nil
}

func (m message) value() toBytes {
	if m.Nil {
		return nil
	}
	return &payload{m.bytes(), m.Fail}
}

func genMessage(t *rapid.T, faults bool) message {
	if faults {
		switch rapid.IntRange(0, 11).Draw(t, "fault") {
		case 10:
			return message{Nil: true}
		case 11:
			return message{Fail: true, Data: gen.BytesUpTo(t, 20, "data")}
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "payload") {
	case 0:
		return message{Data: []byte{}}
	case 1:
		return message{Data: gen.BytesUpTo(t, 300, "data")}
	case 2:
		return message{Data: []byte(rapid.SampledFrom([]string{"'; DROP TABLE points; --", `\x00\'"`, "$1 ? :1 %s %d %%", "\r\nPUB x 0\r\n", "\x00\x01\xff", "null", `{"a":"\u0000"}`, "\xCE\x00"}).Draw(t, "tricky"))}
	case 3:
		return message{Data: gen.Bytes(t, rapid.IntRange(1, 40).Draw(t, "n"), "data"), Rep: rapid.IntRange(2, 9000).Draw(t, "rep")}
	default:
		r := storage.NavRecord{}
		fillNav(t, &r)
		b, _ := r.ToBytes()
		return message{Data: b}
	}
}

type deliverCase struct {
	B    backend
	Msgs []message
	Plan []int
}

func genDeliver(kind string, fixed bool) func(t *rapid.T) deliverCase {
	return func(t *rapid.T) deliverCase {
		c := deliverCase{B: genBackend(t, kind)}
		for n := rapid.IntRange(1, 6).Draw(t, "saves"); n > 0; n-- {
			c.Msgs = append(c.Msgs, genMessage(t, true))
		}
		if gen.Chance(t, 150, "huge") {
			c.Msgs = append(c.Msgs, message{Data: gen.Bytes(t, 37, "data"), Rep: rapid.IntRange(1<<20/37, 6<<20/37).Draw(t, "rep")})
		}
		if kind == "nats" || gen.Chance(t, 3, "nofault") {
			return c
		}
		top := fakes.Refuse
		if acked(kind) && kind != "tarantool_queue" {
			top = fakes.Drop
		}
		for range c.Msgs {
			a := fakes.Accept
			if gen.Chance(t, 3, "refuse") {
				a = rapid.IntRange(fakes.Refuse, top).Draw(t, "how")
			}
			c.Plan = append(c.Plan, a)
		}
		return c
	}
}

// open connects a connector of the code under test to its stand-in.
func (b backend) open(plan []int) (storage.Store, *fakes.State, error) {
	s, err := fake(b.Kind)
	if err != nil {
		return nil, nil, err
	}
	w := b.Want
	w.Plan = plan
	st := s.Begin(w)
	db := newStore(b.Kind)
	if err := db.Init(b.params(st)); err != nil {
		defer st.End()
		return nil, nil, fmt.Errorf("Init with a reachable %s server fails: %v %q", b.Kind, err, st.Snap().Problems)
	}
	return db, st, nil
}

// finish closes the connector and waits for the last deliveries.
func finish(db storage.Store, st *fakes.State, closeErr bool) (fakes.Snapshot, error) {
	done := make(chan error, 1)
	go func() { done <- db.Close() }()
	select {
	case err := <-done:
		if err != nil && closeErr {
			return st.Snap(), fmt.Errorf("Close fails: %v", err)
		}
	case <-time.After(wait):
		return st.Snap(), pbt.Soft("Close does not return")
	}
	if !closeErr {
		return st.Snap(), nil
	}
	if !st.Wait(wait, func(s fakes.Snapshot) bool { return s.Conns == 0 }) {
		st.Kick()
		return st.Snap(), pbt.Soft("connections remain open after Close")
	}
	return st.Snap(), nil
}

func runDeliver(c deliverCase, r *pbt.Rec) error {
	b := c.B
	db, st, err := b.open(c.Plan)
	if err != nil {
		return err
	}
	defer st.End()
	max := b.Want.MaxPayload
	if max == 0 {
		max = 8 << 20
	}
	var expect [][]byte
	dead, accepted, refused := false, 0, 0
	for i, m := range c.Msgs {
		before := st.Snap()
		err := db.Save(m.value())
		want := m.bytes()
		switch {
		case m.Nil, m.Fail:
			if err == nil {
				return fmt.Errorf("save %d: no error for a message that cannot be serialised", i+1)
			}
			if s := st.Snap(); acked(b.Kind) && s.Attempts != before.Attempts {
				return fmt.Errorf("save %d: something was sent for a message that cannot be serialised: %+v", i+1, s.Got)
			}
			r.ClassIf(m.Nil, "missing message")
			r.ClassIf(m.Fail, "serialisation failure")
			continue
		}
		if b.Kind == "nats" {
			if len(want) > max {
				if err == nil {
					return fmt.Errorf("save %d: no error for %d bytes, the server takes %d", i+1, len(want), max)
				}
				refused++
				continue
			}
			if err != nil {
				return fmt.Errorf("save %d: %v", i+1, err)
			}
			expect = append(expect, want)
			accepted++
			continue
		}
		action := fakes.Accept
		if before.Attempts < len(c.Plan) {
			action = c.Plan[before.Attempts]
		}
		if b.Kind == "rabbitmq" {
			if dead {
				if err == nil {
					return fmt.Errorf("save %d: no error although the server has closed the channel", i+1)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("save %d: %v", i+1, err)
			}
			if !st.Wait(wait, func(s fakes.Snapshot) bool { return s.Attempts > before.Attempts || len(s.Problems) > 0 }) {
				return pbt.Soft("save %d: the message does not arrive", i+1)
			}
			if action == fakes.Accept {
				expect = append(expect, want)
				accepted++
			} else {
				refused++
				dead = true
				if !st.Wait(wait, func(s fakes.Snapshot) bool { return s.Signals > 0 }) {
					return pbt.Soft("the client does not confirm the closed channel")
				}
				time.Sleep(2 * time.Millisecond)
			}
			continue
		}
		after := st.Snap()
		n := len(after.Got) - len(before.Got)
		switch {
		case err == nil && n != 1:
			return fmt.Errorf("save %d reports success, %d messages were stored %q", i+1, n, after.Problems)
		case err != nil && n != 0:
			return fmt.Errorf("save %d reports %v, %d messages were stored", i+1, err, n)
		case action == fakes.Accept && err != nil:
			return fmt.Errorf("save %d: %v (the server accepts) %q", i+1, err, after.Problems)
		case action == fakes.Refuse && err == nil:
			return fmt.Errorf("save %d: no error although the server refuses", i+1)
		}
		if err == nil {
			expect = append(expect, want)
			accepted++
		} else {
			refused++
		}
		r.ClassIf(action == fakes.Drop && err == nil, "stored on a new connection")
		r.ClassIf(action == fakes.Drop && err != nil, "lost connection reported")
	}
	s, err := finish(db, st, !dead)
	if err != nil {
		return err
	}
	if len(s.Problems) > 0 {
		return fmt.Errorf("the server complains: %s", s.Problems[0])
	}
	for i := 0; i < len(expect) && i < len(s.Got); i++ {
		if d := b.same(s.Got[i], expect[i]); d != "" {
			return fmt.Errorf("message %d: %s", i+1, d)
		}
	}
	if len(s.Got) != len(expect) {
		return fmt.Errorf("%d messages delivered instead of %d", len(s.Got), len(expect))
	}
	if accepted > 0 {
		r.NonTrivial()
	}
	r.ClassIf(refused > 0, "refused saves")
	r.ClassIf(refused > 0 && accepted > 0, "refused and accepted saves")
	r.ClassIf(b.Want.User != "" || b.Want.Pass != "", "credentials")
	for _, m := range c.Msgs {
		n := len(m.Data) * max1(m.Rep)
		r.ClassIf(!m.Nil && !m.Fail && n == 0, "empty payload")
		r.ClassIf(n > 65536, "payload over 64 KB")
		r.ClassIf(n > 2<<20, "payload over 2 MB")
	}
	return nil
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

type concCase struct {
	B    backend
	Msgs [][]message
}

func genConc(t *rapid.T) concCase {
	c := concCase{B: genBackend(t, rapid.SampledFrom(fakes.Kinds).Draw(t, "kind"))}
	c.B.Want.MaxPayload = 0
	k := 0
	for n := rapid.IntRange(2, 6).Draw(t, "writers"); n > 0; n-- {
		var ms []message
		for m := rapid.IntRange(1, 8).Draw(t, "saves"); m > 0; m-- {
			k++
			ms = append(ms, message{Data: append([]byte(fmt.Sprintf("%d:", k)), gen.BytesUpTo(t, 60, "data")...), Rep: rapid.SampledFrom([]int{1, 1, 1, 100, 2000}).Draw(t, "rep")})
		}
		c.Msgs = append(c.Msgs, ms)
	}
	return c
}

func runConc(c concCase, r *pbt.Rec) error {
	db, st, err := c.B.open(nil)
	if err != nil {
		return err
	}
	defer st.End()
	var wg sync.WaitGroup
	errs := make(chan error, 100)
	var want []string
	for _, ms := range c.Msgs {
		for _, m := range ms {
			want = append(want, string(m.bytes()))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, m := range ms {
				if err := db.Save(m.value()); err != nil {
					errs <- err
					return
				}
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return fmt.Errorf("save: %v %q", err, st.Snap().Problems)
	default:
	}
	s, err := finish(db, st, true)
	if err != nil {
		return err
	}
	if len(s.Problems) > 0 {
		return fmt.Errorf("the server complains: %s", s.Problems[0])
	}
	var got []string
	for _, d := range s.Got {
		got = append(got, string(d.Payload))
		if x := c.B.same(d, d.Payload); x != "" {
			return errors.New(x)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if len(want) != len(got) {
		return fmt.Errorf("%d messages delivered instead of %d", len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] {
			return fmt.Errorf("message %s was not delivered unchanged", clip([]byte(want[i])))
		}
	}
	r.NonTrivial()
	r.Class("%s", c.B.Kind)
	return nil
}

func c21() pbt.Property {
	p := pbt.Property{
		ID: "C21",
		Rule: "generated configurations (credentials and names empty, plain, with special and non-ASCII characters), 1..7 saves of generated payloads (records, arbitrary bytes, empty, up to 6 MB, unserialisable, missing) " +
			"and a generated plan of refusals and dropped connections, against a stand-in speaking the backend's wire protocol and checking credentials; answers that take up to 4.5 s; concurrent saves from 2..6 goroutines; " +
			"non-trivial: at least one message is delivered; distinct by the case's JSON",
	}
	q := map[string][2]int{"mysql": {2400, 150000}, "nats": {2400, 150000}, "postgresql": {2400, 150000}, "rabbitmq": {1600, 80000}, "redis": {2400, 150000}, "tarantool_queue": {2400, 150000}}
	for _, k := range fakes.Kinds {
		p.Subs = append(p.Subs, pbt.Make(k, q[k][0], q[k][1], genDeliver(k, false), runDeliver))
	}
	p.Subs = append(p.Subs, pbt.Make("slow", 56, 900, genSlow, runHard("C21")))
	p.Subs = append(p.Subs, pbt.Make("concurrent", 1600, 60000, genConc, runConc))
	return p
}
