package main

import (
	"fmt"
	"time"

	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

// hardCase saves through one connector to a server that takes its time, or
// whose answers do not come through.
type hardCase struct {
	B      backend
	Msgs   []message
	Plan   []int // per attempt
	Delays []int // ms, per attempt
}

func hardMsgs(t *rapid.T, most int) (ms []message) {
	for n := rapid.IntRange(1, most).Draw(t, "saves"); n > 0; n-- {
		ms = append(ms, message{Data: append([]byte(fmt.Sprintf("%d:", n)), gen.BytesUpTo(t, 40, "data")...), Rep: 1})
	}
	return
}

// genSlow: answers take up to 4.5 s.
func genSlow(t *rapid.T) hardCase {
	c := hardCase{B: genBackend(t, rapid.SampledFrom(ackedKinds).Draw(t, "kind")), Msgs: hardMsgs(t, 3)}
	for range c.Msgs {
		c.Plan = append(c.Plan, rapid.SampledFrom([]int{fakes.Accept, fakes.Accept, fakes.Refuse}).Draw(t, "answer"))
		c.Delays = append(c.Delays, 0)
	}
	c.Delays[rapid.IntRange(0, len(c.Msgs)-1).Draw(t, "slow")] = rapid.SampledFrom([]int{1200, 2400, 3400, 4500}).Draw(t, "delay")
	return c
}

// genLost: the server stores, and its answer is lost with the connection.
func genLost(t *rapid.T) hardCase {
	c := hardCase{B: genBackend(t, rapid.SampledFrom([]string{
		"mysql", "postgresql", "redis", "mysql", "postgresql", "redis", "mysql", "postgresql", "redis", "tarantool_queue"}).Draw(t, "kind")), Msgs: hardMsgs(t, 5)}
	if c.B.Kind == "tarantool_queue" {
		c.B.Params["reconnect"], c.B.Params["max_recons"] = "1", "0"
	}
	for n := rapid.IntRange(1, 6).Draw(t, "plan"); n > 0; n-- {
		c.Plan = append(c.Plan, rapid.SampledFrom([]int{fakes.Accept, fakes.Accept, fakes.Refuse, fakes.Drop, fakes.Lose, fakes.Lose}).Draw(t, "answer"))
	}
	return c
}

func (c hardCase) attempt(i int) (answer, delay int) {
	if i < len(c.Plan) {
		answer = c.Plan[i]
	}
	if i < len(c.Delays) {
		delay = c.Delays[i]
	}
	return
}

// runHard: whatever happens, a save stores its message at most once, in order,
// and reports success exactly when it is stored (when the answer is lost, it
// may be stored although an error is reported).
func runHard(id string) func(c hardCase, r *pbt.Rec) error {
	return func(c hardCase, r *pbt.Rec) error {
		b := c.B
		b.Want.Delays = c.Delays
		db, st, err := b.open(c.Plan)
		if err != nil {
			return err
		}
		defer st.End()
		// unsure: the answer was lost, or did not come in the time that Redis'
		// client waits (its connection is given up)
		unsure := map[string]string{}
		order := map[string]int{}
		// repeats is how often the client asked
		repeats := map[string]int{}
		ok := map[string]bool{}
		save := func(what string, m message) error {
			data := string(m.bytes())
			order[data] = len(order)
			before := st.Snap().Attempts
			err := db.Save(m.value())
			if b.Kind == "redis" {
				// a save that was given up is still under way
				if !st.Wait(wait, func(s fakes.Snapshot) bool { return s.Attempts == s.Begun }) {
					return pbt.Inconclusivef("the stand-in hangs")
				}
			}
			s := st.Snap()
			n, last := s.Attempts-before, fakes.Accept
			for i := before; i < s.Attempts; i++ {
				a, d := c.attempt(i)
				last = a
				switch {
				case a == fakes.Lose:
					unsure[data] = "lost"
				case b.Kind == "redis" && d >= 3000 && a == fakes.Accept && unsure[data] == "":
					unsure[data] = "slow"
				}
				r.ClassIf(a == fakes.Lose, b.Kind+": an answer is lost")
				r.ClassIf(a == fakes.Refuse && d > 0, "a slow refusal")
				r.ClassIf(a == fakes.Accept && d > 0, "a slow success")
				r.ClassIf(a == fakes.Lose && err != nil, "an error is reported after a lost answer")
			}
			repeats[data] = n
			held := 0
			for _, d := range s.Got {
				if string(d.Payload) == data {
					held++
				}
			}
			switch {
			case err == nil && held == 0:
				return fmt.Errorf("%s reports success and is not stored", what)
			case err == nil && last != fakes.Accept:
				return fmt.Errorf("%s reports success, the server did not confirm it", what)
			case err != nil && held > 0 && unsure[data] == "":
				return fmt.Errorf("%s reports %v and is stored", what, err)
			}
			ok[data] = err == nil
			return nil
		}
		for i, m := range c.Msgs {
			if err := save(fmt.Sprintf("save %d", i+1), m); err != nil {
				return err
			}
		}
		// afterwards it works again
		for end, n := time.Now().Add(wait), 0; ; time.Sleep(5 * time.Millisecond) {
			n++
			m := message{Data: []byte(fmt.Sprintf("probe %d", n)), Rep: 1}
			if err := save(fmt.Sprintf("probe %d", n), m); err != nil {
				return err
			}
			if ok[string(m.bytes())] && st.Snap().Attempts >= len(c.Plan) {
				break
			}
			if time.Now().After(end) {
				return pbt.Soft("saving does not work again")
			}
		}
		s, err := finish(db, st, true)
		if err != nil {
			return err
		}
		if len(s.Problems) > 0 {
			return fmt.Errorf("the server complains: %s", s.Problems[0])
		}
		count, at := map[string]int{}, -1
		for _, d := range s.Got {
			if x := b.same(d, d.Payload); x != "" {
				return fmt.Errorf("%s", x)
			}
			data := string(d.Payload)
			k, sent := order[data]
			if !sent {
				return fmt.Errorf("%s was not saved", clip(d.Payload))
			}
			count[data]++
			if count[data] > 1 {
				if b.Kind != "redis" || unsure[data] == "" || repeats[data] > 4 || count[data] > repeats[data] {
					return fmt.Errorf("%s is stored %d times (its answer: %s)", clip(d.Payload), count[data], unsure[data])
				}
				r.Known(id + "-redis-" + unsure[data])
			} else if k < at {
				return fmt.Errorf("%s is stored out of order", clip(d.Payload))
			}
			at = max(at, k)
		}
		r.NonTrivial()
		r.Class("%s", b.Kind)
		return nil
	}
}
