package main

import (
	"errors"
	"fmt"
	"net"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/sess"
)

// outageCase saves through several stores while some are unreachable.
type outageCase struct {
	Stores []backend
	Phases []outagePhase
}

type outagePhase struct {
	Down  []bool // per store
	Reset bool   // connections are reset rather than ended
	Saves []message
	Hold  int `json:",omitempty"` // ms before the saves
}

var pooled = []string{"mysql", "postgresql", "redis"}

func genOutage(slow string) func(t *rapid.T) outageCase {
	return func(t *rapid.T) outageCase {
		var c outageCase
		if slow != "" {
			c.Stores = append(c.Stores, genBackend(t, slow))
		}
		for _, k := range pooled {
			if slow == "" && gen.Bit(t, "use"+k) == 1 || slow != "" && gen.Chance(t, 4, "use"+k) {
				c.Stores = append(c.Stores, genBackend(t, k))
			}
		}
		if len(c.Stores) == 0 {
			c.Stores = []backend{genBackend(t, rapid.SampledFrom(pooled).Draw(t, "kind"))}
		}
		c.Stores = order(t, c.Stores)
		for _, b := range c.Stores {
			if b.Kind == "tarantool_queue" {
				b.Params["reconnect"], b.Params["max_recons"] = "1", rapid.SampledFrom([]string{"0", "9"}).Draw(t, "recons")
			}
		}
		most := 5
		if slow != "" {
			most = 3
		}
		n := 0
		for k := rapid.IntRange(2, most).Draw(t, "phases"); k > 0; k-- {
			p := outagePhase{Reset: gen.Bit(t, "reset") == 1}
			for range c.Stores {
				p.Down = append(p.Down, gen.Bit(t, "down") == 1)
			}
			if slow != "" {
				p.Hold = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1200, 2300, 4500}).Draw(t, "hold")
			}
			for m := rapid.IntRange(0, 3).Draw(t, "saves"); m > 0; m-- {
				n++
				p.Saves = append(p.Saves, message{Data: append([]byte(fmt.Sprintf("%d:", n)), gen.BytesUpTo(t, 40, "data")...), Rep: 1})
			}
			c.Phases = append(c.Phases, p)
		}
		return c
	}
}

func order(t *rapid.T, b []backend) []backend {
	for i := len(b) - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(t, "order")
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// What is known of a store.
const (
	ready = iota
	away
	recovering // reachable again, not used successfully since
)

type watched struct {
	backend
	st    *fakes.State
	state int
	lost  bool // has been away at least once
	// sure is what it has to hold, in order (backends that confirm nothing);
	// can is what it may hold.
	sure []string
	can  map[string]bool
}

// count is how often it holds this message.
func (w *watched) count(data string) (n int) {
	for _, d := range w.st.Snap().Got {
		if string(d.Payload) == data {
			n++
		}
	}
	return
}

func (w *watched) check() error {
	s := w.st.Snap()
	if len(s.Problems) > 0 {
		return fmt.Errorf("the %s server complains: %s", w.Kind, s.Problems[0])
	}
	seen := map[string]bool{}
	for _, d := range s.Got {
		if x := w.same(d, d.Payload); x != "" {
			return fmt.Errorf("%s: %s", w.Kind, x)
		}
		if seen[string(d.Payload)] {
			return fmt.Errorf("%s: message %s is stored twice", w.Kind, clip(d.Payload))
		}
		seen[string(d.Payload)] = true
		if !w.can[string(d.Payload)] {
			return fmt.Errorf("%s: message %s was not saved while it could be stored", w.Kind, clip(d.Payload))
		}
	}
	return nil
}

// settle waits until everything that has to arrive has arrived.
func (w *watched) settle() error {
	if acked(w.Kind) {
		return nil
	}
	// they arrive in order, perhaps with some that were refused by another
	// store in between
	arrived := 0
	if !w.st.Wait(wait, func(s fakes.Snapshot) bool {
		arrived = 0
		for _, d := range s.Got {
			if arrived < len(w.sure) && string(d.Payload) == w.sure[arrived] {
				arrived++
			}
		}
		return arrived == len(w.sure)
	}) {
		return pbt.Soft("%s: of %d messages saved the first %d arrive in order, then %s is missing", w.Kind, len(w.sure), arrived, clip([]byte(w.sure[arrived])))
	}
	return nil
}

func runOutage(c outageCase, r *pbt.Rec) error {
	var ws []*watched
	cfg := map[string]map[string]string{}
	for _, b := range c.Stores {
		s, err := fake(b.Kind)
		if err != nil {
			return err
		}
		w := &watched{backend: b, st: s.Begin(b.Want), can: map[string]bool{}}
		defer w.st.End()
		ws = append(ws, w)
		cfg[b.Kind] = b.params(w.st)
	}
	repo := storage.NewRepository()
	if err := repo.LoadStorages(cfg); err != nil {
		return fmt.Errorf("loading the stores: %v", err)
	}
	save := func(m message, what string) error {
		data := string(m.bytes())
		var before []int
		for _, w := range ws {
			before = append(before, len(w.st.Snap().Got))
			if w.state != away || !acked(w.Kind) {
				w.can[data] = true
			}
		}
		err := repo.Save(m.value())
		all := true
		for i, w := range ws {
			n := 0
			if acked(w.Kind) {
				n = len(w.st.Snap().Got) - before[i]
				switch {
				case n > 1:
					return fmt.Errorf("%s: %s stored it %d times", what, w.Kind, n)
				case err == nil && n == 0:
					return fmt.Errorf("%s reports success, %s has not stored it", what, w.Kind)
				case w.state == away && n > 0:
					return fmt.Errorf("%s: %s stored it while unreachable", what, w.Kind)
				case w.state == ready && n == 0:
					return fmt.Errorf("%s: %s is reachable and has not stored it (%v)", what, w.Kind, err)
				case w.count(data) != n:
					return fmt.Errorf("%s: %s holds another message", what, w.Kind)
				}
				if n == 1 && w.state == recovering {
					w.state = ready
				}
				all = all && n == 1
				continue
			}
			switch {
			case w.Kind == "rabbitmq" && w.lost:
				// it must refuse or deliver; that it never comes back is a
				// listed finding
				if err != nil && w.state != away {
					r.Known("C27-rabbitmq-reconnect")
				}
				if err == nil {
					w.sure = append(w.sure, data)
				}
				all = false
			case err == nil || w.state == ready:
				w.sure = append(w.sure, data)
			default:
				// NATS, away or recovering, and some store refused
				all = false
			}
		}
		if all && err != nil {
			return fmt.Errorf("%s: every store has it, yet %v is reported", what, err)
		}
		return nil
	}
	outages, during := 0, 0
	probe := 0
	ends := append(append([]outagePhase{}, c.Phases...), outagePhase{Down: make([]bool, len(ws))})
	for i, p := range ends {
		for j, w := range ws {
			switch {
			case p.Down[j] && w.state != away:
				if err := w.settle(); err != nil {
					return fmt.Errorf("before outage %d: %w", i+1, err)
				}
				if !w.st.Down(p.Reset) {
					return pbt.Inconclusivef("the stand-in does not stop")
				}
				w.state, w.lost = away, true
				outages++
				if !acked(w.Kind) {
					time.Sleep(300 * time.Millisecond) // the connector notices
				}
			case !p.Down[j] && w.state == away:
				w.st.Up()
				w.state = recovering
			}
		}
		// until every reachable store takes messages again
		for end := time.Now().Add(wait); ; time.Sleep(5 * time.Millisecond) {
			waiting := ""
			for _, w := range ws {
				if w.state == recovering && acked(w.Kind) {
					waiting = w.Kind
				}
				if w.state == recovering && w.Kind == "nats" {
					// buffers meanwhile
					w.state = ready
				}
			}
			if waiting == "" {
				break
			}
			if time.Now().After(end) {
				return pbt.Soft("phase %d: %s is reachable again and still refuses everything", i+1, waiting)
			}
			probe++
			if err := save(message{Data: []byte(fmt.Sprintf("probe %d", probe))}, fmt.Sprintf("phase %d, probe %d", i+1, probe)); err != nil {
				return err
			}
		}
		for _, d := range p.Down {
			if d && p.Hold > 0 {
				time.Sleep(time.Duration(p.Hold) * time.Millisecond)
				r.ClassIf(p.Hold > 2000, "outage of more than 2 s")
				break
			}
		}
		for k, m := range p.Saves {
			if err := save(m, fmt.Sprintf("phase %d (%s), save %d", i+1, describe(ws), k+1)); err != nil {
				return err
			}
			for _, w := range ws {
				if w.state == away {
					during++
					break
				}
			}
		}
	}
	if err := save(message{Data: []byte("last")}, "the last save"); err != nil {
		return err
	}
	for _, w := range ws {
		if err := w.settle(); err != nil {
			return err
		}
		if err := w.check(); err != nil {
			return err
		}
	}
	if outages > 0 && during > 0 {
		r.NonTrivial()
	}
	r.ClassIf(outages > 1, "several outages")
	r.ClassIf(len(ws) > 1, "several stores")
	for _, w := range ws {
		if w.lost {
			r.Class("%s lost and back", w.Kind)
		}
	}
	for _, p := range c.Phases {
		up, down := false, false
		for _, d := range p.Down {
			up, down = up || !d, down || d
		}
		r.ClassIf(up && down && len(p.Saves) > 0, "some stores away")
		r.ClassIf(!up && len(p.Saves) > 0, "all stores away")
	}
	return nil
}

func describe(ws []*watched) string {
	var s []string
	for _, w := range ws {
		s = append(s, w.Kind+" "+[]string{"reachable", "unreachable", "recovering"}[w.state])
	}
	return strings.Join(s, ", ")
}

// awayCase talks to the receiver program on one connection while its stores
// come and go.
type awayCase struct {
	Stores []backend
	Phases []awayPhase
	Level  string
}

type awayPhase struct {
	Down  []bool
	Reset bool
	Items []model.Item
	Probe uint32 // navigation time of the first probing record
}

const mostProbes = 40

func genAway(t *rapid.T) awayCase {
	c := awayCase{Level: rapid.SampledFrom([]string{"DEBUG", "INFO", "ERROR"}).Draw(t, "level")}
	for _, k := range pooled {
		if gen.Bit(t, "use"+k) == 1 {
			c.Stores = append(c.Stores, genBackend(t, k))
		}
	}
	if len(c.Stores) == 0 {
		c.Stores = []backend{genBackend(t, rapid.SampledFrom(pooled).Draw(t, "kind"))}
	}
	id := sess.NewIDs(t)
	for k := rapid.IntRange(2, 4).Draw(t, "phases"); k > 0; k-- {
		p := awayPhase{Reset: gen.Bit(t, "reset") == 1}
		for range c.Stores {
			p.Down = append(p.Down, gen.Bit(t, "down") == 1)
		}
		p.Items = sess.Session(t, id, sess.Opt{Packets: 3, Responses: true})
		c.Phases = append(c.Phases, p)
	}
	return c
}

// line is a connection to the receiver.
type line struct {
	net.Conn
	buf []byte
}

// ask sends the bytes and returns n packets.
func (l *line) ask(b []byte, n int) ([]byte, error) {
	done := make(chan error, 1)
	go func() { _, err := l.Write(b); done <- err }()
	var got []byte
	l.SetDeadline(time.Now().Add(wait))
	buf := make([]byte, 65536)
	for n > 0 {
		if _, k, why := ref.ParseFrame(l.buf); why == "" {
			got, l.buf = append(got, l.buf[:k]...), l.buf[k:]
			n--
			continue
		}
		k, err := l.Read(buf)
		l.buf = append(l.buf, buf[:k]...)
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				return got, pbt.Soft("%d replies are missing", n)
			}
			return got, fmt.Errorf("%d replies are missing: %v", n, err)
		}
	}
	if err := <-done; err != nil {
		return got, fmt.Errorf("sending: %v", err)
	}
	return got, nil
}

func probePacket(n int, ntm uint32) *ref.Packet {
	return &ref.Packet{PRV: 1, PT: ref.PtAppdata, PID: uint16(n), Records: []ref.Record{{RN: uint16(n), SST: 2, RST: 2,
		Subs: []ref.Sub{{T: 16, Pos: &ref.Pos{NTM: ntm, LAT: 1, LONG: 1}}}}}}
}

func runAway(c awayCase, r *pbt.Rec) error {
	states := map[string]*fakes.State{}
	for _, b := range c.Stores {
		s, err := fake(b.Kind)
		if err != nil {
			return err
		}
		states[b.Kind] = s.Begin(b.Want)
		defer states[b.Kind].End()
	}
	p, stop, _, addr, err := launchFree(false, func(host, port string) settings {
		return recvCase{Stores: c.Stores, Level: c.Level, HasLevel: true, Order: []int{0, 1, 2, 3, 4}}.file(host, port, states)
	})
	if err != nil {
		return err
	}
	defer stop()
	k, err := net.DialTimeout("tcp", addr, wait)
	if err != nil {
		return fmt.Errorf("cannot connect: %v", err)
	}
	defer k.Close()
	l := &line{Conn: k}
	m := &model.Session{}
	want := map[string][]model.Expect{} // per store, exactly these in order
	phases := append(append([]awayPhase{}, c.Phases...), awayPhase{Down: make([]bool, len(c.Stores))})
	down := map[string]bool{}
	fresh := map[string]bool{} // reachable again, nothing stored since
	probes, refused, stored := 0, 0, 0
	exchange := func(its []model.Item, what string) (failed bool, err error) {
		away := len(fresh) > 0
		for _, d := range down {
			away = away || d
		}
		nr, ns := len(m.Replies), len(m.Saves)
		var b []byte
		for _, it := range its {
			m.Feed(it, func(int64) bool { return away })
			b = append(b, it.Bytes()...)
		}
		exp := m.Replies[nr:]
		before := map[string]int{}
		for _, b := range c.Stores {
			before[b.Kind] = len(states[b.Kind].Snap().Got)
		}
		got, err := l.ask(b, len(exp))
		if err != nil {
			if !p.alive() {
				return false, fmt.Errorf("%s: the receiver died:\n%s", what, tail(p.out.String(), 3000))
			}
			return false, fmt.Errorf("%s: %w", what, err)
		}
		reps, bad := model.ParseReplies(got)
		if bad != "" {
			return false, fmt.Errorf("%s: %s", what, bad)
		}
		// a store that is reachable again may take this already
		if len(fresh) > 0 {
			all := true
			for _, b := range c.Stores {
				if n := len(states[b.Kind].Snap().Got) - before[b.Kind]; n > 0 && fresh[b.Kind] {
					delete(fresh, b.Kind)
				}
				all = all && len(states[b.Kind].Snap().Got) > before[b.Kind]
			}
			if all {
				exp[0].Code = 0
				for i := range exp[0].Confirms {
					exp[0].Confirms[i].Failed = false
				}
			}
			failed = !all
		}
		if d := model.DiffReplies(exp, reps, true); d != "" {
			return false, fmt.Errorf("%s: %s", what, d)
		}
		for _, b := range c.Stores {
			if down[b.Kind] || fresh[b.Kind] {
				continue
			}
			want[b.Kind] = append(want[b.Kind], m.Saves[ns:]...)
		}
		if away {
			refused += len(m.Saves) - ns
		} else {
			stored += len(m.Saves) - ns
		}
		return failed, nil
	}
	for i, ph := range phases {
		for j, b := range c.Stores {
			switch {
			case ph.Down[j] && !down[b.Kind]:
				if !states[b.Kind].Down(ph.Reset) {
					return pbt.Inconclusivef("the stand-in does not stop")
				}
				down[b.Kind] = true
				delete(fresh, b.Kind)
			case !ph.Down[j] && down[b.Kind]:
				states[b.Kind].Up()
				delete(down, b.Kind)
				fresh[b.Kind] = true
			}
		}
		for end := time.Now().Add(wait); len(fresh) > 0; time.Sleep(5 * time.Millisecond) {
			if time.Now().After(end) {
				return pbt.Soft("phase %d: %v reachable again and still refusing", i+1, names(fresh))
			}
			probes++
			if _, err := exchange([]model.Item{{P: probePacket(probes, uint32(probes))}}, fmt.Sprintf("phase %d, probe %d", i+1, probes)); err != nil {
				return err
			}
		}
		if _, err := exchange(ph.Items, fmt.Sprintf("phase %d, away: %v", i+1, names(down))); err != nil {
			return err
		}
	}
	for _, b := range c.Stores {
		s := states[b.Kind].Snap()
		if len(s.Problems) > 0 {
			return fmt.Errorf("the %s server complains: %s", b.Kind, s.Problems[0])
		}
		for i, d := range s.Got {
			if x := b.same(d, d.Payload); x != "" {
				return fmt.Errorf("%s: %s", b.Kind, x)
			}
			v, err := model.Parse(string(d.Payload))
			if err != nil {
				return fmt.Errorf("%s: not a record: %v: %s", b.Kind, err, clip(d.Payload))
			}
			if i >= len(want[b.Kind]) {
				return fmt.Errorf("%s: a record too many: %s", b.Kind, clip(d.Payload))
			}
			if x := want[b.Kind][i].Diff(v, func(string) {}); x != "" {
				return fmt.Errorf("%s: record %d: %s", b.Kind, i+1, x)
			}
		}
		if len(s.Got) != len(want[b.Kind]) {
			return fmt.Errorf("%s: %d records instead of %d", b.Kind, len(s.Got), len(want[b.Kind]))
		}
	}
	if refused > 0 && stored > 0 {
		r.NonTrivial()
	}
	r.ClassIf(refused > 0 && stored > 0, "refused and stored")
	r.ClassIf(len(c.Stores) > 1, "several stores")
	return nil
}

func names(m map[string]bool) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	return
}

func c27() pbt.Property {
	slow := func(s *pbt.Sub) { s.Budget, s.Limit = 300*time.Second, 180*time.Second }
	return pbt.Property{
		ID: "C27",
		Rule: "1..4 stores (each kind at most once) behind stand-ins that are taken away (connections reset or ended, new ones closed) and brought back in 2..5 generated phases, with 0..3 saves each, through the repository and, for the pooled kinds, through the receiver program on one client connection; " +
			"every message is looked for in every store; non-trivial: something was saved while a store was away and everything was brought back; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("pooled", 800, 30000, genOutage(""), runOutage),
			pbt.Make("tarantool_queue", 64, 3000, genOutage("tarantool_queue"), runOutage).With(slow),
			pbt.Make("nats", 48, 1500, genOutage("nats"), runOutage).With(slow),
			pbt.Make("rabbitmq", 48, 3000, genOutage("rabbitmq"), runOutage).With(slow),
			pbt.Make("lost-answer", 1600, 60000, genLost, runHard("C27")),
			pbt.Make("receiver", 400, 20000, genAway, runAway),
		},
	}
}
