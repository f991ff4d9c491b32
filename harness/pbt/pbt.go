// Package pbt is the small property-based-testing runtime used by every
// check: it drives rapid generators, counts what was actually generated,
// shrinks a failure and writes the minimal case as a replay file.
//
// A property is a list of sub-checks. A sub-check generates a JSON
// serialisable case and runs an oracle over it, so a replay needs neither
// rapid nor the seed: it is the case itself.
package pbt

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one execution of a case exercised.
type Rec struct {
	classes    map[string]bool
	nontrivial bool
	known      map[string]bool
}

// Class labels the case (counted in the evidence).
func (r *Rec) Class(format string, a ...any) {
	if r.classes == nil {
		r.classes = map[string]bool{}
	}
	r.classes[fmt.Sprintf(format, a...)] = true
}

// ClassIf labels the case when cond holds.
func (r *Rec) ClassIf(cond bool, s string) {
	if cond {
		r.Class("%s", s)
	}
}

// NonTrivial marks the case as non-trivial by the sub-check's stated rule.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Known notes that the case hit a listed known finding and nothing else.
func (r *Rec) Known(id string) {
	if r.known == nil {
		r.known = map[string]bool{}
	}
	r.known[id] = true
}

// SoftError is a failure whose evidence is an expired time limit: it counts
// as a violation only if it happens again when the case is run afresh.
type SoftError struct{ Err error }

func (s SoftError) Error() string { return s.Err.Error() }

// Soft builds a SoftError.
func Soft(format string, a ...any) error { return SoftError{fmt.Errorf(format, a...)} }

// Inconclusive is an environment problem (cannot bind a port, cannot start a
// process): the check gives no verdict.
type Inconclusive struct{ Err error }

func (s Inconclusive) Error() string { return "inconclusive: " + s.Err.Error() }

// Inconclusivef builds an Inconclusive error.
func Inconclusivef(format string, a ...any) error { return Inconclusive{fmt.Errorf(format, a...)} }

// Sub is one executable check over generated cases.
type Sub struct {
	Name     string
	Quick    int // cases over all shards, quick tier
	Thorough int // cases over all shards, thorough tier
	// Budget bounds the generation time of this sub-check per shard in the
	// quick tier (thorough: x20). Zero: 60 s.
	Budget time.Duration
	// Limit is the watchdog for a single case. Zero: 60 s.
	Limit time.Duration
	// Shrink bounds minimisation. Zero: 10 s.
	Shrink time.Duration
	// MaxShards limits the number of shards this sub-check runs in.
	MaxShards int
	gen       func(*rapid.T) any
	enum      func(tier string, yield func(any) bool)
	decode    func([]byte) (any, error)
	run       func(any, *Rec) error
}

// Make builds a generated sub-check.
func Make[C any](name string, quick, thorough int, gen func(*rapid.T) C, run func(C, *Rec) error) Sub {
	return Sub{
		Name: name, Quick: quick, Thorough: thorough,
		gen:    func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) { var c C; err := json.Unmarshal(b, &c); return c, err },
		run:    func(c any, r *Rec) error { return run(c.(C), r) },
	}
}

// MakeEnum builds a sub-check over an enumerated list of cases.
func MakeEnum[C any](name string, enum func(tier string, yield func(C) bool), run func(C, *Rec) error) Sub {
	return Sub{
		Name: name,
		enum: func(tier string, yield func(any) bool) {
			enum(tier, func(c C) bool { return yield(c) })
		},
		decode: func(b []byte) (any, error) { var c C; err := json.Unmarshal(b, &c); return c, err },
		run:    func(c any, r *Rec) error { return run(c.(C), r) },
	}
}

// With returns the sub-check with other limits.
func (s Sub) With(f func(*Sub)) Sub { f(&s); return s }

// Property is everything decided for one property id.
type Property struct {
	ID   string
	Rule string // how cases are made and which are non-trivial
	Subs []Sub
	// Setup and Teardown run once per process.
	Setup    func() error
	Teardown func()
}

type subStats struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	WallMs      int64          `json:"wall_ms"`
	CutShort    bool           `json:"cut_short"`
	Soft        int            `json:"unconfirmed_timeouts"`
	SoftNotes   []string       `json:"unconfirmed_timeout_notes"`
}

type report struct {
	Property string         `json:"property"`
	Rule     string         `json:"rule"`
	Tier     string         `json:"tier"`
	Shard    int            `json:"shard"`
	Subs     []*subStats    `json:"subs"`
	Known    map[string]int `json:"known"`
	Failure  *failure       `json:"failure,omitempty"`
	Error    string         `json:"error,omitempty"`
}

type failure struct {
	Sub     string `json:"sub"`
	Message string `json:"message"`
	Replay  string `json:"replay"`
}

// ReplayFile is the on-disk form of a failing case.
type ReplayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message"`
	Zone     string          `json:"zone,omitempty"` // time zone of the process
	Case     json.RawMessage `json:"case"`
}

type tb struct{ failed bool }

type tbFail struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      {}
func (t *tb) Skip(...any)               {}
func (t *tb) SkipNow()                  {}
func (t *tb) Errorf(f string, a ...any) { t.failed = true; lastTB = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; panic(tbFail{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

var lastTB string

type runner struct {
	prop      Property
	tier      string
	seed      uint64
	shard     int
	shards    int
	out       string
	replayDir string
	journal   string
	known     map[string]bool
	rep       report
	looked    time.Time
	stop      bool

	mu       sync.Mutex
	curSub   *Sub
	curCase  any
	curStart time.Time
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	v &= 0x7FFFFFFFFFFFFFFF
	if v == 0 {
		v = 1
	}
	return v
}

// exec runs one case under panic recovery and the watchdog.
func (r *runner) exec(s *Sub, c any, rec *Rec) (err error) {
	if r.journal != "" {
		r.writeReplay(r.journal, s, c, "journal")
	}
	r.mu.Lock()
	r.curSub, r.curCase, r.curStart = s, c, time.Now()
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		r.curSub = nil
		r.mu.Unlock()
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
		}
		if err == nil {
			for k := range rec.known {
				if !r.known[k] {
					err = fmt.Errorf("finding %s, which is not listed", k)
				}
			}
		}
	}()
	return s.run(c, rec)
}

func (r *runner) writeReplay(path string, s *Sub, c any, msg string) {
	b, err := json.Marshal(c)
	if err != nil {
		b = []byte("null")
		msg += " (case not serialisable: " + err.Error() + ")"
	}
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	rf, _ := json.MarshalIndent(ReplayFile{r.prop.ID, s.Name, msg, os.Getenv("TZ"), b}, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	os.WriteFile(path, append(rf, '\n'), 0o644)
}

func (r *runner) replayPath(s *Sub, c any) string {
	b, _ := json.Marshal(c)
	h := sha256.Sum256(b)
	return filepath.Join(r.replayDir, fmt.Sprintf("%s-%s-%x.json", r.prop.ID, s.Name, h[:6]))
}

func (r *runner) watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		r.mu.Lock()
		s, c, st := r.curSub, r.curCase, r.curStart
		r.mu.Unlock()
		if s == nil {
			continue
		}
		lim := s.Limit
		if lim == 0 {
			lim = 60 * time.Second
		}
		if time.Since(st) > lim {
			p := r.replayPath(s, c)
			msg := fmt.Sprintf("no result within %s", lim)
			r.writeReplay(p, s, c, msg)
			r.rep.Failure = &failure{s.Name, "HANG: " + msg, p}
			r.flush()
			os.Exit(4)
		}
	}
}

func (r *runner) flush() {
	b, _ := json.Marshal(r.rep)
	if r.out != "" {
		os.WriteFile(r.out, b, 0o644)
	}
}

// stopped tells whether another shard of this run has a confirmed failure, so
// that there is nothing left to find out.
func (r *runner) stopped() bool {
	if r.out == "" {
		return false
	}
	if now := time.Now(); now.Sub(r.looked) > 100*time.Millisecond {
		r.looked = now
		_, err := os.Stat(r.stopFile())
		r.stop = err == nil
	}
	return r.stop
}

func (r *runner) stopFile() string { return filepath.Join(filepath.Dir(r.out), r.prop.ID+".stop") }

type failedCase struct {
	c   any
	err error
}

// confirm re-runs soft failures; it returns the error to report, or nil.
func (r *runner) confirm(s *Sub, f failedCase, times int) error {
	var soft SoftError
	if !errors.As(f.err, &soft) {
		return f.err
	}
	for i := 0; i < times; i++ {
		err := r.exec(s, f.c, &Rec{})
		if err == nil {
			return nil
		}
		if !errors.As(err, &soft) {
			return err
		}
	}
	return f.err
}

func (r *runner) runSub(s Sub) (done bool) {
	st := &subStats{Name: s.Name, Classes: map[string]int{}}
	r.rep.Subs = append(r.rep.Subs, st)
	seen := map[[8]byte]bool{}
	start := time.Now()
	defer func() {
		st.WallMs = time.Since(start).Milliseconds()
		if r.out != "" {
			// the distinct non-trivial cases, for counting over all shards
			b := make([]byte, 0, 8*len(seen))
			for h := range seen {
				b = append(b, h[:]...)
			}
			os.WriteFile(r.out+"."+s.Name+".hash", b, 0o644)
		}
	}()
	var fails []failedCase
	one := func(c any) error {
		if len(fails) > 0 && r.stopped() {
			return nil // no more shrinking
		}
		rec := &Rec{}
		err := r.exec(&s, c, rec)
		var inc Inconclusive
		if errors.As(err, &inc) {
			r.rep.Error = s.Name + ": " + err.Error()
			r.flush()
			os.Exit(2)
		}
		var soft SoftError
		if errors.As(err, &soft) && len(fails) == 0 {
			// an expired time limit counts only if it expires again
			if cerr := r.confirm(&s, failedCase{c, err}, 2); cerr == nil {
				st.Soft++
				if len(st.SoftNotes) < 3 {
					st.SoftNotes = append(st.SoftNotes, err.Error())
				}
				return nil
			}
		}
		if err != nil {
			fails = append(fails, failedCase{c, err})
			return err
		}
		if len(fails) > 0 {
			return nil // shrinking: not counted
		}
		st.Evaluations++
		for k := range rec.classes {
			st.Classes[k]++
		}
		for k := range rec.known {
			r.rep.Known[k]++
		}
		if rec.nontrivial {
			st.NonTrivial++
			b, _ := json.Marshal(c)
			h := sha256.Sum256(b)
			var k [8]byte
			copy(k[:], h[:8])
			if !seen[k] {
				seen[k] = true
				if len(st.Samples) < 4 && len(b) < 3000 {
					st.Samples = append(st.Samples, string(b))
				} else if len(st.Samples) == 0 {
					st.Samples = append(st.Samples, string(b[:3000])+"...(cut)")
				}
			}
		}
		return nil
	}
	budget := s.Budget
	if budget == 0 {
		budget = 60 * time.Second
	}
	if r.tier == "thorough" {
		budget *= 20
	}
	over := func() bool {
		if time.Since(start) > budget || r.stopped() {
			st.CutShort = true
			return true
		}
		return false
	}

	if s.enum != nil {
		i := 0
		s.enum(r.tier, func(c any) bool {
			i++
			if (i-1)%r.shards != r.shard {
				return true
			}
			if over() {
				return false
			}
			return one(c) == nil
		})
	} else {
		n := s.Quick
		if r.tier == "thorough" {
			n = s.Thorough
		}
		shards := r.shards
		if s.MaxShards > 0 && shards > s.MaxShards {
			shards = s.MaxShards
		}
		if r.shard >= shards {
			return true
		}
		n = (n + shards - 1) / shards
		if n == 0 {
			return true
		}
		sh := s.Shrink
		if sh == 0 {
			sh = 10 * time.Second
		}
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.shrinktime", sh.String())
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.seed", fmt.Sprint(mix(r.seed, r.prop.ID, s.Name, r.shard)))
		t := &tb{}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(tbFail); !ok {
						panic(p)
					}
				}
			}()
			rapid.Check(t, func(rt *rapid.T) {
				if len(fails) == 0 && over() {
					return
				}
				c := s.gen(rt)
				if err := one(c); err != nil {
					// one fixed text, so that rapid's shrinker accepts any
					// smaller case that still breaks the property
					rt.Fatalf("property violated")
				}
			})
		}()
		if t.failed && len(fails) == 0 {
			r.rep.Error = s.Name + ": generator problem: " + lastTB
			r.flush()
			os.Exit(2)
		}
	}
	if len(fails) > 0 {
		if r.stopped() {
			return true
		}
		// the last failing case is the smallest one; the first one has failed
		// repeatedly already if it was a matter of time
		f := fails[len(fails)-1]
		err := f.err
		if len(fails) > 1 {
			if err = r.confirm(&s, f, 1); err == nil {
				st.Soft++
				f = fails[0]
				err = f.err
			}
		}
		p := r.replayPath(&s, f.c)
		r.writeReplay(p, &s, f.c, err.Error())
		r.rep.Failure = &failure{s.Name, err.Error(), p}
		if r.out != "" {
			os.WriteFile(r.stopFile(), nil, 0o644)
		}
		return false
	}
	return true
}

// BinDir holds the programs built for this run.
var BinDir string

// Shard is this process's number among those of the check.
var Shard int

// setZone takes on the time zone the replay file names.
func setZone(replay string) {
	var rf ReplayFile
	if b, err := os.ReadFile(replay); err != nil || json.Unmarshal(b, &rf) != nil || rf.Zone == "" {
		return
	}
	if l, err := time.LoadLocation(rf.Zone); err == nil {
		os.Setenv("TZ", rf.Zone)
		time.Local = l
	}
}

// Main runs one property of the list, or replays a case.
func Main(props []Property) {
	testing.Init()
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard number")
	shards := flag.Int("shards", 1, "number of shards")
	out := flag.String("out", "", "report file")
	dir := flag.String("replays", "replays", "directory for replay files")
	journal := flag.String("journal", "", "write every case here before running it")
	replay := flag.String("replay", "", "replay this file")
	known := flag.String("known", "", "comma-separated known findings")
	flag.StringVar(&BinDir, "bin", "", "directory of the programs built for this run")
	only := flag.String("only", "", "only sub-checks containing this text")
	flag.Parse()
	Shard = *shard

	var prop *Property
	if *replay != "" && *id == "" {
		var rf ReplayFile
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*id = rf.Property
	}
	if *replay != "" {
		setZone(*replay)
	}
	for i := range props {
		if props[i].ID == *id {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	r := &runner{prop: *prop, tier: *tier, seed: *seed, shard: *shard, shards: *shards,
		out: *out, replayDir: *dir, journal: *journal, known: map[string]bool{}}
	for _, k := range strings.Split(*known, ",") {
		r.known[k] = true
	}
	r.rep = report{Property: prop.ID, Rule: prop.Rule, Tier: *tier, Shard: *shard, Known: map[string]int{}}
	if prop.Setup != nil {
		if err := prop.Setup(); err != nil {
			r.rep.Error = "setup: " + err.Error()
			r.flush()
			fmt.Fprintln(os.Stderr, r.rep.Error)
			os.Exit(2)
		}
	}
	if prop.Teardown != nil {
		defer prop.Teardown()
	}
	exit := func(code int) {
		if prop.Teardown != nil {
			prop.Teardown()
		}
		os.Exit(code)
	}
	go r.watchdog()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var rf ReplayFile
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
		for i := range prop.Subs {
			s := &prop.Subs[i]
			if s.Name != rf.Sub {
				continue
			}
			c, err := s.decode(rf.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				exit(2)
			}
			rec := &Rec{}
			err = r.exec(s, c, rec)
			var inc Inconclusive
			if errors.As(err, &inc) {
				fmt.Println(err)
				exit(2)
			}
			if err != nil {
				if err = r.confirm(s, failedCase{c, err}, 2); err != nil {
					fmt.Printf("FAILS %s/%s: %v\n", prop.ID, s.Name, err)
					exit(1)
				}
			}
			fmt.Printf("HOLDS %s/%s\n", prop.ID, s.Name)
			exit(0)
		}
		fmt.Fprintf(os.Stderr, "no sub-check %q\n", rf.Sub)
		exit(2)
	}

	for _, s := range prop.Subs {
		if *only != "" && !strings.Contains(s.Name, *only) {
			continue
		}
		ok := r.runSub(s)
		r.flush()
		if !ok {
			fmt.Printf("FAIL %s/%s: %s\nreplay %s\n", prop.ID, s.Name, r.rep.Failure.Message, r.rep.Failure.Replay)
			exit(1)
		}
	}
	r.flush()
	exit(0)
}
