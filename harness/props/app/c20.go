package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"maps"
	"net"
	"os"
	"reflect"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

// fanout: a history of registrations and saves.
type fanCase struct {
	// Ops: -1 registers a store; n >= 0 saves a message with failure set n
	// (bit i: the i-th store refuses).
	Ops []int
	// Kind is where the sequence of errors begins.
	Kind int
}

func genFan(t *rapid.T) fanCase {
	c := fanCase{Kind: rapid.IntRange(0, len(refusals)-1).Draw(t, "kind")}
	for n := rapid.IntRange(1, 12).Draw(t, "ops"); n > 0; n-- {
		if gen.Chance(t, 3, "add") {
			c.Ops = append(c.Ops, -1)
		} else {
			c.Ops = append(c.Ops, rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 31, 63}).Draw(t, "fails"))
		}
	}
	return c
}

type seen struct {
	store int
	msg   any
}

// refusals are errors that stores report.
var refusals = []error{
	errors.New("store refuses"),
	io.EOF,
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded},
	context.Canceled,
	context.DeadlineExceeded,
	net.ErrClosed,
	driver.ErrBadConn,
	fmt.Errorf("store: %w", syscall.ECONNREFUSED),
	storage.InvalidStorage,
	storage.UnknownStorage,
	errors.New(""),
	sql.ErrNoRows,
	sql.ErrConnDone,
	syscall.ECONNRESET,
}

type recStore struct {
	id   int
	log  *[]seen
	fail func(int) bool
	kind func() int
}

func (s recStore) Save(m interface{ ToBytes() ([]byte, error) }) error {
	*s.log = append(*s.log, seen{s.id, m})
	if s.fail(s.id) {
		return refusals[(s.id+s.kind())%len(refusals)]
	}
	return nil
}

func runFan(c fanCase, r *pbt.Rec) error {
	repo := storage.NewRepository()
	var log []seen
	n, mask, now := 0, 0, 0
	for i, op := range c.Ops {
		if op < 0 {
			repo.AddStore(recStore{n, &log, func(id int) bool { return mask>>id&1 == 1 }, func() int { return now + c.Kind }})
			n++
			continue
		}
		mask, now = op, i
		log = nil
		msg := &payload{b: []byte(fmt.Sprint("message ", i))}
		if i%3 == 2 {
			msg.fail = true
		}
		err := repo.Save(msg)
		failing := 0
		for k := 0; k < n; k++ {
			failing += mask >> k & 1
		}
		if (err != nil) != (failing > 0) {
			return fmt.Errorf("operation %d: Save returns %v, %d of %d stores failed", i+1, err, failing, n)
		}
		if len(log) != n {
			return fmt.Errorf("operation %d: %d hand-overs to %d stores (failing set %b)", i+1, len(log), n, mask)
		}
		for k, s := range log {
			if s.store != k {
				return fmt.Errorf("operation %d: hand-over %d went to store %d", i+1, k+1, s.store+1)
			}
			if s.msg != any(msg) {
				return fmt.Errorf("operation %d: store %d received %#v instead of the saved message", i+1, k+1, s.msg)
			}
		}
		if n > 1 {
			r.NonTrivial()
		}
		r.ClassIf(n == 0, "no stores")
		r.ClassIf(failing > 0 && failing < n, "some stores fail")
		r.ClassIf(n > 0 && failing == n, "all stores fail")
		r.ClassIf(n > 1 && mask&1 == 1, "first store fails")
		r.ClassIf(n > 1 && mask>>(n-1)&1 == 1, "last store fails")
	}
	return nil
}

// loading a configuration.
type loadCase struct {
	Stores []backend
	// Bad: what is wrong: "", "unknown", "nil", "empty" (a section without
	// parameters), "unreachable", "missing",
	// "login" (another password), "database" (another one), "closing" (the
	// server ends every connection).
	Bad     string
	BadKind string // which kind is wrong, or the unknown kind's name
	Missing string
	Data    []byte
}

func genLoad(t *rapid.T) loadCase {
	c := loadCase{Data: gen.BytesUpTo(t, 50, "data")}
	for _, k := range fakes.Kinds {
		if gen.Bit(t, "use"+k) == 1 {
			b := genBackend(t, k)
			b.Want.MaxPayload = 0
			c.Stores = append(c.Stores, b)
		}
	}
	if len(c.Stores) > 1 {
		c.Stores = rapid.Permutation(c.Stores).Draw(t, "order")
	}
	switch rapid.IntRange(0, 9).Draw(t, "bad") {
	case 8, 9: // a reachable server that does not let the configured user in
		c.Bad = rapid.SampledFrom([]string{"login", "login", "database", "closing"}).Draw(t, "refusal")
		kinds := []string{"mysql", "nats", "postgresql", "rabbitmq", "tarantool_queue"}
		if c.Bad == "database" {
			kinds = []string{"mysql", "postgresql"}
		}
		c.BadKind = rapid.SampledFrom(kinds).Draw(t, "kind")
		at := -1
		for i := range c.Stores {
			if c.Stores[i].Kind == c.BadKind {
				at = i
			}
		}
		if at < 0 {
			b := genBackend(t, c.BadKind)
			b.Want.MaxPayload = 0
			c.Stores, at = append(c.Stores, b), len(c.Stores)
		}
		b := &c.Stores[at]
		switch {
		case c.Bad == "database":
			b.Want.DB += "x"
		case c.Bad == "login":
			b.Want.Auth = true
			if b.Want.User == "" {
				b.Want.User = "u"
			}
			if b.Kind == "nats" || b.Kind == "tarantool_queue" {
				b.Params["user"], b.Params["password"] = b.Want.User, b.Want.Pass
			}
			if b.Want.Method == 0 {
				b.Want.Method = 2
			}
			b.Want.Pass += rapid.SampledFrom([]string{"x", " ", "\n"}).Draw(t, "other")
		}
	case 4:
		c.Bad = "unknown"
		c.BadKind = rapid.SampledFrom([]string{"", "Redis", "REDIS", "mongo", "postgres", "postgresql ", "tarantool", "kafka", "log", "nat", "clickhouse", "rabbit"}).Draw(t, "kind")
	case 5:
		c.Bad = rapid.SampledFrom([]string{"nil", "empty"}).Draw(t, "section")
		c.BadKind = rapid.SampledFrom(fakes.Kinds).Draw(t, "kind")
	case 6:
		c.Bad = "unreachable"
		// Redis connects with the first message
		c.BadKind = rapid.SampledFrom([]string{"mysql", "nats", "postgresql", "rabbitmq", "tarantool_queue"}).Draw(t, "kind")
	case 7:
		c.Bad = "missing"
		x := rapid.SampledFrom([][2]string{{"redis", "server"}, {"redis", "queue"}, {"tarantool_queue", "max_recons"}, {"tarantool_queue", "timeout"}, {"tarantool_queue", "reconnect"}, {"mysql", "uri"}}).Draw(t, "missing")
		c.BadKind, c.Missing = x[0], x[1]
	}
	return c
}

func runLoad(c loadCase, r *pbt.Rec) error {
	cfg := map[string]map[string]string{}
	states := map[string]*fakes.State{}
	for _, k := range fakes.Kinds {
		s, err := fake(k)
		if err != nil {
			return err
		}
		states[k] = s.Begin(fakes.Want{})
		defer states[k].End()
	}
	find := func(k string) *backend {
		for i := range c.Stores {
			if c.Stores[i].Kind == k {
				return &c.Stores[i]
			}
		}
		return nil
	}
	for _, b := range c.Stores {
		s, _ := fake(b.Kind)
		st := s.Begin(b.Want)
		states[b.Kind] = st
		defer st.End()
		cfg[b.Kind] = b.params(st)
	}
	switch c.Bad {
	case "unknown":
		cfg[c.BadKind] = map[string]string{"host": "127.0.0.1"}
	case "nil":
		cfg[c.BadKind] = nil
	case "empty":
		cfg[c.BadKind] = map[string]string{}
	case "unreachable":
		b := find(c.BadKind)
		p := map[string]string{"max_recons": "0", "timeout": "5", "reconnect": "0", "sslmode": "disable", "user": "u", "password": "p", "database": "d", "table": "t", "queue": "q", "topic": "t"}
		if b != nil {
			for k, v := range b.Params {
				p[k] = v
			}
		}
		// nothing listens on port 1
		p["host"], p["port"], p["server"], p["servers"], p["uri"] = "127.0.0.1", "1", "127.0.0.1:1", "nats://127.0.0.1:1", "u:p@tcp(127.0.0.1:1)/d"
		p["reconnect"] = "0"
		cfg[c.BadKind] = p
	case "closing":
		l, err := closer()
		if err != nil {
			return err
		}
		b := *find(c.BadKind)
		b.Params = maps.Clone(b.Params)
		if b.Kind == "nats" {
			b.Params["servers"] = "nats://%h:%p"
		}
		if b.Kind == "tarantool_queue" {
			b.Params["reconnect"] = "0"
		}
		h, p, _ := net.SplitHostPort(l.Addr().String())
		cfg[c.BadKind] = b.params(&fakes.State{Host: h, Port: p})
	case "missing":
		p := map[string]string{"server": "127.0.0.1:1", "queue": "q", "db": "0", "max_recons": "0", "timeout": "5", "reconnect": "0", "host": "127.0.0.1", "port": "1"}
		if b := find(c.BadKind); b != nil {
			for k, v := range b.params(states[c.BadKind]) {
				p[k] = v
			}
		} else if c.BadKind == "tarantool_queue" {
			// a reachable server, so that the missing parameter decides
			p["host"], p["port"] = states[c.BadKind].Host, states[c.BadKind].Port
		}
		delete(p, c.Missing)
		cfg[c.BadKind] = p
	}
	repo := storage.NewRepository()
	err := repo.LoadStorages(cfg)
	if len(cfg) == 0 && len(c.Data)%2 == 0 {
		err = storage.NewRepository().LoadStorages(nil)
	}
	defer closeStores(repo)
	if c.Bad != "" || len(cfg) == 0 {
		if err == nil {
			return fmt.Errorf("no error for a configuration that is %s (%s %s)", map[bool]string{true: "empty", false: c.Bad}[len(cfg) == 0], c.BadKind, c.Missing)
		}
		r.NonTrivial()
		if len(cfg) == 0 {
			r.Class("empty configuration")
		} else {
			r.Class("%s", c.Bad)
		}
		return nil
	}
	if err != nil {
		var p []string
		for _, st := range states {
			p = append(p, st.Snap().Problems...)
		}
		return fmt.Errorf("a valid configuration is refused: %v %q", err, p)
	}
	if err := repo.Save(&payload{b: c.Data}); err != nil {
		return fmt.Errorf("Save fails: %v", err)
	}
	for _, b := range c.Stores {
		if !states[b.Kind].Wait(flushWait(b.Kind), func(s fakes.Snapshot) bool { return len(s.Got) > 0 || len(s.Problems) > 0 }) {
			return pbt.Soft("%s is configured but receives nothing", b.Kind)
		}
	}
	for _, k := range fakes.Kinds {
		s := states[k].Snap()
		b := find(k)
		if len(s.Problems) > 0 {
			return fmt.Errorf("%s: %s", k, s.Problems[0])
		}
		if b == nil {
			if s.Conns > 0 || len(s.Got) > 0 || s.Logins > 0 {
				return fmt.Errorf("%s is not configured but is connected", k)
			}
			continue
		}
		if len(s.Got) != 1 {
			return fmt.Errorf("%s received %d messages instead of 1", k, len(s.Got))
		}
		if d := b.same(s.Got[0], c.Data); d != "" {
			return fmt.Errorf("%s: %s", k, d)
		}
		r.Class("%s", k)
	}
	r.ClassIf(len(c.Stores) > 1, "several stores")
	r.ClassIf(len(c.Stores) == len(fakes.Kinds), "all stores")
	r.NonTrivial()
	return nil
}

// closer is a server that closes every connection at once.
func closer() (net.Listener, error) {
	closerOnce.Do(func() {
		closerL, closerErr = net.Listen("tcp", "127.0.0.1:0")
		if closerErr != nil {
			return
		}
		go func() {
			for {
				c, err := closerL.Accept()
				if err != nil {
					return
				}
				c.Close()
			}
		}()
	})
	if closerErr != nil {
		return nil, pbt.Inconclusivef("cannot listen: %v", closerErr)
	}
	return closerL, nil
}

var (
	closerOnce sync.Once
	closerL    net.Listener
	closerErr  error
)

func flushWait(string) time.Duration { return wait }

func c20() pbt.Property {
	return pbt.Property{
		ID: "C20",
		Rule: "histories of 1..12 registrations and saves with generated failure sets over recording stores; configurations of any subset of the six backends (against protocol stand-ins), optionally made wrong by an unknown kind, a missing or empty section, a missing " +
			"parameter, an unreachable server, or one that refuses the login or the database or closes the connection; non-trivial: a save with at least two stores, a loaded configuration that delivered, or a refused one; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("fan-out", 300000, 8000000, genFan, runFan),
			pbt.Make("load", 12000, 120000, genLoad, runLoad),
		},
	}
}

// closeStores closes the connectors inside a repository, as far as they can be
// found, so that they do not pile up.
func closeStores(repo *storage.Repository) {
	defer func() { recover() }()
	v := reflect.ValueOf(repo).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		for j := 0; j < f.Len(); j++ {
			if c, ok := f.Index(j).Interface().(storage.Connector); ok {
				c.Close()
			}
		}
	}
}
