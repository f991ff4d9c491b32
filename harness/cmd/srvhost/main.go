// Command srvhost runs receiver servers of the code under test with recording
// stores, controlled over stdin/stdout by JSON lines. It exists as a process of
// its own so that a crash of the server is an observation, not the end of the
// check.
package main

import (
	"bufio"
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/server"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/sirupsen/logrus"
)

type request struct {
	Op     string
	ID     string
	Addr   string
	TTLms  int64
	Stores int
	// Fail lists (store, navigation time) pairs that are refused.
	Fail [][2]int64
	// Delay is the time in ms a save of that navigation time takes.
	Delay map[int64]int64
	WaitS int
	// Hold lists (store, navigation time) pairs whose save does not return
	// before "release".
	Hold [][2]int64
}

type save struct {
	S int    `json:"s"`
	B string `json:"b"`
	E string `json:"e,omitempty"`
}

type answer struct {
	Ok         bool   `json:"ok"`
	Err        string `json:"err,omitempty"`
	Saves      []save `json:"saves,omitempty"`
	Returned   bool   `json:"returned,omitempty"`
	Goroutines int    `json:"goroutines,omitempty"`
	Held       int    `json:"held,omitempty"`
	Heap       uint64 `json:"heap,omitempty"`
}

type book struct {
	mu    sync.Mutex
	saves []save
	fail  map[[2]int64]bool
	delay map[int64]int64
	hold  map[[2]int64]bool
	gate  chan struct{}
	held  int
}

type store struct {
	n int
	b *book
}

func (s *store) Save(m interface{ ToBytes() ([]byte, error) }) error {
	raw, err := m.ToBytes()
	sv := save{S: s.n, B: string(raw)}
	if err != nil {
		sv.E = err.Error()
	}
	var k struct {
		T int64 `json:"navigation_unix_time"`
	}
	_ = json.Unmarshal(raw, &k)
	s.b.mu.Lock()
	s.b.saves = append(s.b.saves, sv)
	fail := s.b.fail[[2]int64{int64(s.n), k.T}]
	d := s.b.delay[k.T]
	var gate chan struct{}
	if s.b.hold[[2]int64{int64(s.n), k.T}] {
		gate = s.b.gate
		s.b.held++
	}
	s.b.mu.Unlock()
	if gate != nil {
		<-gate
	}
	if d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	if fail {
		return refusals[(k.T%int64(len(refusals))+int64(s.n))%int64(len(refusals))]
	}
	return nil
}

// refusals are the errors that failing stores report, in turn.
var refusals = []error{
	errors.New("store refuses"),
	io.EOF,
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded},
	context.Canceled,
	context.DeadlineExceeded,
	net.ErrClosed,
	driver.ErrBadConn,
	fmt.Errorf("store: %w", syscall.ECONNREFUSED),
	storage.InvalidStorage,
	errors.New(""),
	sql.ErrNoRows,
	syscall.ECONNRESET,
}

type instance struct {
	stop func() error
	done chan struct{}
	book *book
}

func main() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	if os.Getenv("SRVHOST_LOG") != "" {
		logrus.SetOutput(os.Stderr)
		logrus.SetLevel(logrus.DebugLevel)
	}
	all, old := map[string]*instance{}, map[string]*instance{}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			panic(err)
		}
		a := answer{Ok: true}
		i := all[q.ID]
		switch q.Op {
		case "start":
			i = &instance{book: &book{}, done: make(chan struct{})}
			repo := storage.NewRepository()
			for n := 0; n < q.Stores; n++ {
				repo.AddStore(&store{n, i.book})
			}
			srv := server.New(q.Addr, time.Duration(q.TTLms)*time.Millisecond, repo)
			i.stop = srv.Stop
			all[q.ID] = i
			go func() {
				srv.Run()
				close(i.done)
			}()
		case "fresh":
			// a server that is stopped without ever having been started
			srv := server.New(q.Addr, time.Second, storage.NewRepository())
			if err := srv.Stop(); err != nil {
				a.Err = err.Error()
			}
		case "plan":
			i.book.mu.Lock()
			i.book.fail = map[[2]int64]bool{}
			for _, f := range q.Fail {
				i.book.fail[f] = true
			}
			i.book.delay = q.Delay
			i.book.mu.Unlock()
		case "hold":
			i.book.mu.Lock()
			i.book.hold, i.book.gate, i.book.held = map[[2]int64]bool{}, make(chan struct{}), 0
			for _, f := range q.Hold {
				i.book.hold[f] = true
			}
			i.book.mu.Unlock()
		case "release":
			i.book.mu.Lock()
			if i.book.hold != nil {
				close(i.book.gate)
			}
			i.book.hold = nil
			i.book.mu.Unlock()
		case "held":
			i.book.mu.Lock()
			a.Held = i.book.held
			i.book.mu.Unlock()
		case "take":
			i.book.mu.Lock()
			a.Saves = i.book.saves
			i.book.saves = nil
			i.book.mu.Unlock()
		case "stop":
			stopped := make(chan error, 1)
			go func() { stopped <- i.stop() }()
			limit := time.After(time.Duration(q.WaitS) * time.Second)
			select {
			case err := <-stopped:
				if err != nil {
					a.Err = err.Error()
				}
				select {
				case <-i.done:
					a.Returned = true
				case <-limit:
				}
			case <-limit:
			}
			delete(all, q.ID)
			old = map[string]*instance{q.ID: i}
		case "again":
			stopped := make(chan error, 1)
			i := old[q.ID]
			go func() { stopped <- i.stop() }()
			select {
			case err := <-stopped:
				if err != nil {
					a.Err = err.Error()
				}
				a.Returned = true
			case <-time.After(time.Duration(q.WaitS) * time.Second):
			}
		case "stats":
			a.Goroutines = runtime.NumGoroutine()
		case "heap":
			// memory in use once everything unreachable is gone, not counting
			// what the stores noted
			for _, x := range all {
				x.book.mu.Lock()
				x.book.saves = nil
				x.book.mu.Unlock()
			}
			var m runtime.MemStats
			for n := 0; n < 3; n++ {
				runtime.GC()
			}
			runtime.ReadMemStats(&m)
			a.Heap = m.HeapAlloc
		}
		if err := out.Encode(a); err != nil {
			return
		}
	}
}
