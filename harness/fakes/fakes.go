// Package fakes holds protocol-level stand-ins for the storage backends:
// loopback servers that speak just enough of each wire protocol, check the
// credentials, and record every message or row they accept.
package fakes

import (
	"fmt"
	"io"
	"net"
	"strconv"
	"sync"
	"time"
)

// What the server does with one store attempt.
const (
	Accept = iota
	Refuse // answers with an error
	Drop   // closes the connection without storing
	Lose   // stores, then closes the connection without an answer
)

// Want is what a server expects and how it behaves in one case.
type Want struct {
	Auth       bool // demand User/Pass
	User, Pass string
	DB         string // database that exists (SQL servers)
	Method     int    // PostgreSQL: 0 trust, 1 clear text, 2 md5
	MaxPayload int    // NATS
	FrameMax   int    // AMQP
	Plan       []int  // per store attempt; accepts when exhausted
	DelayMs    int    // how long a store attempt takes
	Delays     []int  `json:",omitempty"` // per store attempt, in addition
	Cycle      bool   `json:",omitempty"` // the plan starts over when exhausted
	Forget     bool   `json:",omitempty"` // what is accepted is not kept
}

// Delivery is one accepted message or row.
type Delivery struct {
	Dest, Key string
	Payload   []byte
	Null      bool
	DB, User  string
}

// State is one case's history at a server.
type State struct {
	Want
	Host, Port string
	s          *Server
	mu         sync.Mutex
	got        []Delivery
	problems   []string
	attempts   int // decided
	begun      int // store attempts
	logins     int
	refused    int // connections refused
	conns      map[net.Conn]bool
	signals    int
	down       bool
	things     int // channels and prepared statements open at present
}

// Server is a listening stand-in.
type Server struct {
	Kind   string
	Port   string
	ln     net.Listener
	mu     sync.Mutex
	seq    int
	states map[string]*State // by loopback address
	handle func(net.Conn, *State) error
}

// Addr is host:port.
func (s *State) Addr() string { return net.JoinHostPort(s.Host, s.Port) }

var handlers = map[string]func(net.Conn, *State) error{
	"redis": redisConn, "nats": natsConn, "mysql": mysqlConn, "postgresql": pgConn, "rabbitmq": amqpConn, "tarantool_queue": ttConn,
}

// Kinds are the supported backends.
var Kinds = []string{"mysql", "nats", "postgresql", "rabbitmq", "redis", "tarantool_queue"}

// Listen starts a stand-in of this kind.
func Listen(kind string) (*Server, error) {
	ln, err := net.Listen("tcp4", ":0")
	if err != nil {
		return nil, err
	}
	a := ln.Addr().(*net.TCPAddr)
	s := &Server{Kind: kind, Port: strconv.Itoa(a.Port), ln: ln, states: map[string]*State{}, handle: handlers[kind]}
	go s.accept()
	return s, nil
}

// Begin starts a new history at an address of its own, so that clients left
// over from earlier cases cannot disturb it.
func (s *Server) Begin(w Want) *State {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	n := s.seq
	st := &State{Want: w, conns: map[net.Conn]bool{}, s: s, Port: s.Port,
		Host: fmt.Sprintf("127.%d.%d.%d", 1+n/62500%200, n/250%250, 1+n%250)}
	s.states[st.Host] = st
	return st
}

// End retires the history: its connections are closed, new ones refused.
func (s *State) End() {
	s.s.mu.Lock()
	delete(s.s.states, s.Host)
	s.s.mu.Unlock()
	s.Kick()
}

func (s *Server) accept() {
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		st := s.states[c.LocalAddr().(*net.TCPAddr).IP.String()]
		s.mu.Unlock()
		if st == nil {
			c.Close()
			continue
		}
		st.mu.Lock()
		down := st.down
		if !down {
			st.conns[c] = true
		}
		st.mu.Unlock()
		if down {
			c.Close()
			continue
		}
		go func() {
			err := s.handle(c, st)
			if err != nil && err != io.EOF && err != errBye {
				if _, ok := err.(net.Error); !ok {
					st.problem("%s: %v", s.Kind, err)
				}
			}
			c.Close()
			st.mu.Lock()
			delete(st.conns, c)
			st.mu.Unlock()
		}()
	}
}

var errBye = fmt.Errorf("bye")

func (s *State) problem(format string, a ...any) {
	s.mu.Lock()
	s.problems = append(s.problems, fmt.Sprintf(format, a...))
	s.mu.Unlock()
}

func (s *State) login() {
	s.mu.Lock()
	s.logins++
	s.mu.Unlock()
}

// badLogin notes a connection with credentials other than the configured ones.
func (s *State) badLogin(format string, a ...any) {
	s.mu.Lock()
	s.refused++
	s.problems = append(s.problems, fmt.Sprintf(format, a...))
	s.mu.Unlock()
}

func (s *State) signal() {
	s.mu.Lock()
	s.signals++
	s.mu.Unlock()
}

// thing notes that a channel or prepared statement was opened or closed.
func (s *State) thing(n int) {
	s.mu.Lock()
	s.things += n
	s.mu.Unlock()
}

// attempt decides and records one store attempt.
func (s *State) attempt(d Delivery) int {
	i := s.delay()
	s.mu.Lock()
	defer s.mu.Unlock()
	a := s.decide(i)
	if (a == Accept || a == Lose) && !s.Forget {
		s.got = append(s.got, d)
	}
	return a
}

// delay is as slow as this attempt has to be, and returns its number.
func (s *State) delay() int {
	s.mu.Lock()
	ms := s.DelayMs
	n := s.begun
	if n < len(s.Delays) {
		ms += s.Delays[n]
	}
	s.begun++
	s.mu.Unlock()
	time.Sleep(time.Duration(ms) * time.Millisecond)
	return n
}

func (s *State) decide(n int) int {
	a := Accept
	if n < len(s.Plan) {
		a = s.Plan[n]
	} else if s.Cycle && len(s.Plan) > 0 {
		a = s.Plan[n%len(s.Plan)]
	}
	s.attempts++
	return a
}

func (s *State) record(ds []Delivery) {
	s.mu.Lock()
	if !s.Forget {
		s.got = append(s.got, ds...)
	}
	s.mu.Unlock()
}

// Snapshot is what has been seen so far.
type Snapshot struct {
	Got      []Delivery
	Problems []string
	Attempts int
	Begun    int
	Logins   int
	Conns    int
	Signals  int
	Things   int
}

// Snap returns what has been seen so far.
func (s *State) Snap() Snapshot {
	s.mu.Lock()
	defer s.mu.Unlock()
	return Snapshot{append([]Delivery(nil), s.got...), append([]string(nil), s.problems...), s.attempts, s.begun, s.logins, len(s.conns), s.signals, s.things}
}

// Wait waits until f holds of the snapshot.
func (s *State) Wait(limit time.Duration, f func(Snapshot) bool) bool {
	end := time.Now().Add(limit)
	for d := 20 * time.Microsecond; ; d += d / 2 {
		if f(s.Snap()) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if d > 5*time.Millisecond {
			d = 5 * time.Millisecond
		}
		time.Sleep(d)
	}
}

// Kick closes every open connection.
func (s *State) Kick() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

// Down makes the server unreachable: open connections are lost (with a reset
// or an orderly end), new ones are closed at once. It returns when the last
// connection is gone.
func (s *State) Down(reset bool) bool {
	s.mu.Lock()
	s.down = true
	for c := range s.conns {
		if t, ok := c.(*net.TCPConn); ok && reset {
			t.SetLinger(0)
		}
		c.Close()
	}
	s.mu.Unlock()
	return s.Wait(20*time.Second, func(s Snapshot) bool { return s.Conns == 0 })
}

// Up ends the outage.
func (s *State) Up() {
	s.mu.Lock()
	s.down = false
	s.mu.Unlock()
}
