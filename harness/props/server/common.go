package main

import (
	"fmt"
	"strings"
	"time"

	"verif/model"
	"verif/pbt"
	"verif/ref"
	"verif/sess"
	"verif/srv"
)

// pool is this process's server host; it is replaced after every failure so
// that a broken server does not spoil the next case.
var pool = &srv.Pool{}

// noLimit is the connection lifetime of servers for which time does not matter.
const noLimit = 10 * time.Minute

// guarded runs a case and drops the servers if it fails.
func guarded[C any](f func(C, *pbt.Rec) error) func(C, *pbt.Rec) error {
	return func(c C, r *pbt.Rec) error {
		err := f(c, r)
		if err != nil {
			pool.Close()
		}
		return err
	}
}

// session generation, shared with the checks of the receiver program.
type (
	ids  = sess.IDs
	sopt = sess.Opt
)

var (
	newIDs     = sess.NewIDs
	genRecord  = sess.Record
	genPacket  = sess.Packet
	genSession = sess.Session
)

func stream(its []model.Item) (b []byte) {
	for _, i := range its {
		b = append(b, i.Bytes()...)
	}
	return b
}

func modelOf(its []model.Item, fails func(int64) bool) *model.Session {
	s := &model.Session{}
	for _, i := range its {
		s.Feed(i, fails)
	}
	return s
}

func write(k *srv.Conn, b []byte) error {
	k.C.SetWriteDeadline(time.Now().Add(srv.Limit))
	_, err := k.C.Write(b)
	return err
}

// outcome is what one session produced.
type outcome struct {
	raw       []byte
	replies   []model.Reply
	badReply  string
	saves     []model.Saved // store 0
	perStore  [][]model.Saved
	rawSaves  []srv.RawSave
	from, til time.Time
	late      bool // gave up waiting for replies
}

// fail is a violation; a matter of waiting only if replies were waited for in
// vain.
func (o outcome) fail(format string, a ...any) error {
	if o.late {
		return pbt.Soft(format, a...)
	}
	return fmt.Errorf(format, a...)
}

// parseSaves sorts the recorded saves by store.
func (o *outcome) parseSaves(s *srv.Server) error {
	raw, err := s.Take()
	if err != nil {
		return err
	}
	o.rawSaves = raw
	o.perStore = make([][]model.Saved, s.Stores)
	for _, x := range raw {
		if x.E != "" {
			return fmt.Errorf("a store received a record that cannot be serialised: %s", x.E)
		}
		v, err := model.Parse(x.B)
		if err != nil {
			return fmt.Errorf("a store received a record that is not JSON: %v: %.300q", err, x.B)
		}
		o.perStore[x.S] = append(o.perStore[x.S], v)
	}
	if s.Stores > 0 {
		o.saves = o.perStore[0]
	}
	return nil
}

// play sends the bytes in one go, ends the stream and collects everything.
func play(s *srv.Server, its []model.Item) (o outcome, err error) {
	return playChunks(s, [][]byte{stream(its)}, len(modelOf(its, nil).Replies), nil)
}

// playChunks sends the chunks in order, calling between after each.
func playChunks(s *srv.Server, chunks [][]byte, expect int, between func(*srv.Conn, int) error) (o outcome, err error) {
	o.from = time.Now()
	k, err := s.Dial()
	if err != nil {
		return o, err
	}
	for i, c := range chunks {
		if err := write(k, c); err != nil {
			if !s.H.Alive() {
				return o, s.H.Died()
			}
			break // the server ended the session; seen in the replies
		}
		if between != nil {
			if err := between(k, i); err != nil {
				k.Close()
				return o, err
			}
		}
	}
	o.raw, o.late = k.Finish(expect)
	o.til = time.Now()
	if !s.H.Alive() {
		return o, s.H.Died()
	}
	o.replies, o.badReply = model.ParseReplies(o.raw)
	return o, o.parseSaves(s)
}

// navs lists the navigation times of saves, for matching.
func navs(s []model.Saved) (n []int64) {
	for _, x := range s {
		n = append(n, x.Nav)
	}
	return
}

func wantNavs(e []model.Expect) (n []int64) {
	for _, x := range e {
		n = append(n, x.Nav)
	}
	return
}

func sameNavs(want []int64, got []int64) string {
	for i := 0; i < len(want) && i < len(got); i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("stored record %d has navigation time %d, expected %d (stored %d records, expected %d)", i+1, got[i], want[i], len(got), len(want))
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("%d records stored instead of %d", len(got), len(want))
	}
	return ""
}

// stripped forgets the receive time.
func stripped(s []model.Saved) string {
	var b strings.Builder
	for _, x := range s {
		x.Received = 0
		fmt.Fprintf(&b, "%+v\n", x)
	}
	return b.String()
}

func classes(r *pbt.Rec, its []model.Item) {
	for _, it := range its {
		switch {
		case it.P == nil:
		case it.P.PT == ref.PtResponse:
			r.Class("client response packet")
		default:
			n := len(it.P.Body())
			r.ClassIf(len(it.P.Records) == 0, "empty packet")
			r.ClassIf(len(it.P.Records) > 1, "several records")
			r.ClassIf(n > 1500, "packet over 1500 bytes")
			r.ClassIf(n > 65000, "packet over 65000 bytes")
			for _, rec := range it.P.Records {
				pos, oid := false, rec.OID != nil
				for _, s := range rec.Subs {
					switch {
					case s.Pos != nil:
						pos = true
						r.ClassIf(s.Pos.LAHS == 1, "south")
						r.ClassIf(s.Pos.LOHS == 1, "west")
					case s.Ext != nil:
						r.Class("extended position")
					case s.Term != nil:
						r.Class("terminal identity")
					case s.Auth != nil:
						r.Class("authorisation")
					case s.Resp != nil:
						r.Class("record response")
					case s.Abs != nil && s.Abs.N == 110:
						r.Class("counter 110")
					case s.Abs != nil && s.Abs.N == 111:
						r.Class("counter 111")
					case s.LLS != nil:
						r.Class("liquid level")
					case s.AD != nil, s.AbsAn != nil:
						r.Class("analog sensors")
					case s.Raw != nil:
						r.Class("unsupported subrecord")
					}
				}
				r.ClassIf(pos, "position")
				r.ClassIf(!pos, "record without position")
				r.ClassIf(oid, "object identifier")
				r.ClassIf(!oid, "no object identifier")
			}
		}
	}
}

func items(ps ...*ref.Packet) (its []model.Item) {
	for _, p := range ps {
		its = append(its, model.Item{P: p})
	}
	return
}
