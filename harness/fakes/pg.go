package fakes

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
)

type pgWriter struct{ b []byte }

func (w *pgWriter) msg(t byte, parts ...any) {
	var p []byte
	for _, x := range parts {
		switch v := x.(type) {
		case byte:
			p = append(p, v)
		case uint16:
			p = binary.BigEndian.AppendUint16(p, v)
		case uint32:
			p = binary.BigEndian.AppendUint32(p, v)
		case string:
			p = append(append(p, v...), 0)
		case []byte:
			p = append(p, v...)
		}
	}
	w.b = append(w.b, t)
	w.b = binary.BigEndian.AppendUint32(w.b, uint32(len(p)+4))
	w.b = append(w.b, p...)
}

func (w *pgWriter) fail(code, text string) {
	w.msg('E', byte('S'), "ERROR", byte('C'), code, byte('M'), text, byte(0))
}

func cstr(b []byte) (string, []byte, bool) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return "", nil, false
	}
	return string(b[:i]), b[i+1:], true
}

func pgConn(c net.Conn, st *State) error {
	r := bufio.NewReaderSize(c, 1<<16)
	var start []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return io.EOF
		}
		n := binary.BigEndian.Uint32(h[:])
		if n < 8 || n > 1<<20 {
			return fmt.Errorf("start-up message of %d bytes", n)
		}
		start = make([]byte, n-4)
		if _, err := io.ReadFull(r, start); err != nil {
			return io.EOF
		}
		switch binary.BigEndian.Uint32(start) {
		case 80877103: // SSLRequest
			if _, err := c.Write([]byte{'N'}); err != nil {
				return err
			}
			continue
		case 80877102: // CancelRequest
			return errBye
		case 196608:
		default:
			return fmt.Errorf("unknown protocol")
		}
		break
	}
	par := map[string]string{}
	for rest := start[4:]; ; {
		k, r1, ok := cstr(rest)
		if !ok || k == "" {
			break
		}
		v, r2, ok := cstr(r1)
		if !ok {
			return fmt.Errorf("bad start-up message")
		}
		par[k] = v
		rest = r2
	}
	msg := func() (byte, []byte, error) {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return 0, nil, io.EOF
		}
		n := binary.BigEndian.Uint32(h[1:])
		if n < 4 || n > 1<<28 {
			return 0, nil, fmt.Errorf("message of %d bytes", n)
		}
		b := make([]byte, n-4)
		if _, err := io.ReadFull(r, b); err != nil {
			return 0, nil, io.EOF
		}
		return h[0], b, nil
	}
	w := &pgWriter{}
	flush := func() error {
		_, err := c.Write(w.b)
		w.b = w.b[:0]
		return err
	}
	refuse := func(code, text string) error {
		w.fail(code, text)
		flush()
		return errBye
	}
	user, db := par["user"], par["database"]
	if st.Method > 0 {
		want := st.Pass
		if st.Method == 1 {
			w.msg('R', uint32(3))
		} else {
			w.msg('R', uint32(5), []byte("salt"))
			inner := fmt.Sprintf("%x", md5.Sum([]byte(st.Pass+st.User)))
			want = "md5" + fmt.Sprintf("%x", md5.Sum([]byte(inner+"salt")))
		}
		if err := flush(); err != nil {
			return err
		}
		t, b, err := msg()
		if err != nil {
			return err
		}
		got, _, _ := cstr(b)
		if t != 'p' || got != want {
			st.badLogin("login as %q with a password other than the configured one", user)
			return refuse("28P01", "password authentication failed")
		}
	}
	if user != st.User {
		st.badLogin("login as %q instead of %q", user, st.User)
		return refuse("28000", "role does not exist")
	}
	if db != st.DB {
		st.badLogin("database %q instead of %q", db, st.DB)
		return refuse("3D000", "database does not exist")
	}
	st.login()
	w.msg('R', uint32(0))
	w.msg('S', "server_version", "14.5")
	w.msg('S', "TimeZone", "UTC")
	w.msg('K', uint32(1), uint32(2))
	w.msg('Z', byte('I'))
	if err := flush(); err != nil {
		return err
	}
	var tx txn
	ready := func() {
		s := byte('I')
		if tx.open {
			s = 'T'
			if tx.failed {
				s = 'E'
			}
		}
		w.msg('Z', s)
	}
	stmts := map[string]string{}
	type portal struct {
		table string
		d     Delivery
	}
	portals := map[string]portal{}
	skip := false
	was := 0
	defer func() { st.thing(-was) }()
	for {
		st.thing(len(stmts) - was)
		was = len(stmts)
		t, b, err := msg()
		if err != nil {
			return err
		}
		if skip && t != 'S' && t != 'X' {
			continue
		}
		bad := func(code, text string) {
			w.fail(code, text)
			skip = true
		}
		switch t {
		case 'X':
			return errBye
		case 'S':
			skip = false
			ready()
			if err := flush(); err != nil {
				return err
			}
		case 'H':
			if err := flush(); err != nil {
				return err
			}
		case 'Q':
			q, _, _ := cstr(b)
			lq := strings.ToLower(strings.TrimSpace(q))
			if tag, known := tx.simple(q, st); known {
				if tx.lose && !tx.open {
					return errBye
				}
				if tag == "" {
					w.msg('I')
				} else {
					w.msg('C', tag)
				}
			} else if strings.HasPrefix(lq, "select ") && !strings.Contains(lq, " from ") {
				w.msg('T', uint16(1), "?column?", uint32(0), uint16(0), uint32(25), uint16(0xffff), uint32(0xffffffff), uint16(0))
				w.msg('D', uint16(1), uint32(1), []byte("1"))
				w.msg('C', "SELECT 1")
			} else {
				st.problem("postgresql: unexpected statement %.200q", q)
				w.fail("42601", "syntax error")
			}
			ready()
			if err := flush(); err != nil {
				return err
			}
		case 'P':
			name, rest, ok1 := cstr(b)
			q, _, ok2 := cstr(rest)
			if !ok1 || !ok2 {
				return fmt.Errorf("bad Parse")
			}
			table, ok := insertTable(q)
			if !ok {
				st.problem("postgresql: unexpected statement %.200q", q)
				bad("42601", "syntax error")
				break
			}
			stmts[name] = table
			w.msg('1')
		case 'D':
			if len(b) < 2 {
				return fmt.Errorf("bad Describe")
			}
			if b[0] == 'S' {
				w.msg('t', uint16(1), uint32(3802))
			}
			w.msg('n')
		case 'B':
			pname, rest, ok := cstr(b)
			if !ok {
				return fmt.Errorf("bad Bind")
			}
			name, rest, ok := cstr(rest)
			if !ok || len(rest) < 2 {
				return fmt.Errorf("bad Bind")
			}
			table, known := stmts[name]
			if !known {
				bad("26000", "prepared statement does not exist")
				break
			}
			nf := int(binary.BigEndian.Uint16(rest))
			rest = rest[2:]
			if len(rest) < 2*nf+2 {
				return fmt.Errorf("bad Bind")
			}
			rest = rest[2*nf:]
			if np := binary.BigEndian.Uint16(rest); np != 1 {
				bad("08P01", "bind message supplies a wrong number of parameters")
				break
			}
			rest = rest[2:]
			d := Delivery{Dest: table, DB: db, User: user}
			n := int32(binary.BigEndian.Uint32(rest))
			rest = rest[4:]
			if n < 0 {
				d.Null = true
			} else if int(n) > len(rest) {
				return fmt.Errorf("bad Bind")
			} else {
				d.Payload = append([]byte{}, rest[:n]...)
			}
			portals[pname] = portal{table, d}
			w.msg('2')
		case 'E':
			pname, _, _ := cstr(b)
			p, known := portals[pname]
			if !known {
				bad("34000", "portal does not exist")
				break
			}
			switch tx.insert(st, p.d) {
			case Accept:
				w.msg('C', "INSERT 0 1")
			case Refuse:
				bad("22P02", "invalid input syntax for type json")
			default:
				return errBye
			}
		case 'C':
			if len(b) > 0 && b[0] == 'S' {
				name, _, _ := cstr(b[1:])
				delete(stmts, name)
			}
			w.msg('3')
		default:
			return fmt.Errorf("unexpected message %q", t)
		}
	}
}
