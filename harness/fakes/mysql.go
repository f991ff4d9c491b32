package fakes

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
)

type myConn struct {
	c   net.Conn
	r   *bufio.Reader
	seq byte
}

func (m *myConn) read() ([]byte, error) {
	var out []byte
	for {
		var h [4]byte
		if _, err := io.ReadFull(m.r, h[:]); err != nil {
			return nil, io.EOF
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		m.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(m.r, b); err != nil {
			return nil, io.EOF
		}
		out = append(out, b...)
		if n < 1<<24-1 {
			return out, nil
		}
	}
}

func (m *myConn) write(ps ...[]byte) error {
	var out []byte
	for _, p := range ps {
		out = append(out, byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), m.seq)
		out = append(out, p...)
		m.seq++
	}
	_, err := m.c.Write(out)
	return err
}

func (m *myConn) ok(rows byte) error { return m.write([]byte{0, rows, 0, 2, 0, 0, 0}) }

func (m *myConn) fail(code uint16, state, text string) error {
	return m.write(append([]byte{0xff, byte(code), byte(code >> 8), '#'}, state+text...))
}

func lenStr(s string) []byte { return append([]byte{byte(len(s))}, s...) }

func colDef(name string, typ byte) []byte {
	var b []byte
	for _, s := range []string{"def", "", "", "", name, ""} {
		b = append(b, lenStr(s)...)
	}
	return append(b, 0x0c, 0x3f, 0, 0, 0, 0, 0, typ, 0, 0, 0, 0, 0)
}

func myToken(salt []byte, pass string) []byte {
	if pass == "" {
		return nil
	}
	s1 := sha1.Sum([]byte(pass))
	s2 := sha1.Sum(s1[:])
	t := sha1.Sum(append(append([]byte(nil), salt...), s2[:]...))
	for i := range t {
		t[i] ^= s1[i]
	}
	return t[:]
}

type myStmt struct {
	q      string
	params int
	long   []byte
	isLong bool
}

func lenEnc(b []byte) (uint64, []byte, bool) {
	if len(b) == 0 {
		return 0, nil, false
	}
	n := 0
	switch b[0] {
	case 0xfc:
		n = 2
	case 0xfd:
		n = 3
	case 0xfe:
		n = 8
	case 0xfb, 0xff:
		return 0, nil, false
	default:
		return uint64(b[0]), b[1:], true
	}
	if len(b) < 1+n {
		return 0, nil, false
	}
	var v [8]byte
	copy(v[:], b[1:1+n])
	return binary.LittleEndian.Uint64(v[:]), b[1+n:], true
}

func mysqlConn(c net.Conn, st *State) error {
	m := &myConn{c: c, r: bufio.NewReaderSize(c, 1<<16)}
	salt := []byte("0123456789abcdefghij")
	hello := append([]byte{10}, "8.0.30-fake\x00"...)
	hello = append(hello, 1, 0, 0, 0)
	hello = append(hello, salt[:8]...)
	const caps = uint32(0x00000001 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x20000 | 0x80000)
	hello = append(hello, 0, byte(caps&0xff), byte(caps>>8&0xff), 45, 2, 0, byte(caps>>16&0xff), byte(caps>>24), 21)
	hello = append(hello, make([]byte, 10)...)
	hello = append(hello, salt[8:]...)
	hello = append(hello, 0)
	hello = append(hello, "mysql_native_password\x00"...)
	if err := m.write(hello); err != nil {
		return err
	}
	b, err := m.read()
	if err != nil {
		return err
	}
	if len(b) < 33 {
		return fmt.Errorf("short handshake response")
	}
	flags := binary.LittleEndian.Uint32(b)
	b = b[32:]
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return fmt.Errorf("bad handshake response")
	}
	user := string(b[:i])
	n, rest, ok := lenEnc(b[i+1:])
	if !ok || n > uint64(len(rest)) {
		return fmt.Errorf("bad handshake response")
	}
	token, rest := rest[:n], rest[n:]
	db := ""
	if flags&8 != 0 {
		if i := bytes.IndexByte(rest, 0); i >= 0 {
			db = string(rest[:i])
		}
	}
	if user != st.User || !bytes.Equal(token, myToken(salt, st.Pass)) {
		st.badLogin("login as %q (configured %q) or with a wrong password", user, st.User)
		m.fail(1045, "28000", "Access denied for user '"+user+"'")
		return errBye
	}
	if db != st.DB {
		st.badLogin("database %q instead of %q", db, st.DB)
		m.fail(1049, "42000", "Unknown database '"+db+"'")
		return errBye
	}
	st.login()
	if err := m.ok(0); err != nil {
		return err
	}
	stmts := map[uint32]*myStmt{}
	var next uint32
	var tx txn
	was := 0
	defer func() { st.thing(-was) }()
	for {
		st.thing(len(stmts) - was)
		was = len(stmts)
		b, err := m.read()
		if err != nil {
			return err
		}
		if len(b) == 0 {
			return fmt.Errorf("empty command")
		}
		stmt := func() *myStmt {
			if len(b) < 5 {
				return nil
			}
			return stmts[binary.LittleEndian.Uint32(b[1:])]
		}
		switch b[0] {
		case 1:
			return errBye
		case 14, 31: // ping, reset connection
			err = m.ok(0)
		case 3:
			q := string(b[1:])
			switch lq := strings.ToLower(strings.TrimSpace(q)); {
			case strings.HasPrefix(lq, "select @@max_allowed_packet"):
				err = m.write([]byte{1}, colDef("@@max_allowed_packet", 0xfd), []byte{0xfe, 0, 0, 2, 0}, lenStr("67108864"), []byte{0xfe, 0, 0, 2, 0})
			case lq == "select 1":
				err = m.write([]byte{1}, colDef("1", 0xfd), []byte{0xfe, 0, 0, 2, 0}, lenStr("1"), []byte{0xfe, 0, 0, 2, 0})
			default:
				if _, known := tx.simple(q, st); known {
					if tx.lose && !tx.open {
						return errBye
					}
					err = m.ok(0)
				} else {
					st.problem("mysql: unexpected statement %.200q", q)
					err = m.fail(1064, "42000", "syntax error")
				}
			}
		case 22:
			q := string(b[1:])
			table, ok := insertTable(q)
			if !ok || table == "" {
				st.problem("mysql: unexpected statement %.200q", q)
				err = m.fail(1064, "42000", "syntax error")
				break
			}
			next++
			stmts[next] = &myStmt{q: table, params: 1}
			p := []byte{0}
			p = binary.LittleEndian.AppendUint32(p, next)
			p = append(p, 0, 0, 1, 0, 0, 0, 0)
			err = m.write(p, colDef("?", 0xfd), []byte{0xfe, 0, 0, 2, 0})
		case 24:
			s := stmt()
			if s == nil || len(b) < 7 {
				return fmt.Errorf("long data for no statement")
			}
			s.isLong = true
			s.long = append(s.long, b[7:]...)
		case 25:
			if len(b) >= 5 {
				delete(stmts, binary.LittleEndian.Uint32(b[1:]))
			}
		case 26:
			if s := stmt(); s != nil {
				s.long, s.isLong = nil, false
			}
			err = m.ok(0)
		case 23:
			s := stmt()
			if s == nil || len(b) < 12 {
				return fmt.Errorf("execution of no statement")
			}
			d := Delivery{Dest: s.q, DB: db, User: user}
			v := b[12:]
			switch {
			case b[10]&1 != 0:
				d.Null = true
			case s.isLong:
				d.Payload = s.long
			case len(v) >= 2:
				n, rest, ok := lenEnc(v[2:])
				if !ok || n != uint64(len(rest)) {
					return fmt.Errorf("bad parameter")
				}
				if v[0] != 0xfe && v[0] != 0xfd && v[0] != 0x0f && (v[0] < 0xf9 || v[0] > 0xfc) {
					st.problem("mysql: parameter of type %#x", v[0])
				}
				d.Payload = append([]byte{}, rest...)
			}
			s.long, s.isLong = nil, false
			switch tx.insert(st, d) {
			case Accept:
				err = m.ok(1)
			case Refuse:
				err = m.fail(3140, "22032", "Invalid JSON text")
			default:
				return errBye
			}
		default:
			return fmt.Errorf("unexpected command %d", b[0])
		}
		if err != nil {
			return err
		}
	}
}
