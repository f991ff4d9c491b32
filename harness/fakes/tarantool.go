package fakes

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
)

// mp decodes one MessagePack value.
func mp(b []byte) (v any, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, fmt.Errorf("msgpack: no value")
	}
	num := func(n int) (uint64, []byte, error) {
		if len(b) < 1+n {
			return 0, nil, fmt.Errorf("msgpack: cut")
		}
		var x uint64
		for _, c := range b[1 : 1+n] {
			x = x<<8 | uint64(c)
		}
		return x, b[1+n:], nil
	}
	take := func(n uint64, r []byte, bin bool) (any, []byte, error) {
		if uint64(len(r)) < n {
			return nil, nil, fmt.Errorf("msgpack: cut")
		}
		if bin {
			return append([]byte{}, r[:n]...), r[n:], nil
		}
		return string(r[:n]), r[n:], nil
	}
	arr := func(n uint64, r []byte) (any, []byte, error) {
		out := []any{}
		for ; n > 0; n-- {
			x, r2, err := mp(r)
			if err != nil {
				return nil, nil, err
			}
			out, r = append(out, x), r2
		}
		return out, r, nil
	}
	mapp := func(n uint64, r []byte) (any, []byte, error) {
		out := map[uint64]any{}
		for ; n > 0; n-- {
			k, r2, err := mp(r)
			if err != nil {
				return nil, nil, err
			}
			x, r3, err := mp(r2)
			if err != nil {
				return nil, nil, err
			}
			if u, ok := k.(uint64); ok {
				out[u] = x
			}
			r = r3
		}
		return out, r, nil
	}
	c := b[0]
	switch {
	case c < 0x80:
		return uint64(c), b[1:], nil
	case c < 0x90:
		return mapp(uint64(c&15), b[1:])
	case c < 0xa0:
		return arr(uint64(c&15), b[1:])
	case c < 0xc0:
		return take(uint64(c&31), b[1:], false)
	case c >= 0xe0:
		return int64(int8(c)), b[1:], nil
	}
	sizes := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8,
		0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4, 0xca: 4, 0xcb: 8}
	switch c {
	case 0xc0:
		return nil, b[1:], nil
	case 0xc2, 0xc3:
		return c == 0xc3, b[1:], nil
	}
	s, ok := sizes[c]
	if !ok {
		return nil, nil, fmt.Errorf("msgpack: type %#x", c)
	}
	n, r, err := num(s)
	if err != nil {
		return nil, nil, err
	}
	switch c {
	case 0xc4, 0xc5, 0xc6:
		return take(n, r, true)
	case 0xd9, 0xda, 0xdb:
		return take(n, r, false)
	case 0xdc, 0xdd:
		return arr(n, r)
	case 0xde, 0xdf:
		return mapp(n, r)
	case 0xd0:
		return int64(int8(n)), r, nil
	case 0xd1:
		return int64(int16(n)), r, nil
	case 0xd2:
		return int64(int32(n)), r, nil
	case 0xd3:
		return int64(n), r, nil
	}
	return n, r, nil
}

func ttConn(c net.Conn, st *State) error {
	salt := make([]byte, 32)
	copy(salt, "tarantool-salt-of-the-stand-in")
	greet := fmt.Sprintf("%-63s\n", "Tarantool 1.10.1 (Binary) 00000000-0000-0000-0000-000000000000")
	greet += fmt.Sprintf("%-63s\n", base64.StdEncoding.EncodeToString(salt))
	if _, err := io.WriteString(c, greet); err != nil {
		return err
	}
	r := bufio.NewReaderSize(c, 1<<16)
	authed, user := !st.Auth, "guest"
	id := 0
	for {
		one, err := r.ReadByte()
		if err != nil {
			return io.EOF
		}
		var n uint64
		if one < 0x80 {
			n = uint64(one)
		} else {
			k := map[byte]int{0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8}[one]
			if k == 0 {
				return fmt.Errorf("bad request length")
			}
			b := make([]byte, k)
			if _, err := io.ReadFull(r, b); err != nil {
				return io.EOF
			}
			for _, x := range b {
				n = n<<8 | uint64(x)
			}
		}
		if n > 1<<28 {
			return fmt.Errorf("request of %d bytes", n)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return io.EOF
		}
		hv, rest, err := mp(b)
		if err != nil {
			return err
		}
		h, _ := hv.(map[uint64]any)
		body := map[uint64]any{}
		if len(rest) > 0 {
			bv, _, err := mp(rest)
			if err != nil {
				return err
			}
			body, _ = bv.(map[uint64]any)
		}
		code, _ := h[0].(uint64)
		sync, _ := h[1].(uint64)
		reply := func(status uint32, body []byte) error {
			p := []byte{0x83, 0x00, 0xce}
			p = binary.BigEndian.AppendUint32(p, status)
			p = append(p, 0x01, 0xcf)
			p = binary.BigEndian.AppendUint64(p, sync)
			p = append(p, 0x05, 0xce, 0, 0, 0, 1)
			p = append(p, body...)
			out := append([]byte{0xce}, binary.BigEndian.AppendUint32(nil, uint32(len(p)))...)
			_, err := c.Write(append(out, p...))
			return err
		}
		fail := func(code uint32, text string) error {
			p := []byte{0x81, 0x31, 0xd9, byte(len(text))}
			return reply(0x8000|code, append(p, text...))
		}
		ok := func(data []byte) error { return reply(0, append([]byte{0x81, 0x30}, data...)) }
		switch {
		case code == 7:
			u, _ := body[0x23].(string)
			t, _ := body[0x21].([]any)
			var sc []byte
			if len(t) == 2 {
				switch x := t[1].(type) {
				case string:
					sc = []byte(x)
				case []byte:
					sc = x
				}
			}
			if !st.Auth || u != st.User || !bytes.Equal(sc, ttScramble(salt, st.Pass)) {
				st.badLogin("login as %q (configured %q, authentication %v) or with a wrong password", u, st.User, st.Auth)
				err = fail(47, "Incorrect password supplied for user")
				break
			}
			authed, user = true, u
			st.login()
			err = reply(0, []byte{0x80})
		case code == 64:
			err = reply(0, []byte{0x80})
		case code == 1:
			err = ok([]byte{0x90})
		case (code == 6 || code == 10) && !authed:
			st.badLogin("call without login")
			err = fail(42, "Execute access is denied for user 'guest'")
		case code == 6 || code == 10:
			fn, _ := body[0x22].(string)
			name := strings.TrimSuffix(strings.TrimPrefix(fn, "queue.tube."), ":put")
			args, _ := body[0x21].([]any)
			if fn != "queue.tube."+name+":put" || len(args) != 1 {
				st.problem("tarantool: unexpected call of %.100q with %d arguments", fn, len(args))
				err = fail(33, "Procedure is not defined")
				break
			}
			d := Delivery{Dest: name, User: user}
			switch x := args[0].(type) {
			case string:
				d.Payload = []byte(x)
			case []byte:
				d.Payload = x
			default:
				st.problem("tarantool: payload is %T", x)
			}
			switch st.attempt(d) {
			case Accept:
				id++
				// one task: [id, "r", data]
				p := []byte{0x91, 0x93, byte(id & 0x7f), 0xa1, 'r', 0xc6}
				p = binary.BigEndian.AppendUint32(p, uint32(len(d.Payload)))
				err = ok(append(p, d.Payload...))
			case Refuse:
				err = fail(32, "queue is full")
			default:
				return errBye
			}
		default:
			st.problem("tarantool: unexpected request %d", code)
			err = fail(48, "Unknown request type")
		}
		if err != nil {
			return err
		}
	}
}

func ttScramble(salt []byte, pass string) []byte {
	s1 := sha1.Sum([]byte(pass))
	s2 := sha1.Sum(s1[:])
	s3 := sha1.Sum(append(append([]byte(nil), salt[:20]...), s2[:]...))
	for i := range s3 {
		s3[i] ^= s1[i]
	}
	return s3[:]
}
