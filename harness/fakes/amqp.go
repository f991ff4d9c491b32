package fakes

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
)

func amqpConn(c net.Conn, st *State) error {
	r := bufio.NewReaderSize(c, 1<<16)
	hdr := make([]byte, 8)
	if _, err := io.ReadFull(r, hdr); err != nil {
		return io.EOF
	}
	if !bytes.Equal(hdr, []byte("AMQP\x00\x00\x09\x01")) {
		return fmt.Errorf("bad protocol header %q", hdr)
	}
	frameMax := st.FrameMax
	if frameMax == 0 {
		frameMax = 131072
	}
	send := func(ch uint16, class, method uint16, args []byte) error {
		b := []byte{1, byte(ch >> 8), byte(ch)}
		b = binary.BigEndian.AppendUint32(b, uint32(4+len(args)))
		b = binary.BigEndian.AppendUint16(b, class)
		b = binary.BigEndian.AppendUint16(b, method)
		b = append(b, args...)
		_, err := c.Write(append(b, 0xCE))
		return err
	}
	long := func(s string) []byte { return append(binary.BigEndian.AppendUint32(nil, uint32(len(s))), s...) }
	start := append([]byte{0, 9}, 0, 0, 0, 0)
	start = append(start, long("PLAIN AMQPLAIN")...)
	start = append(start, long("en_US")...)
	if err := send(0, 10, 10, start); err != nil {
		return err
	}
	short := func(b []byte) (string, []byte, error) {
		if len(b) < 1 || len(b) < 1+int(b[0]) {
			return "", nil, fmt.Errorf("bad short string")
		}
		n := 1 + int(b[0])
		return string(b[1:n]), b[n:], nil
	}
	user := ""
	type pub struct {
		d    Delivery
		size uint64
		head bool
	}
	open := map[uint16]bool{}
	was := 0
	defer func() { st.thing(-was) }()
	closing := map[uint16]bool{}
	pend := map[uint16]*pub{}
	confirm := map[uint16]uint64{} // next delivery tag
	done := func(ch uint16) error {
		p := pend[ch]
		delete(pend, ch)
		if p.d.Payload == nil {
			p.d.Payload = []byte{}
		}
		switch st.attempt(p.d) {
		case Refuse:
			closing[ch] = true
			args := []byte{1, 148} // 404
			t := "NOT_FOUND - no exchange"
			args = append(append(args, byte(len(t))), t...)
			return send(ch, 20, 40, append(args, 0, 60, 0, 40))
		case Drop:
			return errBye
		}
		if tag := confirm[ch]; tag > 0 {
			confirm[ch]++
			return send(ch, 60, 80, append(binary.BigEndian.AppendUint64(nil, tag), 0))
		}
		return nil
	}
	for {
		st.thing(len(open) - was)
		was = len(open)
		var h [7]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return io.EOF
		}
		n := binary.BigEndian.Uint32(h[3:])
		ch := binary.BigEndian.Uint16(h[1:])
		if int(n)+8 > frameMax && h[0] == 3 {
			return fmt.Errorf("frame of %d bytes, at most %d were agreed", n+8, frameMax)
		}
		b := make([]byte, n+1)
		if _, err := io.ReadFull(r, b); err != nil {
			return io.EOF
		}
		if b[n] != 0xCE {
			return fmt.Errorf("frame without end mark")
		}
		b = b[:n]
		switch h[0] {
		case 8:
			continue
		case 2:
			p := pend[ch]
			if closing[ch] {
				continue
			}
			if p == nil || len(b) < 14 {
				return fmt.Errorf("unexpected content header")
			}
			p.size, p.head = binary.BigEndian.Uint64(b[4:]), true
			if p.size == 0 {
				if err := done(ch); err != nil {
					return err
				}
			}
			continue
		case 3:
			p := pend[ch]
			if closing[ch] {
				continue
			}
			if p == nil || !p.head {
				return fmt.Errorf("unexpected content")
			}
			p.d.Payload = append(p.d.Payload, b...)
			if uint64(len(p.d.Payload)) > p.size {
				return fmt.Errorf("more content than announced")
			}
			if uint64(len(p.d.Payload)) == p.size {
				if err := done(ch); err != nil {
					return err
				}
			}
			continue
		case 1:
		default:
			return fmt.Errorf("frame type %d", h[0])
		}
		if len(b) < 4 {
			return fmt.Errorf("short method frame")
		}
		class, method, a := binary.BigEndian.Uint16(b), binary.BigEndian.Uint16(b[2:]), b[4:]
		var err error
		switch {
		case class == 10 && method == 11: // start-ok
			if len(a) < 4 {
				return fmt.Errorf("bad start-ok")
			}
			tl := binary.BigEndian.Uint32(a)
			if uint32(len(a)-4) < tl {
				return fmt.Errorf("bad start-ok")
			}
			a = a[4+tl:]
			var mech string
			if mech, a, err = short(a); err != nil || len(a) < 4 {
				return fmt.Errorf("bad start-ok")
			}
			rl := binary.BigEndian.Uint32(a)
			if uint32(len(a)-4) < rl {
				return fmt.Errorf("bad start-ok")
			}
			resp := string(a[4 : 4+rl])
			want := "\x00" + st.User + "\x00" + st.Pass
			if mech != "PLAIN" || resp != want {
				st.badLogin("login with %s %q instead of %q", mech, resp, want)
				return errBye
			}
			user = st.User
			args := binary.BigEndian.AppendUint16(nil, 2047)
			args = binary.BigEndian.AppendUint32(args, uint32(frameMax))
			err = send(0, 10, 30, append(args, 0, 60))
		case class == 10 && method == 31: // tune-ok
		case class == 10 && method == 40: // open
			vhost, _, e := short(a)
			if e != nil {
				return e
			}
			if vhost != "/" {
				st.problem("rabbitmq: virtual host %q", vhost)
			}
			st.login()
			err = send(0, 10, 41, []byte{0})
		case class == 10 && method == 50: // close
			send(0, 10, 51, nil)
			return errBye
		case class == 10 && method == 51:
			return errBye
		case class == 20 && method == 10: // channel open
			open[ch], closing[ch] = true, false
			err = send(ch, 20, 11, []byte{0, 0, 0, 0})
		case class == 20 && method == 40:
			delete(open, ch)
			err = send(ch, 20, 41, nil)
		case class == 20 && method == 41: // close-ok
			delete(open, ch)
			st.signal()
		case class == 85 && method == 10: // confirm.select
			confirm[ch] = 1
			err = send(ch, 85, 11, nil)
		case class == 60 && method == 40: // publish
			if closing[ch] {
				continue
			}
			if !open[ch] || len(a) < 2 {
				return fmt.Errorf("publish on a channel that is not open")
			}
			var ex, key string
			if ex, a, err = short(a[2:]); err != nil {
				return err
			}
			if key, a, err = short(a); err != nil {
				return err
			}
			pend[ch] = &pub{d: Delivery{Dest: ex, Key: key, User: user}}
		default:
			return fmt.Errorf("unexpected method %d.%d", class, method)
		}
		if err != nil {
			return err
		}
	}
}
