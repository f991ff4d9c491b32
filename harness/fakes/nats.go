package fakes

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
)

func natsConn(c net.Conn, st *State) error {
	max := st.MaxPayload
	if max == 0 {
		max = 8 << 20
	}
	info, _ := json.Marshal(map[string]any{"server_id": "FAKE", "version": "2.9.0", "proto": 1, "go": "go", "host": "127.0.0.1", "port": 4222,
		"headers": true, "max_payload": max, "client_id": 1, "auth_required": st.Auth})
	if _, err := fmt.Fprintf(c, "INFO %s\r\n", info); err != nil {
		return err
	}
	r := bufio.NewReaderSize(c, 1<<16)
	user, ok := "", false
	for {
		l, err := r.ReadString('\n')
		if err != nil {
			return io.EOF
		}
		l = strings.TrimRight(l, "\r\n")
		op, rest, _ := strings.Cut(l, " ")
		switch strings.ToUpper(op) {
		case "CONNECT":
			var o struct {
				User     string `json:"user"`
				Pass     string `json:"pass"`
				Token    string `json:"auth_token"`
				Verbose  bool   `json:"verbose"`
				Pedantic bool   `json:"pedantic"`
			}
			if err := json.Unmarshal([]byte(rest), &o); err != nil {
				return fmt.Errorf("CONNECT: %v", err)
			}
			if st.Auth && (o.User != st.User || o.Pass != st.Pass) {
				st.badLogin("CONNECT as %q with password %q instead of %q/%q", o.User, o.Pass, st.User, st.Pass)
				io.WriteString(c, "-ERR 'Authorization Violation'\r\n")
				return errBye
			}
			user, ok = o.User, true
			st.login()
			if o.Verbose {
				io.WriteString(c, "+OK\r\n")
			}
		case "PING":
			if _, err := io.WriteString(c, "PONG\r\n"); err != nil {
				return err
			}
		case "PONG", "":
		case "PUB":
			f := strings.Fields(rest)
			if !ok || len(f) < 2 || len(f) > 3 {
				return fmt.Errorf("bad PUB %.100q", l)
			}
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil || n < 0 || n > 1<<28 {
				return fmt.Errorf("bad PUB %.100q", l)
			}
			if n > max {
				st.problem("message of %d bytes sent to a server that takes %d", n, max)
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return err
			}
			if b[n] != '\r' || b[n+1] != '\n' {
				return fmt.Errorf("message not ended after %d bytes", n)
			}
			if st.attempt(Delivery{Dest: f[0], Payload: b[:n], User: user}) == Drop {
				return errBye
			}
		default:
			return fmt.Errorf("unexpected %.100q", l)
		}
	}
}
