package fakes

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
)

func redisConn(c net.Conn, st *State) error {
	r := bufio.NewReader(c)
	authed, db := !st.Auth, "0"
	for {
		args, err := respCommand(r)
		if err != nil {
			return err
		}
		var out string
		switch cmd := strings.ToUpper(string(args[0])); {
		case cmd == "HELLO":
			out = "-ERR unknown command 'hello'\r\n"
		case cmd == "AUTH":
			user, pass := "default", string(args[len(args)-1])
			if len(args) == 3 {
				user = string(args[1])
			}
			switch {
			case !st.Auth:
				st.badLogin("AUTH sent to a server without a password")
				out = "-ERR AUTH <password> called without any password configured for the default user. Are you sure your configuration is correct?\r\n"
			case pass == st.Pass && user == "default":
				authed = true
				out = "+OK\r\n"
			default:
				st.badLogin("AUTH with user %q and password %q instead of %q", user, pass, st.Pass)
				out = "-WRONGPASS invalid username-password pair or user is disabled.\r\n"
			}
		case cmd == "QUIT":
			io.WriteString(c, "+OK\r\n")
			return errBye
		case !authed:
			out = "-NOAUTH Authentication required.\r\n"
		case cmd == "SELECT" && len(args) == 2:
			db = string(args[1])
			out = "+OK\r\n"
		case cmd == "PING":
			out = "+PONG\r\n"
		case cmd == "CLIENT":
			out = "+OK\r\n"
		case cmd == "PUBLISH" && len(args) == 3:
			switch st.attempt(Delivery{Dest: string(args[1]), Payload: args[2], DB: db}) {
			case Accept:
				out = ":1\r\n"
			case Refuse:
				out = "-NOPERM this user has no permissions to access one of the channels used as arguments\r\n"
			default:
				return errBye
			}
		default:
			st.problem("redis: unexpected command %.100q", args)
			out = fmt.Sprintf("-ERR unknown command '%s'\r\n", cmd)
		}
		if _, err := io.WriteString(c, out); err != nil {
			return err
		}
	}
}

func respCommand(r *bufio.Reader) ([][]byte, error) {
	n, err := respLen(r, '*')
	if err != nil {
		return nil, err
	}
	if n < 1 {
		return nil, fmt.Errorf("command of %d parts", n)
	}
	var args [][]byte
	for ; n > 0; n-- {
		l, err := respLen(r, '$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, b[:l])
	}
	return args, nil
}

func respLen(r *bufio.Reader, mark byte) (int, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return 0, io.EOF
	}
	if l[0] != mark {
		return 0, fmt.Errorf("expected %c, got %.60q", mark, l)
	}
	return strconv.Atoi(strings.TrimSpace(l[1:]))
}
