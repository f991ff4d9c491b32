package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/mysql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/nats"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/postgresql"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/rabbitmq"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/redis"
	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage/store/tarantool_queue"
	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

var (
	fakeMu  sync.Mutex
	fakeSet = map[string]*fakes.Server{}
)

// fake is this process's stand-in of a kind.
func fake(kind string) (*fakes.Server, error) {
	fakeMu.Lock()
	defer fakeMu.Unlock()
	if s := fakeSet[kind]; s != nil {
		return s, nil
	}
	s, err := fakes.Listen(kind)
	if err != nil {
		return nil, pbt.Inconclusivef("cannot listen: %v", err)
	}
	fakeSet[kind] = s
	return s, nil
}

func newStore(kind string) storage.Store {
	switch kind {
	case "mysql":
		return &mysql.Connector{}
	case "nats":
		return &nats.Connector{}
	case "postgresql":
		return &postgresql.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	case "redis":
		return &redis.Connector{}
	case "tarantool_queue":
		return &tarantool_queue.Connector{}
	}
	panic(kind)
}

// backend is a generated configuration of one store.
type backend struct {
	Kind string
	// Params as in the configuration file; the address is filled in at run
	// time ("%h" host, "%p" port).
	Params map[string]string
	Dest   string
	Key    string `json:",omitempty"`
	DB     string `json:",omitempty"`
	Want   fakes.Want
}

// params is the configuration with the stand-in's address.
func (b backend) params(s *fakes.State) map[string]string {
	out := map[string]string{}
	for k, v := range b.Params {
		switch k {
		case "host", "port", "server", "servers", "uri":
			if k == "uri" {
				// only the address at the end: credentials may contain anything
				if i := strings.LastIndex(v, "%h:%p"); i >= 0 {
					v = v[:i] + s.Addr() + v[i+5:]
				}
			} else {
				v = strings.NewReplacer("%h", s.Host, "%p", s.Port).Replace(v)
			}
		}
		out[k] = v
	}
	return out
}

// word draws a credential or name: plain, empty or with special characters.
func word(t *rapid.T, label, without string) string {
	var s string
	switch rapid.IntRange(0, 5).Draw(t, label+"kind") {
	case 0:
		s = ""
	case 1, 2:
		s = rapid.StringMatching(`[A-Za-z0-9_.-]{1,12}`).Draw(t, label)
	case 3, 4:
		s = string(rapid.SliceOfN(rapid.SampledFrom([]rune(`ab1 '"\/@:?#%&=+;,.~!$()[]{}<>|*^`+"`_-")), 1, 12).Draw(t, label))
	default:
		s = string(rapid.SliceOfN(rapid.SampledFrom([]rune("пароль密码éñ aZ0'\\@:/%")), 1, 12).Draw(t, label))
	}
	return strings.Map(func(r rune) rune {
		if strings.ContainsRune(without, r) {
			return -1
		}
		return r
	}, s)
}

func ident(t *rapid.T, label string) string {
	return rapid.StringMatching(`[a-z_][a-z0-9_]{0,15}`).Draw(t, label)
}

func genBackend(t *rapid.T, kind string) backend {
	b := backend{Kind: kind, Params: map[string]string{}}
	set := func(k, v string, optional bool) {
		// an empty value may also be left out
		if v == "" && optional && gen.Bit(t, "omit"+k) == 1 {
			return
		}
		b.Params[k] = v
	}
	switch kind {
	case "postgresql":
		b.Params["host"], b.Params["port"], b.Params["sslmode"] = "%h", "%p", "disable"
		b.Want.User = word(t, "user", "")
		if b.Want.User == "" {
			b.Want.User = "postgres"
		}
		b.Want.Pass = word(t, "pass", "")
		b.DB = word(t, "db", "")
		if b.DB == "" {
			b.DB = "receiver"
		}
		b.Params["user"] = b.Want.User
		b.Params["database"] = b.DB
		set("password", b.Want.Pass, true)
		b.Dest = ident(t, "table")
		if gen.Bit(t, "schema") == 1 {
			b.Dest = ident(t, "schemaname") + "." + b.Dest
		}
		b.Params["table"] = b.Dest
		b.Want.DB = b.DB
		b.Want.Method = rapid.IntRange(0, 2).Draw(t, "method")
	case "mysql":
		b.Want.User = word(t, "user", ":")
		b.Want.Pass = word(t, "pass", "")
		b.DB = ident(t, "db")
		b.Want.DB = b.DB
		cred := b.Want.User
		if b.Want.Pass != "" || gen.Bit(t, "colon") == 1 {
			cred += ":" + b.Want.Pass
		}
		b.Params["uri"] = cred + "@tcp(%h:%p)/" + b.DB
		if gen.Chance(t, 4, "query") {
			b.Params["uri"] += rapid.SampledFrom([]string{"?charset=utf8mb4", "?timeout=60s", "?maxAllowedPacket=0"}).Draw(t, "dsnparam")
		}
		b.Dest = ident(t, "table")
		if gen.Bit(t, "schema") == 1 {
			b.Dest = ident(t, "schemaname") + "." + b.Dest
		}
		b.Params["table"] = b.Dest
	case "redis":
		b.Params["server"] = "%h:%p"
		b.Want.Pass = word(t, "pass", "")
		b.Want.Auth = b.Want.Pass != ""
		set("password", b.Want.Pass, true)
		n := rapid.IntRange(0, 15).Draw(t, "db")
		b.DB = strconv.Itoa(n)
		if n > 0 || gen.Bit(t, "omitdb") == 0 {
			b.Params["db"] = b.DB
		}
		b.Dest = word(t, "queue", "")
		b.Params["queue"] = b.Dest
	case "nats":
		live, dead := "nats://%h:%p", "nats://127.0.0.1:1"
		b.Params["servers"] = rapid.SampledFrom([]string{live, live, "%h:%p", dead + ", " + live, live + "," + dead}).Draw(t, "servers")
		switch rapid.IntRange(0, 3).Draw(t, "cred") {
		case 0:
		case 1: // only half of the credentials: not used
			b.Params[rapid.SampledFrom([]string{"user", "password"}).Draw(t, "half")] = word(t, "halfcred", "")
		default:
			b.Want.Auth = true
			b.Want.User, b.Want.Pass = word(t, "user", ""), word(t, "pass", "")
			if b.Want.User == "" {
				b.Want.User = "u"
			}
			b.Params["user"], b.Params["password"] = b.Want.User, b.Want.Pass
		}
		b.Dest = rapid.StringMatching(`[A-Za-z0-9_-]{1,10}(\.[A-Za-z0-9_-]{1,10}){0,2}`).Draw(t, "topic")
		b.Params["topic"] = b.Dest
		b.Want.MaxPayload = rapid.SampledFrom([]int{0, 0, 1 << 20, 64, 1000}).Draw(t, "maxpayload")
	case "rabbitmq":
		b.Params["host"], b.Params["port"] = "%h", "%p"
		b.Want.User, b.Want.Pass = word(t, "user", ""), word(t, "pass", "")
		set("user", b.Want.User, true)
		set("password", b.Want.Pass, true)
		b.Dest, b.Key = word(t, "exchange", ""), word(t, "key", "")
		if gen.Chance(t, 6, "longname") {
			b.Dest = strings.Repeat("x", rapid.IntRange(13, 255).Draw(t, "exlen"))
		}
		set("exchange", b.Dest, true)
		set("key", b.Key, true)
		if gen.Bit(t, "type") == 1 {
			b.Params["exchange_type"] = "topic"
		}
		b.Want.FrameMax = rapid.SampledFrom([]int{0, 4096, 8192, 65536}).Draw(t, "framemax")
	case "tarantool_queue":
		b.Params["host"], b.Params["port"] = "%h", "%p"
		b.Want.User = word(t, "user", "")
		b.Want.Auth = b.Want.User != ""
		b.Want.Pass = word(t, "pass", "")
		set("user", b.Want.User, true)
		set("password", b.Want.Pass, true)
		b.Dest = rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_-]{0,12}`).Draw(t, "queue")
		b.Params["queue"] = b.Dest
		b.Params["max_recons"] = strconv.Itoa(rapid.IntRange(0, 9).Draw(t, "recons"))
		b.Params["timeout"] = strconv.Itoa(rapid.SampledFrom([]int{0, 60, 600}).Draw(t, "timeout"))
		b.Params["reconnect"] = strconv.Itoa(rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "reconnect"))
	}
	return b
}

// same compares a delivery with what it should be.
func (b backend) same(d fakes.Delivery, payload []byte) string {
	switch {
	case d.Dest != b.Dest:
		return fmt.Sprintf("delivered to %q instead of %q", d.Dest, b.Dest)
	case d.Key != b.Key:
		return fmt.Sprintf("delivered with key %q instead of %q", d.Key, b.Key)
	case b.Kind == "redis" && d.DB != b.DB, (b.Kind == "mysql" || b.Kind == "postgresql") && d.DB != b.DB:
		return fmt.Sprintf("delivered to database %q instead of %q", d.DB, b.DB)
	case d.Null:
		return "a NULL was stored"
	case string(d.Payload) != string(payload):
		return fmt.Sprintf("payload changed: delivered %s, saved %s", clip(d.Payload), clip(payload))
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%q... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// acked: the backend's protocol confirms each message.
func acked(kind string) bool { return kind != "nats" && kind != "rabbitmq" }
