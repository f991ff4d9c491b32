package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/kuznetsovin/egts-protocol/cli/receiver/config"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
	"verif/fakes"
	"verif/gen"
	"verif/pbt"
)

// kv is one key of a store section.
type kv struct {
	K, V string
	// Style: 0 double-quoted, 1 single-quoted, 2 plain, 3 literal block.
	Style int
}

type section struct {
	Name string
	KVs  []kv
	Flow bool
	Null bool
}

// settings is a generated configuration file.
type settings struct {
	Host, Port, Level kv
	TTL               int
	HasHost, HasPort  bool
	HasTTL, HasLevel  bool
	HasStore          bool
	Stores            []section
	Order             []int // order of the top-level keys
	Extra             bool  // unknown keys and comments
	Start             bool  // document start marker
	CRLF              bool
}

var plainSafe = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.]*$|^[0-9]{1,9}$|^[0-9]{1,3}(\.[0-9]{1,3}){3}$`)
var plainWord = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true}

func printable(s string) bool {
	for _, r := range s {
		if r != '\n' && (r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r >= 0xd800 && r < 0xe000 || r > 0xfffd) {
			return false
		}
	}
	return true
}

func (x kv) emit() string {
	s := x.V
	switch {
	case x.Style == 2 && plainSafe.MatchString(s) && !plainWord[strings.ToLower(s)]:
		return s
	case x.Style == 1 && !strings.Contains(s, "\n") && printable(s):
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case printable(string(r)):
			b.WriteRune(r)
		case r < 0x100:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\U%08x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (s settings) yaml() string {
	parts := make([]string, 5)
	if s.HasHost {
		parts[0] = "host: " + s.Host.emit() + "\n"
	}
	if s.HasPort {
		parts[1] = "port: " + s.Port.emit() + "\n"
	}
	if s.HasTTL {
		parts[2] = "conn_ttl: " + strconv.Itoa(s.TTL) + "\n"
	}
	if s.HasLevel {
		parts[3] = "log_level: " + s.Level.emit() + "\n"
	}
	if s.HasStore {
		var b strings.Builder
		b.WriteString("storage:\n")
		for _, x := range s.Stores {
			b.WriteString("  " + kv{V: x.Name, Style: 2}.emit() + ":")
			switch {
			case x.Null:
				b.WriteString("\n")
			case x.Flow || len(x.KVs) == 0:
				var f []string
				for _, e := range x.KVs {
					f = append(f, kv{V: e.K, Style: 2}.emit()+": "+e.emit())
				}
				b.WriteString(" {" + strings.Join(f, ", ") + "}\n")
			default:
				b.WriteString("\n")
				for _, e := range x.KVs {
					b.WriteString("    " + kv{V: e.K, Style: 2}.emit() + ": " + e.emit() + "\n")
				}
			}
		}
		if len(s.Stores) == 0 {
			b.Reset()
			b.WriteString("storage: {}\n")
		}
		parts[4] = b.String()
	}
	out := ""
	if s.Start {
		out = "---\n"
	}
	for _, i := range s.Order {
		if s.Extra && parts[i] != "" {
			out += "# comment: x\n"
		}
		out += parts[i]
	}
	if s.Extra {
		out += "\nplugin_dir: \"x\" # not a setting\n"
	}
	if s.CRLF {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

func genText(t *rapid.T, l string) kv {
	x := kv{Style: rapid.IntRange(0, 2).Draw(t, l+"style")}
	switch rapid.IntRange(0, 5).Draw(t, l+"kind") {
	case 0:
		x.V = rapid.StringMatching(`[0-9]{1,6}`).Draw(t, l)
	case 1, 2:
		x.V = rapid.StringMatching(`[A-Za-z0-9_.]{0,12}`).Draw(t, l)
	case 3:
		x.V = word(t, l, "")
	case 4:
		x.V = rapid.SampledFrom([]string{"", "true", "no", "null", "~", "1e3", "0x10", "007", "1.50", "127.0.0.1", "localhost", "::1", "- a", "a: b", "#x", "&a", "*a", "!t", "%d", "{}", "[]", "|", ">", "@x", "`x`", " lead", "trail ", "a\nb", "\t"}).Draw(t, l)
	default:
		x.V = rapid.String().Draw(t, l)
	}
	return x
}

func genSettings(t *rapid.T) settings {
	on := func(l string) bool { return !gen.Chance(t, 6, "no"+l) }
	s := settings{HasHost: on("host"), HasPort: on("port"), HasTTL: on("ttl"), HasLevel: on("level"), HasStore: on("store"),
		Host: genText(t, "host"), Port: genText(t, "port"), Level: genText(t, "level"), Extra: gen.Bit(t, "extra") == 1, Start: gen.Chance(t, 4, "start"), CRLF: gen.Chance(t, 6, "crlf")}
	s.TTL = rapid.SampledFrom([]int{0, 1, 5, 10, 60, 3600, 86400, math.MaxInt32}).Draw(t, "ttl")
	if gen.Bit(t, "anyttl") == 1 {
		s.TTL = rapid.IntRange(0, math.MaxInt32).Draw(t, "ttlv")
	}
	if gen.Chance(t, 3, "level") == false {
		s.Level.V = rapid.SampledFrom([]string{"DEBUG", "INFO", "WARN", "ERROR", "debug", "Warn", "WARNING", "TRACE", "FATAL", "PANIC", "error", " ERROR", "ERR", "info"}).Draw(t, "levelname")
	}
	s.Order = rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order")
	used := map[string]bool{}
	for n := rapid.IntRange(0, 4).Draw(t, "nstores"); n > 0; n-- {
		x := section{Flow: gen.Chance(t, 4, "flow"), Null: gen.Chance(t, 12, "null")}
		x.Name = rapid.SampledFrom(fakes.Kinds).Draw(t, "name")
		if gen.Chance(t, 5, "othername") {
			x.Name = rapid.StringMatching(`[a-z_ ]{1,10}`).Draw(t, "anyname")
		}
		if used[x.Name] {
			continue
		}
		used[x.Name] = true
		ks := map[string]bool{}
		for m := rapid.IntRange(0, 5).Draw(t, "nkv"); m > 0; m-- {
			e := genText(t, "value")
			e.K = rapid.SampledFrom([]string{"host", "port", "user", "password", "database", "table", "sslmode", "server", "queue", "db", "uri", "exchange", "key", "topic", "servers", "timeout", "x y", "a:b"}).Draw(t, "key")
			if !ks[e.K] {
				ks[e.K] = true
				x.KVs = append(x.KVs, e)
			}
		}
		if x.Null {
			x.KVs = nil
		}
		s.Stores = append(s.Stores, x)
	}
	return s
}

var dirSeq int

func scratchFile(text string) (string, error) {
	dirSeq++
	p := filepath.Join(os.TempDir(), fmt.Sprintf("cfg-%d-%d.yaml", os.Getpid(), dirSeq))
	return p, os.WriteFile(p, []byte(text), 0o600)
}

func val(on bool, s string) string {
	if on {
		return s
	}
	return ""
}

func runConfig(s settings, r *pbt.Rec) error {
	text := s.yaml()
	p, err := scratchFile(text)
	if err != nil {
		return pbt.Inconclusivef("%v", err)
	}
	defer os.Remove(p)
	c, err := config.New(p)
	if err != nil {
		return fmt.Errorf("valid file refused: %v\n%s", err, text)
	}
	ttl := 0
	if s.HasTTL {
		ttl = s.TTL
	}
	host, port, level := val(s.HasHost, s.Host.V), val(s.HasPort, s.Port.V), val(s.HasLevel, s.Level.V)
	check := func(name string, got, want any) error {
		if got != want {
			return fmt.Errorf("%s is %#v instead of %#v\n%s", name, got, want, text)
		}
		return nil
	}
	wantLevel := logrus.InfoLevel
	switch level {
	case "DEBUG":
		wantLevel = logrus.DebugLevel
	case "WARN":
		wantLevel = logrus.WarnLevel
	case "ERROR":
		wantLevel = logrus.ErrorLevel
	}
	for _, e := range []error{
		check("host", c.Host, host), check("port", c.Port, port), check("lifetime", c.GetEmptyConnTTL(), time.Duration(ttl)*time.Second),
		check("log level setting", c.LogLevel, level), check("log level", c.GetLogLevel(), wantLevel), check("address", c.GetListenAddress(), host+":"+port),
	} {
		if e != nil {
			return e
		}
	}
	want := map[string]map[string]string{}
	if s.HasStore {
		for _, x := range s.Stores {
			m := map[string]string{}
			for _, e := range x.KVs {
				m[e.K] = e.V
			}
			want[x.Name] = m
		}
	}
	got := map[string]map[string]string{}
	for k, v := range c.Store {
		m := map[string]string{}
		for a, b := range v {
			m[a] = b
		}
		got[k] = m
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("stores are %q instead of %q\n%s", got, want, text)
	}
	if len(want) > 0 || s.HasTTL && s.HasHost {
		r.NonTrivial()
	}
	r.ClassIf(!s.HasHost || !s.HasPort || !s.HasTTL || !s.HasLevel || !s.HasStore, "keys left out")
	r.ClassIf(len(want) > 1, "several stores")
	r.ClassIf(s.HasStore && len(want) == 0, "empty storage section")
	r.ClassIf(s.CRLF, "CRLF line ends")
	r.Class("level %s", wantLevel)
	return nil
}

// files that must be refused.
type badFile struct {
	Base settings
	What string
	At   int
}

var badKinds = []string{"missing", "directory", "unclosed", "tab", "ttl-text", "ttl-list", "storage-list", "storage-text", "store-text", "host-map", "bracket", "nul"}

func genBadFile(t *rapid.T) badFile {
	return badFile{genSettings(t), rapid.SampledFrom(badKinds).Draw(t, "what"), rapid.IntRange(0, 99).Draw(t, "at")}
}

func runBadFile(c badFile, r *pbt.Rec) error {
	s := c.Base
	s.CRLF = false
	s.Start = false
	var p string
	text := ""
	switch c.What {
	case "missing":
		p = filepath.Join(os.TempDir(), fmt.Sprintf("no-such-%d", c.At), "x.yaml")
	case "directory":
		p = os.TempDir()
	default:
		add := map[string]string{
			"unclosed": "zzz: \"never closed\n", "tab": "zzz:\n\t- a: b\n", "ttl-text": "conn_ttl: soon\n", "ttl-list": "conn_ttl: [1]\n", "storage-list": "storage: [redis]\n",
			"storage-text": "storage: redis\n", "store-text": "storage:\n  redis: yes please\n", "host-map": "host: {a: b}\n", "bracket": "zzz: [1, 2\n", "nul": "zzz: a\x00b\n",
		}[c.What]
		switch c.What {
		case "ttl-text", "ttl-list":
			s.HasTTL = false
		case "storage-list", "storage-text", "store-text":
			s.HasStore = false
		case "host-map":
			s.HasHost = false
		}
		text = s.yaml()
		if c.At%2 == 0 && c.What != "unclosed" && c.What != "bracket" {
			text = add + text
		} else {
			text += add
		}
		var err error
		if p, err = scratchFile(text); err != nil {
			return pbt.Inconclusivef("%v", err)
		}
		defer os.Remove(p)
	}
	if _, err := config.New(p); err == nil {
		return fmt.Errorf("no error for a file that is bad (%s)\n%s", c.What, text)
	}
	r.NonTrivial()
	r.Class("%s", c.What)
	return nil
}

func c22() pbt.Property {
	return pbt.Property{
		ID: "C22",
		Rule: "configuration files written from generated settings (values plain, single- or double-quoted, special and non-ASCII characters, keys left out, any order, block and flow sections, comments, unknown keys), compared with what is loaded; " +
			"files that are missing, not YAML or of the wrong shape; non-trivial: a store section, or both lifetime and host present, or a refused file; distinct by the case's JSON",
		Subs: []pbt.Sub{
			pbt.Make("load", 80000, 3000000, genSettings, runConfig),
			pbt.Make("refuse", 16000, 500000, genBadFile, runBadFile),
		},
	}
}
