package fakes

import (
	"regexp"
	"strings"
)

var insertRe = regexp.MustCompile("(?is)^\\s*insert\\s+into\\s+(.+?)\\s*\\(\\s*[`\"]?point[`\"]?\\s*\\)\\s*values\\s*\\(\\s*(\\?|\\$1)(?:\\s*::\\s*jsonb?)?\\s*\\)\\s*;?\\s*$")

// insertTable is the table of an INSERT of one parameter into column point.
func insertTable(q string) (string, bool) {
	m := insertRe.FindStringSubmatch(q)
	if m == nil {
		return "", false
	}
	return strings.NewReplacer("`", "", `"`, "").Replace(m[1]), true
}

// txn stages rows until the transaction ends.
type txn struct {
	open   bool
	failed bool
	lose   bool // no answer to the commit
	staged []Delivery
}

// simple handles a statement without parameters; known tells whether it is one.
func (t *txn) simple(q string, st *State) (tag string, known bool) {
	w := strings.ToUpper(strings.TrimRight(strings.TrimSpace(q), "; \t\n"))
	switch {
	case w == "":
		return "", true
	case w == "BEGIN" || strings.HasPrefix(w, "START TRANSACTION") || strings.HasPrefix(w, "BEGIN "):
		t.open, t.failed, t.lose, t.staged = true, false, false, nil
		return "BEGIN", true
	case w == "COMMIT" || w == "END":
		if !t.failed {
			st.record(t.staged)
		}
		t.open, t.failed, t.staged = false, false, nil
		return "COMMIT", true
	case w == "ROLLBACK":
		t.open, t.failed, t.staged = false, false, nil
		return "ROLLBACK", true
	case strings.HasPrefix(w, "SET "):
		return "SET", true
	}
	return "", false
}

// insert decides one row.
func (t *txn) insert(st *State, d Delivery) int {
	i := st.delay()
	st.mu.Lock()
	a := st.decide(i)
	if a == Lose && t.open {
		t.lose = true
		a = Accept
	}
	if a == Accept && t.failed {
		a = Refuse
	}
	if a == Accept || a == Lose {
		if t.open {
			t.staged = append(t.staged, d)
		} else {
			if !st.Forget {
				st.got = append(st.got, d)
			}
		}
	} else if t.open {
		t.failed = true
	}
	st.mu.Unlock()
	return a
}
