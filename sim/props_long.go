package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok/grammar"
)

// Lua long strings and comments, whose ends have to be of the level of their
// begins.

func genLong(r *Rng) *Scenario {
	t := &Task{Gram: r.Pick("luastring", "luacomment")}
	old := ""
	for i := r.In(1, 4); i > 0; i-- {
		eq := strings.Repeat("=", r.N(4))
		b := ""
		for j := r.N(8); j > 0; j-- {
			b += r.Pick("a", "]", "]=", "]==", "=", "[", "]=]", "\n", "é", "]"+eq, "--", "]"+eq+"x")
		}
		text := "[" + eq + "[" + b + "]" + eq + "]"
		if t.Gram == "luacomment" {
			text = "--" + text
		}
		good := text
		tr := &Try{}
		if r.P(40) {
			text = badDoc(r, text, old, []rune("[]=-\n"), &tr.Doc)
		}
		old = good
		if r.P(50) {
			text += r.Pick("\n", "x", "]]", " ]=]", "\n--\n")
		}
		tr.Input = BStr(text)
		t.Tries = append(t.Tries, tr)
	}
	return &Scenario{Kind: "long", Tasks: []*Task{t}}
}

// refLong returns where a long literal at the begin of t ends, -1 if it has no
// end, -2 if there is none.
func refLong(t string) int {
	if !strings.HasPrefix(t, "[") {
		return -2
	}
	n := 1
	for n < len(t) && t[n] == '=' {
		n++
	}
	if n >= len(t) || t[n] != '[' {
		return -2
	}
	i := strings.Index(t[n+1:], "]"+t[1:n]+"]")
	if i < 0 {
		return -1
	}
	return n + 1 + i + n + 1
}

func runLong(sc *Scenario) *Outcome {
	o := newOutcome()
	o.Trivial = true
	t := sc.Tasks[0]
	o.addTask(t)
	in := &Inst{}
	quiet(func() {
		in.root = grammar.LuaString()
		if t.Gram == "luacomment" {
			in.root = grammar.LuaComment()
		}
	})
	for i, tr := range t.Tries {
		text := string(tr.Input)
		e := newEnv(gramBudget)
		for _, d := range tr.Doc {
			e.hit(d)
		}
		s := newScanner(text, 0)
		res := e.soloRead(in, s, tr, true)
		o.addEnv(e)
		o.Hash.Str(res.String())
		want := -2
		if t.Gram == "luastring" {
			want = refLong(text)
		} else if strings.HasPrefix(text, "--") {
			want = refLong(text[2:])
			if want >= 0 {
				want += 2
			} else if want == -2 {
				want = strings.IndexAny(text, "\r\n")
				if want < 0 {
					want = len(text)
				}
			}
		}
		if want == -2 {
			continue
		}
		o.Trivial = false
		o.probe("long literal without an end", want == -1)
		if res.End != "" || res.ok() != (want >= 0) || res.ok() && res.Pos != want {
			return o.fail("history", fmt.Sprintf("attempt %d of a %s on %q: %s, the literal ends at %d", i+1, t.Gram, text, res, want))
		}
	}
	return o
}
