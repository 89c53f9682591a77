package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------------------
// C08: every attempt ends

// docBudget is the number of statements that the attempt of a grammar on a
// text may need. JSON is linear in the length, MXT quadratic per header.
func docBudget(name string, n int) uint64 {
	x := uint64(n + 20)
	if name == "json" {
		return 20000 * x
	}
	return 500 * x * x
}

func init() {
	register(&Prop{
		ID: "C08", Quick: 1400000, Thorough: 28000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(35) {
				name := r.Pick("json", "json", "mxt")
				t := &Task{Gram: name}
				text := ""
				if name == "json" && r.P(35) {
					// deep nesting that is never closed
					for i := r.In(1, 80); i > 0; i-- {
						text += r.Pick("[", "[", `{"a":`, "[1,", `[[],`, ` [ `)
					}
					if r.P(50) {
						text += r.Pick("1", `"`, `"a`, "tru", `"\u12`, "-", "1.")
					}
				} else {
					text = gramDoc(r, name, 0)
					if r.P(40) && len(text) > 0 {
						text = text[:r.N(len(text)+1)]
					}
					if r.P(50) {
						text = damage(r, text, jsonAlpha, r.In(1, 3), nil)
					}
				}
				tr := &Try{Input: BStr(text)}
				if r.P(40) {
					tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "lie"}, name, text)
				}
				t.Tries = []*Try{tr}
				return &Scenario{Kind: "gram", Tasks: []*Task{t}}
			}
			o := GenOpt{Faults: true, Refs: true, Nasty: true}
			t := genTree(r, o, 1, 60, 3, []string{"err", "errpart", "errafter", "cancel", "lie", "lie"}, false)
			return &Scenario{Kind: "tree", Tasks: []*Task{t}}
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			t := sc.Tasks[0]
			o.addTask(t)
			for _, tr := range t.Tries {
				text := string(tr.Input)
				at := clampAt(tr.At, text)
				what := t.Gram
				var budget uint64
				evals := 0
				if t.Gram == "" {
					what = t.Root.String()
					m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
					if !m.Valid {
						return o.skip(m.Invalid)
					}
					budget = m.budget()
					evals = m.Evals
				} else {
					budget = docBudget(t.Gram, len(text))
				}
				in := t.build(BuildOpt{}, GramOpt{Faults: true})
				e := newEnv(budget)
				e.trace = newTrace()
				res := e.soloRead(in, newScanner(text, at), tr, true)
				o.addEnv(e)
				o.Hash.Str(res.String())
				if e.total < 30 {
					o.Trivial = true
				}
				if evals > 100 {
					o.max("budget of trees used, per mille", int(1000*e.total/budget))
				} else if evals == 0 && t.Gram == "json" {
					o.max("json: statements per byte", int(e.total)/(len(text)+20))
				} else if evals == 0 {
					o.max("mxt: statements per squared byte", int(e.total)/(len(text)+20)/(len(text)+20))
				}
				o.max("statements of an attempt", int(e.total))
				ratio := int(budget / (e.total + 1))
				o.probe("budget used more than 1/50", ratio < 50)
				o.probe("budget used more than 1/10", ratio < 10)
				if res.End == "budget" {
					return o.fail("no end", fmt.Sprintf("reading %q from %d with %s was not over after %d statements", text, at, what, budget))
				}
				if strings.HasPrefix(res.End, "panic") {
					return o.fail("no end", fmt.Sprintf("reading %q from %d with %s ended in a %s", text, at, what, res.End))
				}
			}
			return o
		},
		Rule: "A case is a random tree that prefers repetitions of Readers that match nothing, lookaheads and recursion on a damaged text, or a JSON or MXT document that is torn, damaged or nested up to 80 deep without an end, while Readers fail, lie about their success or are cancelled from some point on. " +
			"The attempt has to end within a budget of executed statements that follows from the work of the reference interpreter (trees) or the length of the text (grammars) with a large reserve. Non-trivial: at least 30 statements; distinct by hash of tree, text, faults and result.",
		Real: realLib, Stub: stubUser,
	})
}
