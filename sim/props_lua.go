package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ---------------------------------------------------------------------------
// C18: Lua

var luaDamage = []rune("a1=[]- \n'\"(){},;:.<>~/\\\rend")

func init() {
	register(&Prop{
		ID: "C18", Quick: 120000, Thorough: 2400000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Kind: r.Pick("script", "script", "chunk"), Sched: SchedSpec{Seed: r.U64(), Mean: r.PickInt(20, 100, 400)}}
			n := 1
			if r.P(12) {
				n = 2
			}
			for ; n > 0; n-- {
				t := &Task{Gram: "lua"}
				old := luaChunk(r, 20, nil)
				for i := r.In(1, 2); i > 0; i-- {
					tr := &Try{}
					size := r.PickInt(4, 8, 16, 40)
					if r.N(300) == 0 {
						size = r.In(100, 400)
					}
					text := ""
					if r.P(45) {
						text = luaChunk(r, size, &tr.Doc)
					} else {
						text = luaChunk(r, size, nil)
					}
					if r.P(20) {
						text = luaTokenDoc(r)
					}
					good := text
					if r.P(25) {
						text = badDoc(r, text, old, luaDamage, &tr.Doc)
					}
					old = good
					tr.Input = BStr(text)
					if r.P(10) {
						tr.Faults = gramFaults(r, 1, []string{"crash", "crashpart", "crashafter", "cancel", "stall"}, "lua", text)
					}
					t.Tries = append(t.Tries, tr)
				}
				sc.Tasks = append(sc.Tasks, t)
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			o.Trivial = true
			build := func(int) *Inst {
				in := buildGram("lua", GramOpt{Faults: true})
				g := in.gram.(*grammar.LuaReader)
				quiet(func() {
					in.root = &g.Script
					if sc.Kind == "chunk" {
						in.root = g
					}
					in.basket.PickWith(in.gram.Grammar()...)
				})
				return in
			}
			before := func(i int, in *Inst, s *tok.Scanner) {
				s.Tracker = in.basket
				*in.basket = tok.Basket{}
			}
			return docTasks(sc, o, build, before, func(i int, in *Inst, tr *Try, s *tok.Scanner, res Res) string {
				text := string(tr.Input)
				toks, nodes, want, open := refLua(text, sc.Kind != "chunk")
				if open {
					o.probe("left open", true)
					return ""
				}
				if len(toks) > 3 {
					o.Trivial = false
				}
				got := res.ok() && res.Pos == len(text)
				o.probe("Lua chunk", want)
				o.probe("damaged chunk refused", !want && len(tr.Doc) > 0)
				o.probe("damaged chunk still valid", want && len(tr.Doc) > 0)
				switch {
				case res.End != "":
					return "ended in a " + res.End
				case got && !want:
					return "read to the end, but it is no Lua chunk"
				case !got && want:
					return fmt.Sprintf("not read to the end (%s), but it is a Lua chunk", res)
				case !res.ok() && res.Pos != 0:
					return fmt.Sprintf("the failed read left the Scanner at %d", res.Pos)
				}
				if !want {
					return ""
				}
				picks, bad := luaTrim(toks, basketSegs(in.basket))
				if bad != "" {
					return bad
				}
				exp := luaSpans(toks, nodes)
				if a, b := strings.Join(picks, " "), strings.Join(exp, " "); a != b {
					return "the parts are " + listDiff(picks, exp)
				}
				return ""
			})
		},
		Rule: "A case is one or two tasks, each with a Lua grammar and a Basket for all of its rules under statement level preemption; each reads up to two chunks one after the other, built from the syntax of the manual with blanks and comments at any place, some with lost, doubled, swapped or replaced tokens, torn, overwritten in part, zeroed, concatenated or bit flipped, some of the attempts crash or are cancelled inside. " +
			"For every attempt that was not disturbed itself the verdict (read to the end or not) has to be that of a reference parser, and the picked parts have to be those of the reference parser. Non-trivial: more than three tokens; distinct by hash of documents, faults, schedule and results.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)", "storage of the documents (simulated, with torn, stale, lost and corrupted writes)"}, stubUser...),
	})
}

// listDiff tells what is only in one of two sorted lists.
func listDiff(got, want []string) string {
	var l []string
	i, j := 0, 0
	for i < len(got) || j < len(want) {
		switch {
		case j == len(want) || i < len(got) && got[i] < want[j]:
			l = append(l, got[i]+" picked but not there")
			i++
		case i == len(got) || want[j] < got[i]:
			l = append(l, want[j]+" not picked")
			j++
		default:
			i++
			j++
		}
	}
	if len(l) > 4 {
		l = append(l[:4], "...")
	}
	return strings.Join(l, ", ")
}
