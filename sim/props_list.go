package main

import (
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C20: listings of a Log and of a Graph

func init() {
	register(&Prop{
		ID: "C20", Quick: 500000, Thorough: 10000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(45) {
				sc := props["C09"].Gen(r, th)
				sc.Kind = "graph"
				if r.P(30) {
					for _, s := range sc.Segs {
						s.Info = r.Pick("a", "b", "a b", "é", "a;1.b", "", "%d", "50%", s.Info)
					}
				}
				// where the listing is asked for
				t := &Task{}
				for i := range sc.Segs {
					if r.P(20) || i == len(sc.Segs)-1 {
						t.Ops = append(t.Ops, &Op{K: "list", N: i})
					}
				}
				sc.Tasks = []*Task{t}
				return sc
			}
			t := &Task{}
			if r.P(25) {
				t.Gram = r.Pick("json", "json", "mxt", "lua")
				for i := r.In(1, 3); i > 0; i-- {
					text := gramDoc(r, t.Gram, 25)
					tr := &Try{Input: BStr(text)}
					if r.P(50) {
						tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "crash", "crashafter"}, t.Gram, text)
					}
					t.Tries = append(t.Tries, tr)
				}
			} else {
				t = genTree(r, GenOpt{Faults: true, Refs: true, Mons: true, Picks: r.P(25), Maps: r.P(25)}, r.In(1, 3), 60, 3, allFaults, false)
			}
			for i := range t.Tries {
				for {
					// N: runes of the preview, M: the attempt whose text is shown
					t.Ops = append(t.Ops, &Op{K: r.Pick("print", "preview", "preview"), N: r.PickInt(0, 1, 2, 5, 10, 1000), M: i, End: r.Pick("", "", "", "", "", "closed", "full")})
					if r.P(70) {
						break
					}
				}
			}
			return &Scenario{Kind: "log", Tasks: []*Task{t}}
		},
		Run: func(sc *Scenario) *Outcome {
			if sc.Kind == "graph" {
				return runGraphList(sc)
			}
			return runLogList(sc)
		},
		Rule: "A case is a sequence of attempts of a random tree with Monitor observers or of a monitored grammar under Reader failures, cancellation and crashes, after which the Log is printed with and without preview to an output that is intact, closed or full; " +
			"or a stream of segments with losses, duplicates, corrupted and reordered ones that is delivered to a Graph and to a Basket whose listings are asked for on the way. " +
			"The lines are compared with an independent recording of the monitored Reads, or with the nodes of the Graph and the segments given to the Basket, and neither Log nor Graph nor Basket may change. " +
			"Non-trivial: at least two lines; distinct by hash of history and listing.",
		Real: realLib, Stub: append([]string{"the standard output (a file in the scratch directory, a closed file or a full device)"}, stubUser...),
	})
}

var listFile, fullFile *os.File

// captured runs f with a standard output of its own.
func captured(fault string, f func()) string {
	var out *os.File
	switch fault {
	case "closed":
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		r.Close()
		w.Close()
		out = w
	case "full":
		if fullFile == nil {
			x, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				return captured("closed", f)
			}
			fullFile = x
		}
		out = fullFile
	default:
		if listFile == nil {
			x, err := os.CreateTemp("", "list")
			if err != nil {
				panic(err)
			}
			os.Remove(x.Name())
			listFile = x
		}
		out = listFile
		if _, err := out.Seek(0, io.SeekStart); err != nil {
			panic(err)
		}
	}
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old }()
	f()
	if fault != "" {
		return ""
	}
	n, err := out.Seek(0, io.SeekCurrent)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	if _, err := out.ReadAt(b, 0); err != nil {
		panic(err)
	}
	return string(b)
}

func runLogList(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	in := t.build(BuildOpt{Rec: true}, GramOpt{Rec: true, Faults: true, Mon: true})
	type line struct {
		level, at int
		name      string
	}
	var lines []line
	most := 0
	for i, tr := range t.Tries {
		text := string(tr.Input)
		at := clampAt(tr.At, text)
		budget := uint64(gramBudget)
		if t.Gram == "" {
			m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
			if !m.Valid {
				return o.skip(m.Invalid)
			}
			budget = m.budget()
		}
		e := newEnv(budget)
		e.trace = newTrace()
		res := e.soloRead(in, newScanner(text, at), tr, true)
		o.addEnv(e)
		if res.End == "budget" {
			return o.skip("budget")
		}
		all := e.trace.calls
		for _, c := range all {
			if c.Kind == "mon-sub" {
				l := line{1, c.Enter, c.Rule}
				for p := c.Parent; p >= 0; p = all[p].Parent {
					if all[p].Kind == "mon-sub" {
						l.level++
					}
				}
				lines = append(lines, l)
			}
		}
		if len(lines) > 20000 {
			return o.skip("long log")
		}
		if len(lines) > most {
			most = len(lines)
		}
		for _, op := range t.Ops {
			if op.M != i {
				continue
			}
			o.Hash.Str(op.K)
			o.Hash.Int(op.N)
			o.Hash.Str(op.End)
			before := ""
			quiet(func() { before = fmt.Sprintf("%#v", in.log.Entries) })
			got := ""
			e := newEnv(1000000 + uint64(len(lines))*uint64(200+20*len(text)))
			if op.End != "" {
				e.hit("output " + op.End)
			}
			end := solo(e, func() {
				got = captured(op.End, func() {
					if op.K == "print" {
						in.log.Print()
					} else {
						in.log.PrintWithPreview(text, op.N)
					}
				})
			})
			o.addEnv(e)
			after := ""
			quiet(func() { after = fmt.Sprintf("%#v", in.log.Entries) })
			what := fmt.Sprintf("%s after attempt %d (%s) on %q from %d", op.K, i+1, res, text, at)
			if end != "" {
				return o.fail("listing", what+" ended in a "+end)
			}
			if before != after {
				return o.fail("listing", what+" changed the Log")
			}
			if op.End != "" {
				continue
			}
			var b strings.Builder
			for _, l := range lines {
				fmt.Fprintf(&b, "%d%s@ %d %s", l.level, strings.Repeat(".", l.level), l.at, l.name)
				if op.K == "preview" {
					rest := ""
					if l.at < len(text) {
						rest = text[l.at:]
					}
					n := 0
					for k := range rest {
						if n == op.N {
							rest = rest[:k]
							break
						}
						n++
					}
					fmt.Fprintf(&b, " > %s", strconv.Quote(rest))
				}
				b.WriteString("\n")
			}
			o.Hash.Str(got)
			if got != b.String() {
				return o.fail("listing", fmt.Sprintf("%s: %s", what, diffLines(got, b.String())))
			}
		}
		if res.End != "" {
			quiet(func() { in.log.Reset() })
			lines = nil
		}
	}
	o.max("lines", most)
	if most < 2 {
		o.Trivial = true
	}
	return o
}

func diffLines(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(w); i++ {
		x, y := "nothing", "nothing"
		if i < len(g) {
			x = strconv.Quote(g[i])
		}
		if i < len(w) {
			y = strconv.Quote(w[i])
		}
		if x != y {
			return fmt.Sprintf("line %d is %s, expected %s", i, x, y)
		}
	}
	return "the lines are equal"
}

func stackLines(b *strings.Builder, path string, i int, n *tok.Node) {
	path += fmt.Sprintf("%d.%s", i, n.Segment.String())
	f, t := tokSpan(n.Segment.Token)
	fmt.Fprintf(b, "%s %d\n", path, t-f)
	for j, c := range n.Nodes {
		stackLines(b, path+";", j+1, c)
	}
}

func runGraphList(sc *Scenario) *Outcome {
	o := newOutcome()
	at := map[int]bool{}
	for _, t := range sc.Tasks {
		for _, op := range t.Ops {
			at[op.N] = true
		}
	}
	at[len(sc.Segs)-1] = true
	bad := ""
	nodes := 0
	e := newEnv(5000000 + 60000*uint64(len(sc.Segs)*len(sc.Segs)))
	end := solo(e, func() {
		g := tok.NewGraph("root")
		basket, picked := &tok.Basket{}, []PickEv{}
		for i, sp := range sc.Segs {
			o.Hash.Str(sp.Info)
			o.Hash.Int(sp.From)
			o.Hash.Int(sp.To)
			if sp.Fault != "" {
				e.hit(sp.Fault)
			}
			if _, ok := g.Append(sp.seg()); ok {
				nodes++
			}
			basket.Add(sp.seg())
			picked = append(picked, PickEv{sp.Info, sp.From, sp.To})
			if !at[i] {
				continue
			}
			text := basket.String()
			quiet(func() {
				want := segString(picked)
				if text != want {
					bad = fmt.Sprintf("the basket with %s is shown as %s", want, text)
				} else if now := segString(basketSegs(basket)); now != want {
					bad = fmt.Sprintf("the basket with %s has %s after it was shown", want, now)
				}
			})
			if bad != "" {
				return
			}
			before := graphText(g)
			got := g.FlameStack()
			after := graphText(g)
			quiet(func() {
				var b strings.Builder
				stackLines(&b, "", 1, g.Root)
				o.Hash.Str(got)
				switch {
				case before != after:
					bad = fmt.Sprintf("the listing changed the graph from %s to %s", before, after)
				case got != b.String():
					bad = fmt.Sprintf("listing of %s: %s", before, diffLines(got, b.String()))
				}
			})
			if bad != "" {
				return
			}
		}
	})
	o.addEnv(e)
	if bad == "" && end != "" {
		bad = "ended in a " + end
	}
	if bad != "" {
		return o.fail("listing", bad)
	}
	o.Trivial = nodes < 2
	return o
}
