package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C09: Graph

func (s *SegSpec) seg() tok.Segment {
	return tok.Segment{Info: s.Info, Token: tok.MakeToken(tok.Marker(s.From), tok.Marker(s.To))}
}

func tokSpan(t tok.Token) (int, int) {
	return parseSpan(t.String())
}

// parseSpan reads "[from-to)".
func parseSpan(s string) (int, int) {
	if len(s) < 5 || s[0] != '[' || s[len(s)-1] != ')' {
		panic("no span: " + s)
	}
	i := strings.LastIndexByte(s, '-')
	f, err1 := strconv.Atoi(s[1:i])
	e, err2 := strconv.Atoi(s[i+1 : len(s)-1])
	if err1 != nil || err2 != nil {
		panic("no span: " + s)
	}
	return f, e
}

func nodeText(b *strings.Builder, n *tok.Node, d int) {
	if d > 20000 || b.Len() > 1<<23 {
		panic("the graph has no end")
	}
	fmt.Fprintf(b, "%s(", n.Segment.String())
	for _, c := range n.Nodes {
		nodeText(b, c, d+1)
	}
	b.WriteString(")")
}

func graphText(g *tok.Graph) string {
	var b strings.Builder
	quiet(func() { nodeText(&b, g.Root, 0) })
	return b.String()
}

// laminar generates well nested segments below [from,to).
func laminar(r *Rng, from, to, d int, pre string, out *[]*SegSpec, dup bool) {
	if d <= 0 || to-from < 1 {
		return
	}
	p := from
	wide := 5
	if r.P(10) {
		wide = 20
	}
	for i := 0; p < to && i < wide; i++ {
		if r.P(35) {
			p += r.N(3)
		}
		if p >= to {
			break
		}
		e := p + 1 + r.N(to-p)
		if wide > 5 && e > p+3 {
			e = p + 1 + r.N(3)
		}
		if i == 0 && p == from && e == to && !dup {
			e-- // would have the token of its parent
			if e <= p {
				break
			}
		}
		s := &SegSpec{Info: fmt.Sprintf("%s%d", pre, i), From: p, To: e}
		*out = append(*out, s)
		laminar(r, p, e, d-1, s.Info+".", out, dup)
		p = e
	}
}

// stretch moves the segments to larger positions.
func stretch(r *Rng, l []*SegSpec) {
	if !r.P(8) {
		return
	}
	f, a := r.PickInt(1, 3, 1000, 70000, 1<<33), r.PickInt(0, 1, 255, 65536, 1<<31)
	for _, s := range l {
		s.From, s.To = s.From*f+a, s.To*f+a
	}
}

func init() {
	register(&Prop{
		ID: "C09", Quick: 800000, Thorough: 16000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Kind: "distinct"}
			dup := r.P(25)
			if dup {
				sc.Kind = "any"
			}
			n := r.In(1, 24)
			switch r.N(3000) {
			case 0: // deep
				n = r.In(100, 400)
				if r.P(15) {
					n = r.In(400, 1000)
				}
				a, b := 0, n
				for i := 0; a < b; i++ {
					sc.Segs = append(sc.Segs, &SegSpec{Info: fmt.Sprintf("s%d", i), From: a, To: b})
					k := r.N(4)
					a += k % 2
					b -= k / 2
					if k == 0 {
						b--
					}
				}
			case 1: // wide
				n = r.In(100, 300)
				if r.P(25) {
					n = r.In(600, 2200)
				}
				for i, p := 0, 0; p < n; i++ {
					e := p + 1 + r.N(2)
					sc.Segs = append(sc.Segs, &SegSpec{Info: fmt.Sprintf("s%d", i), From: p, To: e})
					p = e + r.N(2)
				}
			case 2:
				n = r.In(60, 200)
				laminar(r, 0, n, 12, "s", &sc.Segs, dup)
			default:
				laminar(r, 0, n, r.In(1, 4), "s", &sc.Segs, dup)
			}
			if r.P(40) && len(sc.Segs) > 0 && !dup {
				sc.Segs = append([]*SegSpec{{Info: "all", From: 0, To: n + 1}}, sc.Segs...)
			}
			// delivery faults
			if r.P(70) {
				for i := len(sc.Segs) - 1; i > 0; i-- {
					j := r.N(i + 1)
					sc.Segs[i], sc.Segs[j] = sc.Segs[j], sc.Segs[i]
				}
			}
			if r.P(30) && len(sc.Segs) > 1 {
				i := r.N(len(sc.Segs))
				sc.Segs = append(sc.Segs[:i:i], sc.Segs[i+1:]...)
			}
			if r.P(45) {
				for k := r.In(1, 3); k > 0; k-- {
					x := &SegSpec{Info: fmt.Sprintf("bad%d", k), From: r.N(n + 1), Fault: "corrupted"}
					x.To = x.From + r.N(n-x.From+2)
					if len(sc.Segs) > 0 && r.P(30) {
						y := sc.Segs[r.N(len(sc.Segs))]
						x.From, x.To, x.Info, x.Fault = y.From, y.To, y.Info, "duplicated"
					}
					i := r.N(len(sc.Segs) + 1)
					sc.Segs = append(sc.Segs[:i:i], append([]*SegSpec{x}, sc.Segs[i:]...)...)
				}
			}
			stretch(r, sc.Segs)
			return sc
		},
		Run: runGraph,
		Rule: "A case is a stream of segments of a well nested text that is reordered, loses segments and contains corrupted (crossing, empty, outside) and duplicated ones, delivered one by one to a Graph. " +
			"After every delivery: a refused segment has left the Graph as it was and really crosses an accepted one, all accepted segments are present exactly once, nested and ordered, the root covers them, Leafs returns the leafs in order. " +
			"If all accepted tokens are distinct and not empty, the result must be the one of a delivery in order. Non-trivial: at least three segments; distinct by hash of the stream and the Graph.",
		Real: []string{"Graph, Node, Segment, Token of package tok"}, Stub: []string{"the parse that delivers the segments (simulated stream with delivery faults)"},
	})
}

func runGraph(sc *Scenario) *Outcome {
	o := newOutcome()
	var g *tok.Graph
	e := newEnv(3000000 + 20000*uint64(len(sc.Segs)*len(sc.Segs)))
	bad := ""
	var acc []*SegSpec
	end := solo(e, func() {
		g = tok.NewGraph("root")
		for i, sp := range sc.Segs {
			o.Hash.Str(sp.Info)
			o.Hash.Int(sp.From)
			o.Hash.Int(sp.To)
			if sp.Fault != "" {
				e.hit(sp.Fault)
			}
			before := graphText(g)
			_, ok := g.Append(sp.seg())
			after := graphText(g)
			quiet(func() {
				clash := ""
				for _, a := range acc {
					if crosses(a, sp) {
						clash = a.Info
					}
				}
				switch {
				case ok && clash != "":
					bad = fmt.Sprintf("segment %d %s was accepted although it crosses %s", i, sp.seg(), clash)
				case !ok && clash == "":
					bad = fmt.Sprintf("segment %d %s was refused although it crosses nothing in %s", i, sp.seg(), before)
				case !ok && before != after:
					bad = fmt.Sprintf("segment %d %s was refused but changed the graph from %s to %s", i, sp.seg(), before, after)
				case ok:
					acc = append(acc, sp)
				}
				if bad == "" {
					bad = checkGraph(g, acc)
				}
			})
			o.probe("refused", !ok)
			if bad != "" {
				return
			}
		}
	})
	o.addEnv(e)
	if end != "" {
		return o.fail("graph", "Append ended in a "+end)
	}
	o.Hash.Str(graphText(g))
	o.Trivial = len(sc.Segs) < 3
	if bad != "" {
		return o.fail("graph", bad)
	}
	// convergence
	distinct := true
	seen := map[[2]int]bool{}
	for _, a := range acc {
		k := [2]int{a.From, a.To}
		if seen[k] || a.From >= a.To {
			distinct = false
		}
		seen[k] = true
	}
	if distinct && len(acc) > 0 {
		o.probe("order independence compared", true)
		s := append([]*SegSpec{}, acc...)
		sort.SliceStable(s, func(i, j int) bool {
			if s[i].From != s[j].From {
				return s[i].From < s[j].From
			}
			return s[i].To > s[j].To
		})
		h := (*tok.Graph)(nil)
		eq := false
		end := solo(newEnv(3000000+20000*uint64(len(sc.Segs)*len(sc.Segs))), func() {
			l := []tok.Segment{}
			for _, x := range s {
				l = append(l, x.seg())
			}
			h = tok.BuildGraph("root", l)
			eq = g.Equal(h)
		})
		if end != "" {
			return o.fail("graph", "BuildGraph ended in a "+end)
		}
		if len(s) > 1 {
			// one is missing, or has another name
			k := (len(sc.Segs)*7 + 3*s[len(s)/2].From + s[len(s)-1].To) % len(s)
			end := solo(newEnv(3000000+20000*uint64(len(sc.Segs)*len(sc.Segs))), func() {
				l := []tok.Segment{}
				for i, x := range s {
					if i != k {
						l = append(l, x.seg())
					}
				}
				less := tok.BuildGraph("root", l)
				if g.Equal(less) || less.Equal(g) {
					bad = fmt.Sprintf("%s is equal to %s", graphText(g), graphText(less))
					return
				}
				l = l[:0]
				for i, x := range s {
					l = append(l, x.seg())
					if i == k {
						l[i].Info += "'"
					}
				}
				other := tok.BuildGraph("root", l)
				if g.Equal(other) || other.Equal(g) {
					bad = fmt.Sprintf("%s is equal to %s", graphText(g), graphText(other))
				}
				// all, or all from one on, one further
				from := s[k].From
				if k%2 == 0 {
					from = 0
				}
				l = l[:0]
				for _, x := range s {
					y := *x
					if y.From >= from {
						y.From++
					}
					if y.To > from {
						y.To++
					}
					l = append(l, y.seg())
				}
				other = tok.BuildGraph("root", l)
				if g.Equal(other) || other.Equal(g) {
					bad = fmt.Sprintf("%s is equal to %s", graphText(g), graphText(other))
				}
			})
			if end != "" {
				return o.fail("graph", "BuildGraph ended in a "+end)
			}
			if bad != "" {
				return o.fail("graph", bad)
			}
		}
		if same := graphText(g) == graphText(h); !same || !eq {
			return o.fail("order", fmt.Sprintf("the order of delivery decides the graph (Equal: %v): %s, in order %s", eq, graphText(g), graphText(h)))
		}
	}
	return o
}

func crosses(a, b *SegSpec) bool {
	return a.From < b.From && b.From < a.To && a.To < b.To || b.From < a.From && a.From < b.To && b.To < a.To
}

func checkGraph(g *tok.Graph, acc []*SegSpec) string {
	var all []string
	var leafs []string
	bad := ""
	lo, hi := 1<<62, -1
	var walk func(n *tok.Node, root bool)
	walk = func(n *tok.Node, root bool) {
		f, t := tokSpan(n.Token)
		if !root {
			all = append(all, n.Segment.String())
			if f < lo {
				lo = f
			}
			if t > hi {
				hi = t
			}
		}
		if len(n.Nodes) == 0 {
			leafs = append(leafs, n.Segment.String())
		}
		p := f
		for _, c := range n.Nodes {
			cf, ct := tokSpan(c.Token)
			if cf < f || ct > t {
				bad = fmt.Sprintf("%s is below %s", c.Segment, n.Segment)
			}
			if cf < p {
				bad = fmt.Sprintf("%s is behind a segment it is not after, below %s", c.Segment, n.Segment)
			}
			p = ct
			walk(c, false)
		}
	}
	walk(g.Root, true)
	want := []string{}
	for _, a := range acc {
		want = append(want, a.seg().String())
	}
	if bad == "" && len(acc) > 0 {
		rf, rt := tokSpan(g.Root.Token)
		if rf > lo || rt < hi {
			bad = fmt.Sprintf("the root %s does not cover [%d-%d)", g.Root.Segment, lo, hi)
		}
	}
	sort.Strings(all)
	sort.Strings(want)
	if bad == "" && strings.Join(all, " ") != strings.Join(want, " ") {
		bad = fmt.Sprintf("accepted were %v, the graph has %v", want, all)
	}
	if bad == "" {
		got := []string{}
		for _, l := range g.Leafs() {
			got = append(got, l.String())
		}
		if strings.Join(got, " ") != strings.Join(leafs, " ") {
			bad = fmt.Sprintf("Leafs returned %v, the leafs are %v", got, leafs)
		}
	}
	if bad != "" {
		bad += " in " + graphText(g)
	}
	return bad
}
