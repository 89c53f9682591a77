package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C19: segments that arrive in any order are brought into text order

func init() {
	register(&Prop{
		ID: "C19", Quick: 3000000, Thorough: 60000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Kind: r.Pick("plain", "order", "order")}
			n := r.In(1, 24)
			switch r.N(1000) {
			case 0:
				n = r.In(100, 400)
				laminar(r, 0, n, 10, "s", &sc.Segs, false)
			case 1:
				n = r.In(100, 400)
				for i, p := 0, 0; p < n; i++ {
					e := p + 1 + r.N(2)
					sc.Segs = append(sc.Segs, &SegSpec{Info: fmt.Sprintf("s%d", i), From: p, To: e})
					p = e + r.N(2)
				}
			default:
				laminar(r, 0, n, r.In(1, 4), "s", &sc.Segs, false)
			}
			if sc.Kind == "order" {
				// several names for one range
				names := []string{"a", "b", "c", "d", "e"}[:r.In(1, 5)]
				extra := []string{"x", "y"}
				if r.P(10) {
					// a long list of names
					all := strings.Split("abcdefghijklmnopqrstuvwABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "")
					k := r.In(6, len(all)-1)
					names, extra = all[:k], append(extra, all[k:]...)
				}
				base := sc.Segs
				sc.Segs = nil
				for _, s := range base {
					k := 1
					if r.P(40) {
						k = r.In(1, 5)
					}
					for ; k > 0; k-- {
						sc.Segs = append(sc.Segs, &SegSpec{Info: names[r.N(len(names))], From: s.From, To: s.To})
					}
				}
				t := &Task{}
				for _, x := range append(extra, names...) {
					if r.P(70) {
						t.Text += BStr(x)
					}
				}
				b := []byte(t.Text)
				for i := len(b) - 1; i > 0; i-- {
					j := r.N(i + 1)
					b[i], b[j] = b[j], b[i]
				}
				t.Text = BStr(b)
				sc.Tasks = []*Task{t}
			}
			if len(sc.Segs) > 1 && r.P(30) {
				i := r.N(len(sc.Segs))
				sc.Segs = append(sc.Segs[:i:i], sc.Segs[i+1:]...)
			}
			switch {
			case r.P(75):
				for i := len(sc.Segs) - 1; i > 0; i-- {
					j := r.N(i + 1)
					sc.Segs[i], sc.Segs[j] = sc.Segs[j], sc.Segs[i]
				}
			case r.P(50):
				for i, j := 0, len(sc.Segs)-1; i < j; i, j = i+1, j-1 {
					sc.Segs[i], sc.Segs[j] = sc.Segs[j], sc.Segs[i]
				}
			default:
				// they come in the order in which their reads ended
				sort.SliceStable(sc.Segs, func(i, j int) bool {
					a, b := sc.Segs[i], sc.Segs[j]
					return a.To < b.To || a.To == b.To && a.From > b.From
				})
			}
			stretch(r, sc.Segs)
			return sc
		},
		Run: runSort,
		Rule: "A case is a stream of the segments of a well nested text (also several names for one range) that is shuffled, reversed or in the order of the ends and has lost some, collected and sorted with SortSegments or SortSegmentsByOrder. " +
			"The result has to be the order of a reference: by start, the longer one first, and for equal ranges by the place of the name in the given order, names that are not in it first, in the order of arrival where nothing else decides. Non-trivial: at least three segments; distinct by hash of stream and order.",
		Real: []string{"Segment, Token, SortSegments, SortSegmentsByOrder of package tok"}, Stub: []string{"the parse that delivers the segments (simulated stream with reordering and loss)"},
	})
}

func runSort(sc *Scenario) *Outcome {
	o := newOutcome()
	order := []string{}
	if sc.Kind == "order" && len(sc.Tasks) > 0 {
		for _, c := range string(sc.Tasks[0].Text) {
			order = append(order, string(c))
		}
	}
	place := func(info string) int {
		for i, x := range order {
			if x == info {
				return i
			}
		}
		return -1
	}
	l := []tok.Segment{}
	want := append([]*SegSpec{}, sc.Segs...)
	moved := 0
	for i, s := range sc.Segs {
		l = append(l, s.seg())
		o.Hash.Str(s.Info)
		o.Hash.Int(s.From)
		o.Hash.Int(s.To)
		for _, x := range sc.Segs[:i] {
			if crosses(x, s) || s.From >= s.To || sc.Kind != "order" && x.From == s.From && x.To == s.To {
				return o.skip("not well nested")
			}
			if x.From > s.From {
				moved++
			}
		}
	}
	o.Hash.Str(strings.Join(order, ""))
	if moved > 0 {
		o.Fired["segment reordered"]++
	}
	sort.SliceStable(want, func(i, j int) bool {
		a, b := want[i], want[j]
		if a.From != b.From {
			return a.From < b.From
		}
		if a.To != b.To {
			return a.To > b.To
		}
		return sc.Kind == "order" && place(a.Info) < place(b.Info)
	})
	o.Trivial = len(l) < 3
	what := fmt.Sprintf("%v", l)
	e := newEnv(5000000 + 1000*uint64(len(l)*len(l)))
	end := solo(e, func() {
		if sc.Kind == "order" {
			tok.SortSegmentsByOrder(l, order)
		} else {
			tok.SortSegments(l)
		}
	})
	o.addEnv(e)
	exp := []string{}
	got := []string{}
	for i := range want {
		exp = append(exp, want[i].seg().String())
		got = append(got, l[i].String())
	}
	if end != "" {
		return o.fail("sort", "sorting "+what+" ended in a "+end)
	}
	if a, b := strings.Join(got, " "), strings.Join(exp, " "); a != b {
		return o.fail("sort", fmt.Sprintf("%s sorted with order %v is %s, expected %s", what, order, a, b))
	}
	return o
}
