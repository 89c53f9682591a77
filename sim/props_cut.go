package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C17: lists of segments that were damaged on their way

func genCut(r *Rng) *Scenario {
	sc := &Scenario{Kind: "cut"}
	n := r.In(0, 30)
	from, to := 0, n
	whole := &SegSpec{}
	if r.P(50) {
		whole.Info = "whole"
		from = r.N(n + 1)
		to = from + r.N(n-from+1)
	}
	whole.From, whole.To = from, to
	sc.Segs = append(sc.Segs, whole)
	p := from
	for i := 0; i < 10 && p <= to; i++ {
		if r.P(50) {
			p += r.N(4)
		}
		if p > to {
			break
		}
		e := p + r.N(5)
		if r.P(90) && e == p {
			e++
		}
		if e > to {
			break
		}
		sc.Segs = append(sc.Segs, &SegSpec{Info: fmt.Sprintf("s%d", i), From: p, To: e})
		p = e
	}
	l := sc.Segs[1:]
	if r.P(20) {
		for _, x := range l {
			x.Info = r.Pick("", whole.Info, "a", x.Info)
		}
	}
	if len(l) > 1 && r.P(20) {
		i, j := r.N(len(l)), r.N(len(l))
		l[i], l[j] = l[j], l[i]
		l[i].Fault = "reordered"
	}
	if len(l) > 0 && r.P(20) {
		i := r.N(len(l))
		x := *l[i]
		x.Fault = "duplicated"
		l = append(l[:i:i], append([]*SegSpec{&x}, l[i:]...)...)
	}
	if r.P(25) {
		x := &SegSpec{Info: "bad", From: r.N(n + 3), Fault: "corrupted"}
		x.To = x.From + r.N(6)
		i := r.N(len(l) + 1)
		l = append(l[:i:i], append([]*SegSpec{x}, l[i:]...)...)
	}
	sc.Segs = append([]*SegSpec{whole}, l...)
	return sc
}

func runCut(sc *Scenario) *Outcome {
	o := newOutcome()
	if len(sc.Segs) == 0 {
		return o.skip("nothing to cut")
	}
	whole := sc.Segs[0]
	l := []tok.Segment{}
	want := []string{}
	p := whole.From
	bad := -1
	piece := func(info string, a, b int) { want = append(want, fmt.Sprintf("%s[%d-%d)", info, a, b)) }
	for i, s := range sc.Segs[1:] {
		l = append(l, s.seg())
		o.Hash.Str(s.Info)
		o.Hash.Int(s.From)
		o.Hash.Int(s.To)
		if s.Fault != "" {
			o.Fired["segment "+s.Fault]++
		}
		if bad >= 0 {
			continue
		}
		if s.From < p || s.To > whole.To {
			bad = i
			continue
		}
		if p < s.From {
			piece(whole.Info, p, s.From)
		}
		piece(s.Info, s.From, s.To)
		p = s.To
	}
	if bad < 0 && p < whole.To {
		piece(whole.Info, p, whole.To)
	}
	o.Hash.Int(whole.From)
	o.Hash.Int(whole.To)
	o.probe("list refused", bad >= 0)
	if len(l) < 2 {
		o.Trivial = true
	}
	var parts []tok.Segment
	var err error
	e := newEnv(1000000)
	end := solo(e, func() {
		if whole.Info == "" && whole.From == 0 {
			parts, err = newScanner(strings.Repeat("x", whole.To), 0).Segmentate(l)
		} else {
			parts, err = whole.seg().Segmentate(l)
		}
	})
	o.addEnv(e)
	got := []string{}
	for _, x := range parts {
		f, t := tokSpan(x.Token)
		got = append(got, fmt.Sprintf("%s[%d-%d)", x.Info, f, t))
		if err == nil && x.Known() != (x.Info != "") {
			return o.fail("cut", fmt.Sprintf("piece %s of %v cut by %v: Known is %v", got[len(got)-1], whole.seg(), l, x.Known()))
		}
	}
	what := fmt.Sprintf("%v cut by %v", whole.seg(), l)
	switch {
	case end != "":
		return o.fail("cut", what+" ended in a "+end)
	case (err != nil) != (bad >= 0):
		return o.fail("cut", fmt.Sprintf("%s: error %v, the first segment that does not fit is %d", what, err, bad))
	case err == nil && strings.Join(got, " ") != strings.Join(want, " "):
		return o.fail("cut", fmt.Sprintf("%s: pieces %s, expected %s", what, strings.Join(got, " "), strings.Join(want, " ")))
	}
	return o
}
