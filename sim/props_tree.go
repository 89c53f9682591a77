package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

var softFaults = []string{"err", "errpart", "errafter", "lie", "cancel", "err", "errpart", "errafter", "errback"}
var hardFaults = []string{"crash", "crashpart", "crashafter"}
var allFaults = []string{"err", "errpart", "errback", "errafter", "lie", "cancel", "crash", "crashpart", "crashafter"}

// budget is the number of statements that the work of the reference
// interpreter allows. A single Read may look at all of the text.
func (m *MResult) budget() uint64 {
	return 60000 + uint64(m.Evals)*uint64(500+40*m.Len)
}

var realLib = []string{"all of package tok (every statement instrumented)", "package tok/grammar"}
var stubUser = []string{"user supplied Readers, MatchFuncs, MapFuncs (simulated, with injected faults)"}

// genTree generates one task with a tree and n tries.
func genTree(r *Rng, o GenOpt, tries int, faultPct, maxFaults int, kinds []string, sameText bool) *Task {
	o.Wide = o.Wide || r.P(20)
	o.Long = o.Long || r.P(12)
	switch r.N(1500) {
	case 0:
		o.Huge = true
		o.Depth = r.In(1, 4)
		if r.P(5) && !o.NoGiant {
			o.Giant = true
			o.Depth = 1
		}
	case 1, 2, 3:
		// many attempts
		if tries > 1 && !o.NoMany {
			tries = r.In(8, 60)
		}
	}
	var g *Gen
	t := &Task{}
	for i := 0; ; i++ {
		g = newGen(r, o)
		t.Root, t.Rules = g.forest()
		if o.Huge && (r.P(50) || o.Giant) && len(t.Rules) == 0 {
			// a long repetition
			n := g.node(r.Pick("zom", "many"))
			d := r.N(2)
			if o.Giant {
				d = 0
			}
			n.Kids = []*Node{g.tree(d)}
			t.Root = g.wrap(n)
		}
		if t.Root.size() <= 60 || i > 5 || g.dep > 0 && r.P(70) {
			break
		}
	}
	// the part that is read may lie far behind the start of the text
	far := ""
	switch k := r.N(4000); {
	case k == 0:
		far = strings.Repeat(g.word(1, 40), 1+r.N(4000))
	case k == 1:
		far = strings.Repeat("fargone-", 8192+r.N(4))
	case k < 40:
		far = g.word(20, 400)
	}
	text := far + g.text(t.Root, t.Rules)
	if sameText {
		t.Text = BStr(text)
	}
	for i := 0; i < tries; i++ {
		if i > 0 && !sameText {
			text = far + g.text(t.Root, t.Rules)
		}
		tr := &Try{Input: BStr(text)}
		if sameText {
			tr.Input = ""
		}
		if r.P(15) {
			tr.At = runeStart(text, r.N(len(text)+1))
		} else if r.P(95) {
			tr.At = len(far)
		}
		if r.P(faultPct) {
			tr.Faults = treeFaults(r, r.In(1, maxFaults), kinds, t.Root, t.Rules, text, tr.At)
		}
		t.Tries = append(t.Tries, tr)
	}
	return t
}

func runeStart(s string, i int) int {
	for i > 0 && i < len(s) && s[i]&0xC0 == 0x80 {
		i--
	}
	return i
}

func (o *Outcome) addTask(t *Task) {
	if t.Root != nil {
		o.Hash.Str(t.Root.String())
		for _, n := range t.Rules {
			o.Hash.Str(n.String())
		}
	}
	o.Hash.Str(t.Gram)
	o.Hash.Str(string(t.Text))
	for _, x := range t.Tries {
		o.Hash.Str(string(x.Input))
		o.Hash.Int(x.At)
		o.Hash.Int(x.Crash)
		for _, f := range x.Faults {
			o.Hash.Str(f.String())
		}
	}
}

func clampAt(at int, s string) int {
	if at < 0 {
		return 0
	}
	if at > len(s) {
		return len(s)
	}
	return at
}

// ---------------------------------------------------------------------------
// C02

func init() {
	register(&Prop{
		ID: "C02", Quick: 4000000, Thorough: 80000000,
		Gen: func(r *Rng, th bool) *Scenario {
			o := GenOpt{Faults: true, Refs: true, Nasty: r.P(20), Maps: r.P(20), Mons: r.P(20), Picks: r.P(15)}
			kinds := append([]string{"stall"}, softFaults...)
			if r.P(25) {
				// several attempts on one Scanner
				return &Scenario{Kind: "again", Tasks: []*Task{genTree(r, o, r.In(2, 4), 60, 3, kinds, true)}}
			}
			return &Scenario{Tasks: []*Task{genTree(r, o, 1, 75, 3, kinds, false)}}
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			t := sc.Tasks[0]
			o.addTask(t)
			var in *Inst
			var s *tok.Scanner
			for i, tr := range t.Tries {
				text := string(tr.Input)
				if sc.Kind == "again" {
					text = string(t.Text)
				}
				at := clampAt(tr.At, text)
				m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
				if !m.Valid || m.Crash {
					return o.skip(m.Invalid)
				}
				if s == nil || sc.Kind != "again" {
					in = t.build(BuildOpt{}, GramOpt{})
					s = newScanner(text, at)
				} else {
					quiet(func() { s.ToMarker(tok.Marker(at)) })
				}
				e := newEnv(m.budget())
				use := (len(text)+i)%3 == 0
				res := e.soloRead(in, s, tr, use)
				o.addEnv(e)
				want := m.Pos
				if use && !m.OK {
					want = at
				}
				o.Hash.Str(res.String())
				o.probe("read succeeded", m.OK)
				o.probe("fault absorbed by a successful read", m.OK && m.Fired > 0)
				if m.Evals < 3 && m.Fired == 0 {
					o.Trivial = true
				}
				exp := fmt.Sprintf("ok at %d", want)
				if !m.OK {
					exp = fmt.Sprintf("an error at %d", want)
				}
				if res.End != "" || res.ok() != m.OK || res.Pos != want {
					return o.fail("outcome", fmt.Sprintf("reading %q from %d with %s: the model expects %s, got %s",
						text, at, t.Root, exp, res))
				}
				if e.badValue != "" {
					return o.fail("value", fmt.Sprintf("reading %q from %d with %s: %s", text, at, t.Root, e.badValue))
				}
			}
			return o
		},
		Rule: "A case is a random Reader tree (all combinators and leaf Readers, swarm-selected kinds, depth up to 5, recursive rules), " +
			"a text sampled from the tree and damaged, and up to three failures of sub Readers placed on (Reader, position) pairs that are really reached: " +
			"error, error after a partial move, error after success, success with another length, cancellation of everything that follows, stall. " +
			"In a quarter of the runs two to four attempts with different failures follow each other on one Scanner. Ok and position are compared with a reference interpreter. Non-trivial: at least one fault fired or at least three Readers were evaluated; distinct by hash of tree, text, faults and result.",
		Real: realLib, Stub: stubUser,
	})
}

// ---------------------------------------------------------------------------
// C03

func segString(l []PickEv) string {
	s := []string{}
	for _, p := range l {
		s = append(s, fmt.Sprintf("%s[%d-%d)", p.Info, p.From, p.To))
	}
	return strings.Join(s, ";")
}

func basketSegs(b *tok.Basket) []PickEv {
	res := []PickEv{}
	quiet(func() {
		for _, seg := range b.Picked() {
			f, t := parseSpan(seg.Token.String())
			res = append(res, PickEv{seg.Info, f, t})
		}
	})
	return res
}

const knownZero = "zero-width-picks-of-abandoned-attempts"

// diffPicks compares the content of a Basket with the expected one. Picks
// without a length may be there although they were abandoned, if they are in
// gone; the number of these is returned.
func diffPicks(real, want, gone []PickEv) (int, string) {
	left := map[PickEv]int{}
	for _, g := range gone {
		left[g]++
	}
	j, phantoms := 0, 0
	for _, p := range real {
		if j < len(want) && p == want[j] {
			j++
		} else if p.From == p.To && left[p] > 0 {
			left[p]--
			phantoms++
		} else {
			exp := "nothing"
			if j < len(want) {
				exp = segString(want[j : j+1])
			}
			return phantoms, fmt.Sprintf("found %s where %s was expected", segString([]PickEv{p}), exp)
		}
	}
	if j < len(want) {
		return phantoms, fmt.Sprintf("%s is missing", segString(want[j:j+1]))
	}
	return phantoms, ""
}

func noZeros(l []PickEv) []PickEv {
	res := []PickEv{}
	for _, p := range l {
		if p.From != p.To {
			res = append(res, p)
		}
	}
	return res
}

func init() {
	register(&Prop{
		ID: "C03", Quick: 1400000, Thorough: 28000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(25) {
				return genGramPicks(r)
			}
			o := GenOpt{Faults: true, Refs: true, Picks: true, Maps: r.P(10), Mons: r.P(10)}
			t := genTree(r, o, r.In(1, 4), 55, 3, []string{"err", "errpart", "errafter", "cancel", "lie", "crash", "crashpart", "crashafter"}, true)
			for i, x := range t.Tries {
				if i > 0 {
					x.At = runeStart(string(t.Text), r.N(len(t.Text)+1))
					if t.Tries[0].At > 20 && r.P(80) {
						x.At = t.Tries[0].At
					}
					if r.P(30) {
						x.At = -1 // go on where the last attempt ended
					}
				}
			}
			return &Scenario{Kind: "tree", Tasks: []*Task{t}}
		},
		Run: func(sc *Scenario) *Outcome {
			if sc.Kind == "tree" {
				return runPicks(sc)
			}
			return runGramPicks(sc)
		},
		Rule: "A case is a sequence of up to four attempts of a random tree with Pick observers on one Scanner with its Basket, with Reader failures, crashes and moves back of the user in between, " +
			"or a JSON or MXT document, damaged or not, read by the grammar with NewBasketFor while rules fail or crash at chosen positions. " +
			"The Basket is compared with the picks of the reference interpreter, for the grammars with the picks that survive all observed moves back (position sampled at every statement). " +
			"Non-trivial: at least one pick was made; distinct by hash of trees, texts, faults and picks.",
		Real: realLib, Stub: stubUser,
	})
}

func runPicks(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	text := string(t.Text)
	s := newScanner(text, 0)
	var b *tok.Basket
	quiet(func() { b = s.NewBasket() })
	in := t.build(BuildOpt{Basket: b}, GramOpt{})
	var want, gone []PickEv
	made := 0
	pos := 0
	for i, tr := range t.Tries {
		at := tr.At
		if at < 0 {
			at = pos
		}
		at = clampAt(at, text)
		if at != pos {
			solo(newEnv(5000000), func() { s.ToMarker(tok.Marker(at)) })
			for n := len(want); n > 0 && want[n-1].To > at; n-- {
				want = want[:n-1]
			}
		}
		m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, want)
		if !m.Valid {
			return o.skip(m.Invalid)
		}
		e := newEnv(m.budget())
		res := e.soloRead(in, s, tr, true)
		o.addEnv(e)
		gone = append(gone, m.Gone...)
		if m.Crash {
			if !strings.HasPrefix(res.End, "crash@") {
				return o.skip("outcome differs from the model")
			}
			// the user gives the attempt up
			for _, p := range m.Picks {
				if p.From == p.To {
					gone = append(gone, p)
				}
			}
			solo(newEnv(5000000), func() { s.ToMarker(tok.Marker(at)) })
			pos = at
		} else {
			if res.End != "" || res.ok() != m.OK {
				return o.skip("outcome differs from the model")
			}
			if m.OK {
				if res.Pos != m.Pos {
					return o.skip("outcome differs from the model")
				}
				want = m.Picks
			}
			pos = res.Pos
		}
		made += len(m.Picks)
		real := basketSegs(in.basket)
		o.Hash.Str(segString(real))
		ph, diff := diffPicks(real, want, gone)
		o.probe("pick dropped by a move back", len(m.Picks) > 0 && (!m.OK || m.Crash))
		if diff != "" {
			return o.fail("basket", fmt.Sprintf("after attempt %d from %d on %q with %s: %s\n basket:   %s\n expected: %s",
				i+1, at, text, t.Root, diff, segString(real), segString(want)))
		}
		if ph > 0 {
			o.known(knownZero, fmt.Sprintf("%s on %q leaves %s", t.Root, text, segString(real)))
		}
	}
	if made == 0 {
		o.Trivial = true
	}
	return o
}

func genGramPicks(r *Rng) *Scenario {
	name := r.Pick("json", "json", "mxt")
	text := gramDoc(r, name, 40)
	t := &Task{Gram: name, Text: BStr(text)}
	kind, n := "gram", r.In(1, 2)
	if r.P(20) {
		// a text and a Basket of its own for every attempt
		kind, n = "baskets", r.In(2, 4)
		name = "json"
		t.Gram = name
	} else if r.P(15) {
		// two Baskets for one Scanner
		kind = "twins"
	}
	for ; n > 0; n-- {
		tr := &Try{}
		if kind == "baskets" {
			text = gramDoc(r, name, 40)
			tr.Input = BStr(text)
		}
		if r.P(60) {
			tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "crash", "crashafter", "cancel"}, name, text)
		}
		t.Tries = append(t.Tries, tr)
	}
	return &Scenario{Kind: kind, Tasks: []*Task{t}}
}

// what the MXT grammar reads as body of a BodyTail is not picked
var mxtNoPick = map[string]bool{"wordchar": true}

// trackers hands a move on to all of them.
type trackers []tok.Tracker

func (l trackers) Update(m tok.Marker) {
	for _, t := range l {
		t.Update(m)
	}
}

func runGramPicks(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	text := string(t.Text)
	s := newScanner(text, 0)
	var in *Inst
	if t.Gram == "json" {
		in = buildGram(t.Gram, GramOpt{Rec: true, Faults: true, PickSub: true})
		quiet(func() { in.basket = s.NewBasketFor(in.gram) })
	} else {
		in = buildGram(t.Gram, GramOpt{Rec: true, Faults: true, Picks: true, NoPick: mxtNoPick})
		s.Tracker = in.basket
	}
	var twin *tok.Basket
	if sc.Kind == "twins" {
		twin = &tok.Basket{}
		quiet(func() {
			if t.Gram == "json" {
				twin.PickWith(in.gram.Grammar()...)
			} else {
				for _, rule := range in.gram.Grammar() {
					if !mxtNoPick[rule.Name] {
						rule.Pick(twin)
					}
				}
			}
		})
		s.Tracker = trackers{in.basket, twin}
	}
	var shadow, zeros []PickEv
	for i, tr := range t.Tries {
		if sc.Kind == "baskets" {
			text = string(tr.Input)
			s = newScanner(text, 0)
			quiet(func() { in.basket = s.NewBasketFor(in.gram) })
			shadow, zeros = nil, nil
		}
		e := newEnv(gramBudget)
		e.trace = newTrace()
		e.trace.sampling = true
		e.trace.shadow = shadow
		e.trace.zeros = zeros
		e.trace.last = mark(s)
		start := e.trace.last
		res := e.soloRead(in, s, tr, true)
		o.addEnv(e)
		if res.End == "budget" {
			return o.skip("budget")
		}
		if res.End != "" {
			solo(newEnv(5000000), func() { s.ToMarker(tok.Marker(start)) })
		}
		e.trace.onPos(mark(s))
		shadow, zeros = e.trace.shadow, e.trace.zeros
		real := basketSegs(in.basket)
		o.Hash.Str(segString(real))
		if len(real) == 0 {
			o.Trivial = true
		}
		if _, diff := diffPicks(noZeros(real), shadow, nil); diff != "" {
			return o.fail("basket", fmt.Sprintf("after attempt %d (%s) of the %s grammar on %q: %s\n basket:   %s\n expected: %s",
				i+1, res, t.Gram, text, diff, segString(real), segString(shadow)))
		}
		if twin != nil {
			if two := segString(basketSegs(twin)); two != segString(real) {
				return o.fail("basket", fmt.Sprintf("after attempt %d (%s) of the %s grammar on %q: the two Baskets of the Scanner differ\n first:  %s\n second: %s", i+1, res, t.Gram, text, segString(real), two))
			}
		}
		seen := map[PickEv]int{}
		for _, z := range zeros {
			seen[z]++
		}
		for _, p := range real {
			if p.From == p.To {
				if seen[p] == 0 {
					return o.fail("basket", fmt.Sprintf("after attempt %d of the %s grammar on %q: %s was never read", i+1, t.Gram, text, segString([]PickEv{p})))
				}
				seen[p]--
			}
		}
	}
	return o
}

// ---------------------------------------------------------------------------
// C04

func init() {
	register(&Prop{
		ID: "C04", Quick: 1400000, Thorough: 28000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(25) {
				p := genProgram(r, opMoves, r.P(50))
				return &Scenario{Kind: "ops", Tasks: []*Task{p}}
			}
			if r.P(15) {
				name := r.Pick("json", "mxt", "lua")
				text := gramDoc(r, name, 50)
				tr := &Try{Input: BStr(text)}
				if r.P(50) {
					tr.Faults = gramFaults(r, 1, []string{"err", "errpart", "errafter"}, name, text)
				}
				return &Scenario{Kind: "gram", Tasks: []*Task{{Gram: name, Tries: []*Try{tr}}}}
			}
			o := GenOpt{Faults: true, Refs: true, Picks: r.P(30)}
			t := genTree(r, o, r.In(1, 3), 60, 3, []string{"err", "errpart", "errafter", "errback", "lie", "cancel", "crash", "crashpart"}, true)
			if r.P(20) {
				t.Tries[0].Crash = 1 + r.N(8)
			}
			return &Scenario{Kind: "tree", Tasks: []*Task{t}}
		},
		Run: runTracked,
		Rule: "A case is a random tree, grammar or program of Scanner calls run with a recording Tracker under Reader failures, crashes of Readers and crashes of the Tracker itself. " +
			"Before and after every single Read of every Reader and after every call the last notification has to be the position of the Scanner. " +
			"Non-trivial: at least two notifications; distinct by hash of tree or program, text, faults and the sequence of results.",
		Real: realLib, Stub: append([]string{"Tracker (recording, may crash)"}, stubUser...),
	})
}

func runTracked(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	if sc.Kind == "ops" {
		return runTrackedOps(o, t)
	}
	text := string(t.Text)
	in := t.build(BuildOpt{Rec: true}, GramOpt{Rec: true, Faults: true})
	s := newScanner(text, 0)
	tee := &Tee{}
	total := 0
	for i, tr := range t.Tries {
		if sc.Kind == "gram" {
			text = string(tr.Input)
			s = newScanner(text, 0)
			tee = &Tee{}
		}
		s.Tracker = tee
		at := clampAt(tr.At, text)
		budget := uint64(gramBudget)
		if t.Gram == "" {
			m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
			if !m.Valid {
				return o.skip(m.Invalid)
			}
			budget = m.budget()
		}
		solo(newEnv(5000000), func() { s.ToMarker(tok.Marker(at)) })
		tee.check(s, "after ToMarker")
		if tr.Crash > 0 {
			tee.crash = tee.n + tr.Crash
		}
		e := newEnv(budget)
		e.trace = newTrace()
		e.track = tee
		e.trackAll = t.Gram == ""
		res := e.soloRead(in, s, tr, true)
		o.addEnv(e)
		tee.crash = 0
		o.Hash.Int(tee.n)
		o.Hash.Str(res.String())
		if res.End == "" {
			tee.check(s, "at the end of the attempt")
		}
		total += tee.n
		if tee.bad != "" {
			what := t.Gram
			if t.Root != nil {
				what = t.Root.String()
			}
			return o.fail("tracker", fmt.Sprintf("attempt %d (%s) from %d on %q with %s: %s", i+1, res, at, text, what, tee.bad))
		}
	}
	if total < 2 {
		o.Trivial = true
	}
	return o
}

// ---------------------------------------------------------------------------
// C05

func init() {
	register(&Prop{
		ID: "C05", Quick: 450000, Thorough: 12000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(25) {
				name := r.Pick("json", "json", "mxt", "lua")
				t := &Task{Gram: name}
				for i := r.In(1, 3); i > 0; i-- {
					text := gramDoc(r, name, 40)
					tr := &Try{Input: BStr(text)}
					if r.P(50) {
						tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "crash", "crashafter"}, name, text)
					}
					t.Tries = append(t.Tries, tr)
				}
				return &Scenario{Kind: r.Pick("gram", "gram", "gram", "logs"), Tasks: []*Task{t}}
			}
			o := GenOpt{Faults: true, Refs: true, Mons: true, Picks: r.P(25), Maps: r.P(25)}
			t := genTree(r, o, r.In(1, 4), 60, 3, allFaults, false)
			return &Scenario{Kind: "tree", Tasks: []*Task{t}}
		},
		Run: runLogged,
		Rule: "A case is a sequence of attempts of a random tree with Monitor observers, or of a grammar with MonitorGrammar, on one Log under Reader failures, cancellation and crashes (the Log is Reset after a crash). " +
			"Every entry is compared with an independent recording of the monitored Read (begin, end, error, nesting), and the result of every attempt with the same attempt without any monitor. " +
			"Non-trivial: at least two entries; distinct by hash of tree, texts, faults and entries.",
		Real: realLib, Stub: stubUser,
	})
}

func runLogged(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	in := t.build(BuildOpt{Rec: true}, GramOpt{Rec: true, Faults: true, Mon: true})
	logs := []*tok.Log{in.log}
	if sc.Kind == "logs" {
		quiet(func() { logs = append(logs, tok.MonitorGrammar(in.gram)) })
	}
	bare := t.build(BuildOpt{}, GramOpt{Faults: true, Mon: true})
	var calls []*Call // monitored calls since the last Reset
	var base int
	for i, tr := range t.Tries {
		text := string(tr.Input)
		at := clampAt(tr.At, text)
		budget := uint64(gramBudget)
		what := t.Gram
		if t.Gram == "" {
			what = t.Root.String()
			m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
			if !m.Valid {
				return o.skip(m.Invalid)
			}
			budget = m.budget()
		}
		e := newEnv(budget)
		e.trace = newTrace()
		res := e.soloRead(in, newScanner(text, at), tr, true)
		o.addEnv(e)
		if res.End == "budget" {
			return o.skip("budget")
		}
		// without monitors
		in2 := t.build(BuildOpt{NoMon: true}, GramOpt{Faults: true})
		e2 := newEnv(budget)
		e2.trace = newTrace()
		res2 := e2.soloRead(in2, newScanner(text, at), tr, true)
		if res.String() != res2.String() {
			return o.fail("transparency", fmt.Sprintf("attempt %d on %q from %d with %s: with monitor %s, without %s", i+1, text, at, what, res, res2))
		}
		base = len(calls)
		for _, c := range e.trace.calls {
			if c.Kind == "mon-sub" {
				calls = append(calls, c)
			}
		}
		_ = base
		bad := ""
		quiet(func() {
			for _, l := range logs {
				if bad == "" {
					bad = diffLog(l, calls, e.trace.calls, base)
				}
			}
		})
		for _, c := range calls[base:] {
			o.Hash.Int(c.Enter)
			o.Hash.Int(c.Exit)
		}
		if bad != "" {
			return o.fail("log", fmt.Sprintf("attempt %d (%s) on %q from %d with %s: %s", i+1, res, text, at, what, bad))
		}
		// the same without the recording layers between the Readers
		e3 := newEnv(budget)
		e3.trace = newTrace()
		res3 := e3.soloRead(bare, newScanner(text, at), tr, true)
		if res.String() != res3.String() {
			return o.fail("log", fmt.Sprintf("attempt %d on %q from %d with %s: %s, with Readers of the user between: %s", i+1, text, at, what, res3, res))
		}
		quiet(func() { bad = sameLog(bare.log, in.log) })
		if bad != "" {
			return o.fail("log", fmt.Sprintf("attempt %d (%s) on %q from %d with %s: %s, with Readers of the user between", i+1, res, text, at, what, bad))
		}
		if res.End != "" {
			quiet(func() {
				bare.log.Reset()
				for _, l := range logs {
					l.Reset()
				}
			})
			calls = nil
		}
	}
	if len(calls) < 2 {
		o.Trivial = true
	}
	return o
}

func sameLog(a, b *tok.Log) string {
	if len(a.Entries) != len(b.Entries) {
		return fmt.Sprintf("%d entries, but %d", len(a.Entries), len(b.Entries))
	}
	for i, x := range a.Entries {
		y := b.Entries[i]
		if x.Info != y.Info || x.EnterAt != y.EnterAt || x.ExitAt != y.ExitAt || x.Level != y.Level || (x.Error == nil) != (y.Error == nil) {
			return fmt.Sprintf("entry %d is %q@%d-%d level %d error %v, but %q@%d-%d level %d error %v", i, x.Info, x.EnterAt, x.ExitAt, x.Level, x.Error, y.Info, y.EnterAt, y.ExitAt, y.Level, y.Error)
		}
	}
	return ""
}

func diffLog(l *tok.Log, calls []*Call, all []*Call, base int) string {
	if len(l.Entries) != len(calls) {
		return fmt.Sprintf("%d monitored Reads but %d entries", len(calls), len(l.Entries))
	}
	for i := range calls {
		c, en := calls[i], l.Entries[i]
		if en.Info != c.Rule || en.EnterAt != c.Enter {
			return fmt.Sprintf("entry %d is %q@%d, the Read was %q@%d", i, en.Info, en.EnterAt, c.Rule, c.Enter)
		}
		if i >= base {
			lev := 1
			for p := c.Parent; p >= 0; p = all[p].Parent {
				if all[p].Kind == "mon-sub" {
					lev++
				}
			}
			c.Level = lev
		}
		if en.Level != c.Level {
			return fmt.Sprintf("entry %d (%q@%d) has level %d, the Read was nested %d deep", i, en.Info, en.EnterAt, en.Level, c.Level)
		}
		if !c.Done {
			continue
		}
		if en.ExitAt != c.Exit {
			return fmt.Sprintf("entry %d (%q@%d) ends at %d, the Read ended at %d", i, en.Info, en.EnterAt, en.ExitAt, c.Exit)
		}
		if en.Error != c.Err {
			return fmt.Sprintf("entry %d (%q@%d) has error %v, the Read had %v", i, en.Info, en.EnterAt, en.Error, c.Err)
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// C11, C12, C14: local histories of single Readers

func init() {
	register(&Prop{
		ID: "C11", Quick: 1200000, Thorough: 24000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(20) {
				return genLong(r)
			}
			o := GenOpt{Faults: true, Refs: true, Janus: true}
			for {
				t := genTree(r, o, r.In(1, 4), 55, 3, allFaults, false)
				ends := 0
				t.Root.walk(func(n *Node) {
					if n.K == "jend" {
						ends++
					}
				})
				if ends > 0 || r.P(3) {
					return &Scenario{Tasks: []*Task{t}}
				}
			}
		},
		Run: func(sc *Scenario) *Outcome {
			if sc.Kind == "long" {
				return runLong(sc)
			}
			return runLocal(func(o *Outcome, t *Task, st *localState, tr *Trace) string { return st.checkJanus(o, tr) })(sc)
		},
		Rule: "A case is a sequence of up to four attempts of one random tree with Janus pairs under Reader failures, cancellation and crashes, or a sequence of damaged Lua long strings or comments read by one Reader. " +
			"Every Read of an end is compared with the text that the begin of its pair has read last. Non-trivial: at least one end was read after its begin; distinct by hash of tree, texts, faults and calls.",
		Real: realLib, Stub: stubUser,
	})
	register(&Prop{
		ID: "C12", Quick: 700000, Thorough: 14000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(20) {
				name := r.Pick("json", "mxt", "lua")
				t := &Task{Gram: name}
				for i := r.In(1, 2); i > 0; i-- {
					text := gramDoc(r, name, 40)
					tr := &Try{Input: BStr(text)}
					if r.P(60) {
						tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "crash", "crashafter"}, name, text)
					}
					t.Tries = append(t.Tries, tr)
				}
				return &Scenario{Tasks: []*Task{t}}
			}
			o := GenOpt{Faults: true, Refs: true, Maps: true}
			t := genTree(r, o, r.In(1, 3), 60, 3, allFaults, false)
			if r.P(15) {
				// a MapFunc that crashes
				t.Root.walk(func(n *Node) {
					if n.K == "map" && r.P(30) {
						x := t.Tries[r.N(len(t.Tries))]
						x.Faults = append(x.Faults, &Fault{Site: siteOf(n), Pos: -2, Kind: "crash"})
					}
				})
			}
			return &Scenario{Tasks: []*Task{t}}
		},
		Run: runLocal(func(o *Outcome, t *Task, st *localState, tr *Trace) string { return checkMaps(o, tr) }),
		Rule: "A case is a sequence of attempts of a random tree with Map observers, or of a grammar with a Map on every rule, under Reader failures, cancellation, crashes of Readers and of MapFuncs. " +
			"Every successful Read below a Map has to be followed by exactly one call with its Token, every other by none. Non-trivial: at least one notification; distinct by hash of tree, texts, faults and calls.",
		Real: realLib, Stub: stubUser,
	})
	register(&Prop{
		ID: "C14", Quick: 3750000, Thorough: 80000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(1) {
				name := r.Pick("json", "json", "mxt", "lua")
				text := gramDoc(r, name, 90)
				if len(text) > 3000 {
					text = text[:r.N(3000)]
				}
				tr := &Try{Input: BStr(text)}
				if r.P(30) {
					tr.Faults = gramFaults(r, 1, []string{"err", "errpart", "errafter", "cancel"}, name, text)
				}
				return &Scenario{Kind: "gram", Tasks: []*Task{{Gram: name, Tries: []*Try{tr}}}}
			}
			o := GenOpt{Faults: true, Refs: true, Maps: r.P(20), Mons: r.P(20), Picks: r.P(20)}
			t := genTree(r, o, 1, 60, 3, []string{"err", "errpart", "errafter", "errback", "cancel", "lie"}, false)
			return &Scenario{Tasks: []*Task{t}}
		},
		Run: func(sc *Scenario) *Outcome {
			if sc.Kind == "gram" {
				return gramErrors(sc)
			}
			return runErrors(sc)
		},
		Rule: "A case is one attempt of a random tree under Reader failures and cancellation, with every Read of every Reader recorded. " +
			"The error of each failed Read is compared with those of its sub Reads, with its start and with what it is described to read; that of a grammar on a damaged document has to tell the error of its rule. Non-trivial: at least one failed Read with sub Reads; distinct by hash of tree, text, faults and calls.",
		Real: realLib, Stub: stubUser,
	})
}

var runErrors = runLocal(func(o *Outcome, t *Task, st *localState, tr *Trace) string { return checkErrors(o, tr) })

type localState struct {
	exp map[int]string
	set map[int]bool
}

func runLocal(check func(*Outcome, *Task, *localState, *Trace) string) func(*Scenario) *Outcome {
	return func(sc *Scenario) *Outcome {
		o := newOutcome()
		o.Trivial = true
		t := sc.Tasks[0]
		o.addTask(t)
		in := t.build(BuildOpt{Rec: true}, GramOpt{Rec: true, Faults: true, Maps: true})
		bare := t.build(BuildOpt{}, GramOpt{Faults: true, Maps: true})
		st := &localState{map[int]string{}, map[int]bool{}}
		janus := map[int]string{}
		for i, tr := range t.Tries {
			text := string(tr.Input)
			at := clampAt(tr.At, text)
			budget := uint64(gramBudget)
			what := t.Gram
			if t.Gram == "" {
				what = t.Root.String()
				m := runModel(t.Root, t.Rules, text, at, tr.Faults, janus, nil)
				if !m.Valid {
					return o.skip(m.Invalid)
				}
				budget = m.budget()
			}
			e := newEnv(budget)
			e.trace = newTrace()
			res := e.soloRead(in, newScanner(text, at), tr, true)
			o.addEnv(e)
			o.Hash.Int(int(e.trace.h))
			if res.End == "budget" {
				return o.skip("budget")
			}
			bad := ""
			quiet(func() { bad = check(o, t, st, e.trace) })
			if bad != "" {
				return o.fail("history", fmt.Sprintf("attempt %d (%s) on %q from %d with %s: %s", i+1, res, text, at, what, bad))
			}
			// the same without the recording layers between the Readers
			e2 := newEnv(budget)
			e2.trace = newTrace()
			res2 := e2.soloRead(bare, newScanner(text, at), tr, true)
			if a, b := res.String(), res2.String(); a != b {
				return o.fail("history", fmt.Sprintf("attempt %d on %q from %d with %s: %s, with Readers of the user between: %s", i+1, text, at, what, b, a))
			}
			if len(e.trace.maps) != len(e2.trace.maps) {
				return o.fail("history", fmt.Sprintf("attempt %d (%s) on %q from %d with %s: Maps were called %d times, with Readers of the user between %d times", i+1, res, text, at, what, len(e2.trace.maps), len(e.trace.maps)))
			}
			for k, m := range e2.trace.maps {
				if w := e.trace.maps[k]; w.Site != m.Site || w.Token != m.Token {
					return o.fail("history", fmt.Sprintf("attempt %d (%s) on %q from %d with %s: call %d of a Map was %s with %s, with Readers of the user between %s with %s", i+1, res, text, at, what, k+1, m.Site, m.Token, w.Site, w.Token))
				}
			}
		}
		return o
	}
}

func (st *localState) checkJanus(o *Outcome, t *Trace) string {
	for _, i := range t.exits {
		c := t.calls[i]
		switch c.Kind {
		case "jbeg":
			if c.OK() {
				st.exp[c.Node.N] = c.Text
				st.set[c.Node.N] = true
				o.probe("begin read nothing", c.Text == "")
			}
		case "jend":
			exp := st.exp[c.Node.N]
			if st.set[c.Node.N] {
				o.Trivial = false
			}
			o.probe("end matched its text", c.OK() && exp != "")
			o.probe("end refused other text", !c.OK())
			match := strings.HasPrefix(c.Tail, exp)
			if c.OK() != match {
				return fmt.Sprintf("the begin of pair %d has read %q, the end at %d in front of %q returned %v", c.Node.N, exp, c.Enter, c.Tail, c.Err)
			}
			if c.OK() && c.Exit != c.Enter+len(exp) {
				return fmt.Sprintf("the end of pair %d read %d bytes for %q", c.Node.N, c.Exit-c.Enter, exp)
			}
			if !c.OK() && c.Exit != c.Enter {
				return fmt.Sprintf("the end of pair %d failed but moved from %d to %d", c.Node.N, c.Enter, c.Exit)
			}
		}
	}
	return ""
}

// mapsOf is the number of Maps of a node that lie right above each other.
func mapsOf(n *Node) int {
	if n.K == "map" {
		return 1 + n.M
	}
	return 1 + strings.Count(string(n.S2), "F")
}

func checkMaps(o *Outcome, t *Trace) string {
	got := map[int][]MapEv{}
	for _, m := range t.maps {
		got[m.After] = append(got[m.After], m)
	}
	for x, i := range t.exits {
		c := t.calls[i]
		ms := got[x+1]
		delete(got, x+1)
		if c.Kind != "map-sub" {
			if len(ms) > 0 {
				return fmt.Sprintf("a Map of %s was called with %s after a Read of another Reader (%s at %d)", ms[0].Site, ms[0].Token, c.Kind, c.Enter)
			}
			continue
		}
		if !c.OK() {
			if len(ms) > 0 {
				return fmt.Sprintf("Map was called with %s after the failed Read at %d", ms[0].Token, c.Enter)
			}
			continue
		}
		o.Trivial = false
		n := mapsOf(c.Node)
		if t.mapCrash == siteOf(c.Node) {
			n = 1 // the first call of a Map that crashes is the last one
		}
		if len(ms) != n {
			if n == 1 {
				return fmt.Sprintf("Map was called %d times for the Read of [%d-%d)", len(ms), c.Enter, c.Exit)
			}
			return fmt.Sprintf("%d Maps were called %d times for the Read of [%d-%d)", n, len(ms), c.Enter, c.Exit)
		}
		want := tok.MakeToken(tok.Marker(c.Enter), tok.Marker(c.Exit))
		for _, m := range ms {
			if m.Token != want || m.Site != siteOf(c.Node) {
				return fmt.Sprintf("Map was called with %s for the Read of %s", m.Token, want)
			}
		}
	}
	if len(got) > 0 {
		return fmt.Sprintf("%d calls of a Map without a Read", len(got))
	}
	return ""
}

var leafSet = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range leafKinds {
		m[k] = true
	}
	return m
}()

// misused tells if a leaf was built from invalid parameters: its error needs
// no position.
func misused(n *Node) bool {
	return n != nil && (n.K == "inv" || n.K == "bool" && n.S == "x" || (n.K == "int" || n.K == "uint") && !numArgs(n))
}

// reason is what the error of a failed call has to name, if that is defined.
func reason(t *Trace, c *Call, desc map[*Node]string) (string, bool) {
	n := c.Node
	switch c.Kind {
	case "bool":
		return "bool", true
	case "int":
		return "integer", true
	case "uint":
		return "unsigned integer", true
	case "nl", "anyfold":
		return "", false
	case "not":
		if k := len(c.Kids); k > 0 && t.calls[c.Kids[k-1]].Err == nil {
			n = n.Kids[0]
		}
	}
	s, ok := desc[n]
	if !ok {
		s = describe(n)
		desc[n] = s
	}
	return s, true
}

var numbers = regexp.MustCompile("[0-9]+")

// errorText tells what is wrong with the text of an error of a Reader.
func errorText(e tok.ReadError) string {
	s := e.Error()
	i := strings.Index(s, e.What)
	if i < 0 {
		return fmt.Sprintf("the error %q does not tell that it failed to read %q", s, e.What)
	}
	l := numbers.FindAllString(s[:i]+"|"+s[i+len(e.What):], -1)
	if len(l) != 1 || l[0] != fmt.Sprint(int(e.Marker)) {
		return fmt.Sprintf("the error %q does not tell the position %d", s, int(e.Marker))
	}
	return ""
}

// gramErrors compares the error of a grammar with that of its first rule.
func gramErrors(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	tr := t.Tries[0]
	text := string(tr.Input)
	run := func(entry bool) Res {
		in := buildGram(t.Gram, GramOpt{Faults: true})
		if entry {
			switch g := in.gram.(type) {
			case *grammar.JSONReader:
				in.root = &g.Element
			case *grammar.MXTReader:
				in.root = &g.Chunks
			case *grammar.LuaReader:
				in.root = &g.Chunk
			}
		}
		e := newEnv(gramBudget)
		e.trace = newTrace()
		res := e.soloRead(in, newScanner(text, 0), tr, true)
		o.addEnv(e)
		return res
	}
	a, b := run(false), run(true)
	o.Trivial = a.ok()
	o.Hash.Str(a.String())
	bad := ""
	quiet(func() {
		switch {
		case a.End != "" || b.End != "":
		case (a.Err == nil) != (b.Err == nil):
			bad = fmt.Sprintf("the grammar ended with %v, its rule with %v", a.Err, b.Err)
		case a.Err != nil && !strings.Contains(a.Err.Error(), b.Err.Error()):
			bad = fmt.Sprintf("the grammar failed with %q, its rule with %q", a.Err, b.Err)
		case b.Err != nil:
			if re, ok := b.Err.(tok.ReadError); ok {
				bad = errorText(re)
			}
		}
	})
	if bad != "" {
		return o.fail("grammar", fmt.Sprintf("%s on %q: %s", t.Gram, text, bad))
	}
	return o
}

func checkErrors(o *Outcome, t *Trace) string {
	desc := map[*Node]string{}
	for _, i := range t.exits {
		c := t.calls[i]
		if c.Err == nil {
			continue
		}
		var last *Call
		for _, k := range c.Kids {
			last = t.calls[k]
		}
		re, isRE := c.Err.(tok.ReadError)
		where := fmt.Sprintf("%s#%d at %d", c.Kind, c.ID, c.Enter)
		if len(c.Kids) > 0 {
			o.Trivial = false
		}
		if isRE && c.Parent < 0 {
			if bad := errorText(re); bad != "" {
				return bad
			}
		}
		switch c.Kind {
		case "seq", "skipseq", "skipws", "times", "at", "named", "rule", "map", "pick", "mon", "map-sub", "pick-sub", "mon-sub", "ref", "jbeg":
			if last == nil {
				if c.Kind == "times" || c.Kind == "seq" {
					return fmt.Sprintf("%s failed with %v although no sub Reader failed", where, c.Err)
				}
				continue
			}
			if last.Err != c.Err {
				return fmt.Sprintf("%s failed with %v, the failing sub Reader with %v", where, c.Err, last.Err)
			}
		case "any":
			deep := -1
			ok := false
			for _, k := range c.Kids {
				if e, is := t.calls[k].Err.(tok.ReadError); is {
					if int(e.Marker) > deep {
						deep = int(e.Marker)
						ok = false
					}
					if int(e.Marker) == deep && e == re {
						ok = true
					}
				}
			}
			o.probe("alternatives failed at different depths", deep > c.Enter)
			if deep >= 0 && (!isRE || !ok) {
				return fmt.Sprintf("%s failed with %v, the deepest failure of its alternatives was at %d", where, c.Err, deep)
			}
		case "many", "to", "past", "body", "bodytail", "not":
			if !isRE || int(re.Marker) != c.Enter {
				return fmt.Sprintf("%s failed with %v", where, c.Err)
			}
			if want, ok := reason(t, c, desc); ok && re.What != want {
				return fmt.Sprintf("%s failed with %v, it could not read %s", where, c.Err, want)
			}
		case "opt", "zom":
			return fmt.Sprintf("%s failed with %v", where, c.Err)
		default:
			if misused(c.Node) {
				continue
			}
			if leafSet[c.Kind] && (!isRE || int(re.Marker) != c.Enter) {
				return fmt.Sprintf("%s failed with %v", where, c.Err)
			}
			if leafSet[c.Kind] {
				if want, ok := reason(t, c, desc); ok && re.What != want {
					return fmt.Sprintf("%s failed with %v, it could not read %s", where, c.Err, want)
				}
			}
		}
	}
	return ""
}
