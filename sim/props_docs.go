package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ---------------------------------------------------------------------------
// Documents that went through a bad disk or network before they are read

// badDoc damages a document; old is what was in its place before.
func badDoc(r *Rng, text, old string, alpha []rune, log *[]string) string {
	for n := r.In(1, 2); n > 0; n-- {
		switch r.N(6) {
		case 0:
			// torn write over the old content
			i := r.N(len(text) + 1)
			if i < len(old) {
				text = text[:i] + old[i:]
				*log = append(*log, "doc-stale-tail")
				continue
			}
			text = text[:i]
			*log = append(*log, "doc-torn")
		case 1:
			i := r.N(len(text) + 1)
			text = text[:i]
			*log = append(*log, "doc-torn")
		case 2:
			text += old
			*log = append(*log, "doc-appended")
		case 3:
			if len(text) > 0 {
				i := r.N(len(text))
				j := i + 1 + r.N(12)
				if j > len(text) {
					j = len(text)
				}
				text = text[:i] + strings.Repeat("\x00", j-i) + text[j:]
				*log = append(*log, "doc-zeroed")
			}
		default:
			l := []string{}
			text = damage(r, text, alpha, 1, &l)
			for _, k := range l {
				*log = append(*log, "doc-"+k)
			}
		}
	}
	return text
}

func genDocs(r *Rng, name string, max int) *Task {
	t := &Task{Gram: name}
	old := gramDoc(r, name, 0)
	al := jsonAlpha
	if name == "mxt" {
		al = mxtAlpha
	}
	for i := r.In(1, max); i > 0; i-- {
		tr := &Try{}
		text := gramDoc(r, name, 0)
		good := text
		if name == "json" && r.N(3000) == 0 {
			text = deepJSON(r)
			good = "[]"
		}
		if r.P(15) {
			text = dialect(r, name, text)
			tr.Doc = append(tr.Doc, "doc-dialect")
		} else if r.P(75) {
			text = badDoc(r, text, old, al, &tr.Doc)
		}
		old = good
		tr.Input = BStr(text)
		if r.P(15) {
			tr.Faults = gramFaults(r, 1, []string{"crash", "crashpart", "crashafter", "cancel", "stall"}, name, text)
		}
		t.Tries = append(t.Tries, tr)
	}
	return t
}

// disturbed tells if a fault of a Reader may have changed the result.
func (t *Try) disturbed() bool {
	for _, f := range t.Faults {
		if f.Kind != "stall" {
			return true
		}
	}
	return false
}

// docTasks runs the attempts of all tasks under the schedule and hands each
// undisturbed one to check.
func docTasks(sc *Scenario, o *Outcome, in func(i int) *Inst, before func(i int, in *Inst, s *tok.Scanner), check func(i int, in *Inst, tr *Try, s *tok.Scanner, res Res) string) *Outcome {
	envs := []*Env{}
	fns := []func(*Env){}
	bad := make([]string, len(sc.Tasks))
	for i, t := range sc.Tasks {
		i, t := i, t
		o.addTask(t)
		inst := in(i)
		envs = append(envs, newEnv(gramBudget))
		fns = append(fns, func(e *Env) {
			for k, tr := range t.Tries {
				for _, d := range tr.Doc {
					e.hit(d)
				}
				s := newScanner(string(tr.Input), 0)
				if before != nil {
					quiet(func() { before(i, inst, s) })
				}
				res := e.read(inst, s, tr, true)
				str := ""
				quiet(func() {
					o.Hash.Str(res.String())
					if !tr.disturbed() && res.End != "budget" {
						str = check(i, inst, tr, s, res)
					}
				})
				if str != "" && bad[i] == "" {
					bad[i] = fmt.Sprintf("task %d, attempt %d, document %q: %s", i, k+1, string(tr.Input), str)
					return
				}
			}
		})
	}
	s := runTasks(sc.Sched, envs, fns)
	o.Switch, o.Pairs = s.record, s.pairs
	for _, e := range envs {
		o.addEnv(e)
	}
	for _, sw := range s.record {
		o.Hash.Int(int(sw.At))
		o.Hash.Int(sw.To)
	}
	for _, b := range bad {
		if b != "" {
			return o.fail("document", b)
		}
	}
	return o
}

// ---------------------------------------------------------------------------
// C15: JSON

func init() {
	register(&Prop{
		ID: "C15", Quick: 500000, Thorough: 10000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: genSched(r)}
			n := 1
			if r.P(40) {
				n = r.In(2, 3)
			}
			for ; n > 0; n-- {
				sc.Tasks = append(sc.Tasks, genDocs(r, "json", 3))
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			o.Trivial = true
			one := buildGram("json", GramOpt{Faults: true})
			return docTasks(sc, o, func(int) *Inst { return one }, nil, func(i int, in *Inst, tr *Try, s *tok.Scanner, res Res) string {
				text := string(tr.Input)
				want := json.Valid([]byte(text))
				got := res.ok() && res.Pos == len(text)
				if len(text) > 1 {
					o.Trivial = false
				}
				o.probe("valid document", want)
				o.probe("damaged document refused", !want && len(tr.Doc) > 0)
				o.probe("damaged document still valid", want && len(tr.Doc) > 0)
				o.probe("prefix read", res.ok() && !got)
				switch {
				case res.End != "":
					return "ended in a " + res.End
				case got && !want:
					return "accepted, but it is no JSON document"
				case !got && want:
					return fmt.Sprintf("not accepted (%s), but it is a JSON document", res)
				case res.ok() && !json.Valid([]byte(text[:res.Pos])):
					return fmt.Sprintf("%q was accepted as JSON value", text[:res.Pos])
				case !res.ok() && res.Pos != 0:
					return fmt.Sprintf("the failed read left the Scanner at %d", res.Pos)
				}
				return ""
			})
		},
		Rule: "A case is one to three tasks that share one JSON grammar under statement level preemption; each reads up to three documents that were torn, overwritten only in part, zeroed, concatenated, bit flipped, reordered or duplicated in parts, some of the attempts crash or are cancelled inside. " +
			"For every attempt that was not disturbed itself the verdict (read and at the end) has to be that of an independent JSON validator (encoding/json). Non-trivial: a document of at least two bytes was decided; distinct by hash of documents, faults, schedule and results.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)", "storage of the documents (simulated, with torn, stale, lost and corrupted writes)"}, stubUser...),
	})

	// -----------------------------------------------------------------------
	// C16: MXT
	register(&Prop{
		ID: "C16", Quick: 160000, Thorough: 3200000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: genSched(r)}
			n := 1
			if r.P(30) {
				n = 2
			}
			for ; n > 0; n-- {
				sc.Tasks = append(sc.Tasks, genDocs(r, "mxt", 3))
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			o.Trivial = true
			build := func(int) *Inst {
				in := buildGram("mxt", GramOpt{Faults: true})
				g := in.gram.(*grammar.MXTReader)
				quiet(func() { in.basket.PickWith(&g.Name, &g.Salt, &g.Content) })
				return in
			}
			before := func(i int, in *Inst, s *tok.Scanner) {
				s.Tracker = in.basket
				*in.basket = tok.Basket{}
			}
			return docTasks(sc, o, build, before, func(i int, in *Inst, tr *Try, s *tok.Scanner, res Res) string {
				text := string(tr.Input)
				want, end, ok := refMXT(text)
				if len(want) > 0 {
					o.Trivial = false
				}
				o.probe("several chunks", len(want) > 4)
				o.probe("damaged document read in part", ok && end < len(text))
				o.probe("document refused", !ok)
				if res.End != "" {
					return "ended in a " + res.End
				}
				if res.ok() != ok || ok && res.Pos != end {
					return fmt.Sprintf("%s, expected %v at %d", res, ok, end)
				}
				if !ok {
					if res.Pos != 0 {
						return fmt.Sprintf("the failed read left the Scanner at %d", res.Pos)
					}
					want = nil
				}
				if got := segString(noZeros(basketSegs(in.basket))); got != segString(want) {
					return fmt.Sprintf("picked %s, the chunks are %s", got, segString(want))
				}
				return ""
			})
		},
		Rule: "A case is one or two tasks, each with an MXT grammar and a Basket of its own under statement level preemption; each reads up to three documents one after the other that were torn, overwritten only in part, zeroed, concatenated, bit flipped, reordered or duplicated in parts, some of the attempts crash or are cancelled inside. " +
			"For every attempt that was not disturbed itself name, salt and content of all chunks and the end are compared with a reference reader. Non-trivial: at least one chunk; distinct by hash of documents, faults, schedule and results.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)", "storage of the documents (simulated, with torn, stale, lost and corrupted writes)"}, stubUser...),
	})

	// -----------------------------------------------------------------------
	// C17: from the text to the graph
	register(&Prop{
		ID: "C17", Quick: 1200000, Thorough: 24000000,
		Gen: func(r *Rng, th bool) *Scenario {
			if r.P(20) {
				return genCut(r)
			}
			if r.P(55) {
				t := &Task{Gram: "json"}
				text := gramDoc(r, "json", 20)
				if len(text) > 6000 {
					// a graph of that many picks takes too long
					text = jsonDoc(r)
				}
				tr := &Try{Input: BStr(text)}
				if r.P(50) {
					tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "lie"}, "json", text)
				}
				t.Tries = []*Try{tr}
				return &Scenario{Kind: "gram", Tasks: []*Task{t}}
			}
			o := GenOpt{NoGiant: true, Faults: true, Refs: true, Picks: true, Wide: r.P(50), Long: r.P(50)}
			t := genTree(r, o, 1, 50, 2, []string{"err", "errpart", "errafter", "lie"}, false)
			return &Scenario{Kind: "tree", Tasks: []*Task{t}}
		},
		Run: func(sc *Scenario) *Outcome {
			if sc.Kind == "cut" {
				return runCut(sc)
			}
			return runNesting(sc)
		},
		Rule: "A case is a JSON document (damaged or not) read with NewBasketFor, or a random tree with Pick observers, while Readers fail at chosen positions and the failures are absorbed or not. " +
			"The non-empty picks are delivered to BuildGraph: every one has to be accepted and the Graph has to be nested like the reads were. Its leafs are handed to Segmentate: the pieces have to be the text again, in order and without a gap. " +
			"Or a case is a list of segments delivered to Segmentate of a text or a part of it with reordered, duplicated, overlapping and outside segments: it has to be refused exactly if a segment does not lie in the rest behind the one before. " +
			"Non-trivial: at least two picks; distinct by hash of tree, text, faults and graph.",
		Real: realLib, Stub: stubUser,
	})
}

// refMXT reads an MXT document. It returns name, salt and content of all
// chunks as far as they are not empty, the end and if there is a chunk at all.
func refMXT(t string) ([]PickEv, int, bool) {
	var res []PickEv
	n := len(t)
	word := func(i int) int {
		for i < n && t[i] >= 0x21 {
			i++
		}
		return i
	}
	blanks := func(i int) int {
		for i < n && t[i] == ' ' {
			i++
		}
		return i
	}
	nl := func(i int) int {
		if strings.HasPrefix(t[i:], "\n") {
			return i + 1
		}
		if strings.HasPrefix(t[i:], "\r\n") {
			return i + 2
		}
		return -1
	}
	add := func(l *[]PickEv, info string, a, b int) {
		if a < b {
			*l = append(*l, PickEv{info, a, b})
		}
	}
	chunk := func(i int) (int, []PickEv) {
		l := []PickEv{}
		if !strings.HasPrefix(t[i:], "//") {
			return -1, nil
		}
		a := word(i + 2)
		b := blanks(a)
		c := word(b)
		if a == b || b == c {
			return -1, nil
		}
		add(&l, "name", b, c)
		k := strings.Index(t[c:], "-->")
		if k < 0 {
			return -1, nil
		}
		p := c + k + 3
		salt := ""
		if q := blanks(p); q > p {
			e := word(q)
			salt = t[q:e]
			e = blanks(e)
			add(&l, "salt", p, e)
			p = e
		} else if p < n && nl(p) < 0 {
			return -1, nil
		}
		mark := func(i int) bool {
			j := nl(i)
			return j >= 0 && strings.HasPrefix(t[j:], "//"+salt)
		}
		if p == n || mark(p) {
			return p, l
		}
		if p = nl(p); p < 0 {
			return -1, nil
		}
		e := p
		for e < n && !mark(e) {
			e++
		}
		add(&l, "content", p, e)
		return e, l
	}
	p, l := chunk(0)
	if p < 0 {
		return nil, 0, false
	}
	res = append(res, l...)
	for p < n {
		j := nl(p)
		if j < 0 {
			break
		}
		q, l := chunk(j)
		if q < 0 {
			break
		}
		res = append(res, l...)
		p = q
	}
	return res, p, true
}

func runNesting(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	o.addTask(t)
	tr := t.Tries[0]
	text := string(tr.Input)
	at := clampAt(tr.At, text)
	budget := uint64(gramBudget)
	what := t.Gram
	var model []PickEv
	modelOK := false
	if t.Gram == "" {
		what = t.Root.String()
		m := runModel(t.Root, t.Rules, text, at, tr.Faults, nil, nil)
		if !m.Valid {
			return o.skip(m.Invalid)
		}
		budget, model, modelOK = m.budget(), m.Picks, m.OK
	}
	s := newScanner(text, at)
	var b *tok.Basket
	if t.Gram == "" {
		quiet(func() { b = s.NewBasket() })
	}
	in := t.build(BuildOpt{Rec: true, Basket: b}, GramOpt{Rec: true, Faults: true, PickSub: true})
	if t.Gram != "" {
		quiet(func() { in.basket = s.NewBasketFor(in.gram) })
	}
	e := newEnv(budget)
	e.trace = newTrace()
	e.trace.sampling = t.Gram != ""
	e.trace.last = at
	res := e.soloRead(in, s, tr, true)
	o.addEnv(e)
	if res.End != "" {
		return o.skip(res.End)
	}
	picks := noZeros(basketSegs(in.basket))
	if len(picks) < 2 {
		o.Trivial = true
	}
	read := model
	if t.Gram != "" {
		e.trace.onPos(mark(s))
		read = e.trace.shadow
	} else if res.ok() != modelOK {
		return o.skip("outcome differs from the model")
	}
	want := ""
	if res.ok() {
		want = nested(read)
	}
	// the graph of the picks
	bad := ""
	end := solo(newEnv(5000000+5000*uint64(len(picks)*len(picks))), func() {
		l := []tok.Segment{}
		for _, p := range picks {
			l = append(l, tok.Segment{Info: p.Info, Token: tok.MakeToken(tok.Marker(p.From), tok.Marker(p.To))})
		}
		g := tok.BuildGraph("root", l)
		got := ""
		quiet(func() {
			var b strings.Builder
			for _, n := range g.Root.Nodes {
				nodeText(&b, n, 0)
			}
			got = b.String()
		})
		if got != want {
			bad = fmt.Sprintf("the graph is %s, read was %s", got, want)
			return
		}
		if len(l) == 0 {
			return
		}
		leafs := g.Leafs()
		parts, err := s.Segmentate(leafs)
		if err != nil {
			bad = fmt.Sprintf("the leafs do not segmentate the text: %v", err)
			return
		}
		all := ""
		p := 0
		for _, x := range parts {
			f, to := tokSpan(x.Token)
			if f != p {
				bad = fmt.Sprintf("the part %s does not follow %d", x, p)
				return
			}
			p = to
			all += s.Get(x.Token)
		}
		if all != text {
			bad = fmt.Sprintf("the parts are together %q", all)
			return
		}
		n := 0
		for _, x := range parts {
			if n < len(leafs) && x == leafs[n] {
				n++
			} else if x.Info != "" {
				bad = fmt.Sprintf("the part %s is not one of the leafs", x)
				return
			}
		}
		if n != len(leafs) {
			bad = fmt.Sprintf("the leaf %s is not among the parts", leafs[n])
		}
	})
	o.Hash.Str(want)
	if bad == "" && end != "" {
		bad = "ended in a " + end
	}
	if bad != "" {
		return o.fail("nesting", fmt.Sprintf("%s on %q from %d with %s: %s", res, text, at, what, bad))
	}
	return o
}

// nested renders reads that were recorded at their ends.
func nested(l []PickEv) string {
	type part struct {
		from int
		text string
	}
	st := []part{}
	for _, p := range l {
		if p.From == p.To {
			continue
		}
		sub := ""
		n := len(st)
		for n > 0 && st[n-1].from >= p.From {
			n--
			sub = st[n].text + sub
		}
		st = append(st[:n], part{p.From, fmt.Sprintf("%s[%d-%d)(%s)", p.Info, p.From, p.To, sub)})
	}
	all := ""
	for _, x := range st {
		all += x.text
	}
	return all
}
