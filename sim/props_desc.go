package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C22: descriptions of readers and grammars

func descRune(c rune) string { return strings.Trim(strconv.QuoteRuneToGraphic(c), "'") }

func descStr(s BStr) string { return strconv.QuoteToGraphic(string(s)) }

func descRange(a, b rune) string {
	if a == b {
		return strconv.QuoteRuneToGraphic(a)
	}
	return "<" + descRune(a) + descRune(b) + ">"
}

func descRanges(pairs []rune, singles BStr) string {
	s := "[<"
	for i := 0; i+1 < len(pairs); i += 2 {
		s += " " + descRune(pairs[i]) + descRune(pairs[i+1])
	}
	if singles != "" {
		s += " " + descStr(singles)
	}
	return s + " >]"
}

// describe is the description that the Reader of n has to have; hidden says
// that an invalid Reader cannot be seen.
func describe(n *Node) string {
	kid := func(i int) string {
		if i < len(n.Kids) {
			return describe(n.Kids[i])
		}
		return `""`
	}
	kids := func(from int) string {
		l := []string{}
		for i := from; i < len(n.Kids); i++ {
			l = append(l, kid(i))
		}
		return strings.Join(l, " ")
	}
	skip := func(what string, from int) string {
		if s := kids(from); s != "" || from < len(n.Kids) {
			return "(>" + what + "> " + s + " )"
		}
		return "(>" + what + "> )"
	}
	triples := func(s BStr) []rune {
		l := []rune{}
		for i, c := range []rune(string(s)) {
			if i%3 != 1 {
				l = append(l, c)
			}
		}
		return l
	}
	switch n.K {
	case "lit":
		return descStr(n.S)
	case "rune":
		return strconv.QuoteRuneToGraphic(rune(n.N))
	case "anyrune":
		return "[" + descStr(n.S) + "]"
	case "between":
		return descRange(rune(n.N), rune(n.M))
	case "betweenany":
		return descRanges(triples(n.S), "")
	case "set":
		return descRanges(triples(n.S), n.S2)
	case "bbany":
		return descRanges([]rune(string(n.S)), "")
	case "digit":
		return "<09>"
	case "hex":
		return "[< 09 af AF >]"
	case "holey":
		return "(" + descRange(rune(n.N), rune(n.M)) + " - " + descStr(n.S) + ")"
	case "fold":
		return "~" + descStr(n.S)
	case "match":
		return string(n.S)
	case "ws":
		return `[" \r\n\t"]`
	case "nl":
		return `[ "\n" "\r\n" ]`
	case "bool":
		return "bool{" + descStr(n.S) + "}"
	case "int", "uint":
		return n.K + "{" + strconv.Itoa(n.N) + "," + strconv.Itoa(n.M) + "}"
	case "atend":
		return "@END"
	case "inv":
		s := ""
		quiet(func() { s = invalids[n.N%len(invalids)]().What() })
		return s
	case "any":
		return "[ " + kids(0) + " ]"
	case "anyfold":
		l := []string{}
		for _, s := range n.L {
			l = append(l, "~"+descStr(s))
		}
		return "[ " + strings.Join(l, " ") + " ]"
	case "at":
		return "@" + kid(0)
	case "body":
		return "-(" + kid(0) + "-" + kid(1) + ")-"
	case "bodytail":
		return "-(" + kid(0) + "-+" + kid(1) + ")-"
	case "many":
		return "+" + kid(0)
	case "zom":
		return "*" + kid(0)
	case "opt":
		return "?" + kid(0)
	case "to":
		return "->" + kid(0)
	case "past":
		return "-->" + kid(0)
	case "not":
		return "!" + kid(0)
	case "named":
		return "named"
	case "seq":
		return kids(0)
	case "skipseq":
		return skip(kid(0), 1)
	case "skipws":
		return skip(`*[" \r\n\t"]`, 0)
	case "times":
		return strconv.Itoa(n.N) + "*" + kid(0)
	case "map", "pick", "mon":
		return kid(0)
	case "rule":
		return string(n.S)
	case "ref":
		return "R" + strconv.Itoa(n.N)
	case "jbeg":
		return "$j<" + kid(0)
	case "jend":
		return "$j"
	case "flt":
		if n.M == 1 {
			return "flt"
		}
		return kid(0)
	}
	panic("unknown node kind " + n.K)
}

// shown tells if an invalid Reader is part of the description.
func shown(n *Node) bool {
	switch n.K {
	case "inv":
		return true
	case "named", "rule", "ref":
		return false
	case "flt":
		if n.M == 1 {
			return false
		}
	}
	for _, k := range n.Kids {
		if shown(k) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------

// descGram is a grammar of the user.
type descGram struct {
	First  tok.Rule `name:"first"`
	note   string
	Ignore tok.Reader
	Second tok.Rule `name:"num-2"`
	hidden map[string]int
	Third  tok.Rule
	Fourth tok.Rule `json:"x" name:"a.b_c+d"`
	Other  *tok.Rule
	last   tok.Rule `name:"last"`
}

func (g *descGram) Read(s *tok.Scanner) error { return g.First.Read(s) }
func (g *descGram) What() string              { return "desc" }
func (g *descGram) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// badGram has a name that is not valid.
type badGram struct {
	First  tok.Rule `name:"first"`
	Second tok.Rule `name:"2nd"`
}

func (g *badGram) Read(s *tok.Scanner) error { return g.First.Read(s) }
func (g *badGram) What() string              { return "bad" }
func (g *badGram) Grammar() []*tok.Rule      { return tok.CollectRules(g) }

// listGram is a grammar with any rules.
type listGram struct{ rules []*tok.Rule }

func (g *listGram) Read(s *tok.Scanner) error { return nil }
func (g *listGram) What() string              { return "list" }
func (g *listGram) Grammar() []*tok.Rule      { return g.rules }

var ruleName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+\-._]*$`)

func genName(r *Rng) string {
	s := ""
	if r.P(90) {
		s = r.Pick("a", "Z", "q", "rule", "Exp")
	}
	for i := r.N(5); i > 0; i-- {
		s += r.Pick("a", "B", "7", "+", "-", ".", "_", "x9")
	}
	if r.P(40) {
		i := r.N(len(s) + 1)
		s = s[:i] + r.Pick(" ", ":", "é", "\n", "0", "-", string(anyRune(r)), "\xff", "") + s[i:]
	}
	return s
}

// Desc is the state of a task that describes.
type Desc struct {
	e    *Env
	in   *Inst
	root string
	list []string
	inv  bool
	bad  string
	n    int
}

func (d *Desc) fail(format string, a ...interface{}) {
	if d.bad == "" {
		d.bad = fmt.Sprintf(format, a...)
	}
}

// ask describes everything and compares.
func (d *Desc) ask(when string) {
	root := d.in.root.What()
	has := tok.HasInvalidReader(root)
	rules := d.in.rules
	if d.in.gram != nil {
		rules = d.in.gram.Grammar()
	}
	lines := tok.GrammarLines(rules)
	any := tok.AnyHasInvalidReader(lines)
	quiet(func() {
		d.n++
		want := false
		for _, l := range d.list {
			want = want || strings.Contains(l, tok.InvalidReaderMarker)
		}
		switch {
		case root != d.root:
			d.fail("%s the description is %q, expected %q", when, root, d.root)
		case has != d.inv:
			d.fail("%s an invalid reader is reported: %v, expected %v, in %q", when, has, d.inv, root)
		case !reflect.DeepEqual(lines, d.list):
			d.fail("%s the rules are described as %q, expected %q", when, lines, d.list)
		case any != want:
			d.fail("%s an invalid reader in a rule is reported: %v, expected %v, in %q", when, any, want, lines)
		}
	})
}

// op is a call around the rules.
func (d *Desc) op(o *Op) {
	switch o.K {
	case "name":
		name := string(o.S)
		err := tok.CheckRuleName(name)
		quiet(func() {
			if ok := ruleName.MatchString(name); (err == nil) != ok {
				d.fail("the check of the rule name %q gives %v", name, err)
			}
		})
		if err == nil {
			// it can be found in the line of the rule
			r := tok.Rule{Name: name, Reader: tok.WS()}
			s := tok.NewScanner(r.Rule())
			got, err := s.TraceUse(tok.RuleName())
			if err != nil || got != name {
				quiet(func() { d.fail("the name %q is read back from %q as %q, %v", name, r.Rule(), got, err) })
			}
		}
	case "rules":
		g := &listGram{}
		want := true
		for i, l := range o.L {
			r := &tok.Rule{Name: string(l), Reader: tok.WS()}
			quiet(func() { want = want && ruleName.MatchString(string(l)) })
			if i == o.N {
				r.Reader = nil
				want = false
			}
			g.rules = append(g.rules, r)
		}
		err := tok.CheckRules(g)
		end := guard(func() { tok.MustCheckRules(g) })
		quiet(func() {
			if (err == nil) != want || (end == "") != want {
				d.fail("the check of the rules %q (without Reader: %d) gives %v, %q", o.L, o.N, err, end)
			}
		})
	case "collect":
		g := &descGram{}
		bad := &badGram{}
		var err, err2 error
		var rules []*tok.Rule
		end := guard(func() {
			err = tok.SetRuleNames(g)
			tok.MustSetRuleNames(g)
			rules = g.Grammar()
		})
		end2 := guard(func() { err2 = tok.SetRuleNames(bad) })
		end3 := guard(func() { tok.MustSetRuleNames(bad) })
		quiet(func() {
			names := []string{}
			for _, r := range rules {
				names = append(names, r.Name)
			}
			want := []*tok.Rule{&g.First, &g.Second, &g.Third, &g.Fourth}
			same := len(rules) == len(want)
			for i := 0; same && i < len(want); i++ {
				same = rules[i] == want[i]
			}
			if end != "" || err != nil || !same || strings.Join(names, ",") != "first,num-2,,a.b_c+d" {
				d.fail("the rules of a grammar are %q, %v, %s", names, err, end)
			}
			if end2 != "" || err2 == nil || end3 == "" {
				d.fail("the names of a grammar with the name \"2nd\": %v, %s, %q", err2, end2, end3)
			}
		})
	default:
		rules := d.in.rules
		if d.in.gram != nil {
			rules = d.in.gram.Grammar()
		}
		if len(rules) == 0 {
			return
		}
		r := rules[o.N%len(rules)]
		switch o.K {
		case "pick":
			r.Pick(d.in.basket)
		case "map":
			r.Map(func(tok.Token) {})
		case "mon":
			r.Monitor(d.in.log)
		}
	}
}

// guard calls f and returns how it has crashed.
func guard(f func()) (end string) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(errBudget); ok {
				panic(b)
			}
			end = fmt.Sprint("panic: ", x)
		}
	}()
	f()
	return ""
}

func genDesc(r *Rng, t *Task, alone bool) {
	for i := r.N(3); i > 0; i-- {
		o := &Op{M: r.N(len(t.Tries) + 1), K: r.Pick("name", "name", "rules", "collect")}
		if alone && r.P(60) {
			o.K = r.Pick("pick", "map", "mon")
		}
		switch o.K {
		case "name":
			o.S = BStr(genName(r))
		case "rules":
			for j := r.N(4); j > 0; j-- {
				n := genName(r)
				if r.P(60) {
					n = r.Pick("a", "b1", "c-d")
				}
				o.L = append(o.L, BStr(n))
			}
			o.N = r.N(8)
		default:
			o.N = r.N(50)
		}
		t.Ops = append(t.Ops, o)
	}
}

var descFaults = []string{"ask", "ask", "ask", "ask", "err", "errpart", "errback", "errafter", "cancel", "crash", "crashafter", "lie"}

// describing runs the attempts and calls of a task.
func describing(t *Task, d *Desc, e *Env, mute bool) taskLog {
	var l taskLog
	ask := func(when string) {
		if mute || d.bad != "" {
			return
		}
		if end := guarded(e, func() { d.ask(when) }); end != "" {
			d.fail("%s the description ended in a %s", when, end)
		}
	}
	e.ask = func() {
		if !mute && d.bad == "" {
			d.ask("inside of a read")
		}
	}
	ask("before any read")
	for i := 0; i <= len(t.Tries); i++ {
		for _, o := range t.Ops {
			if o.M == i || o.M > len(t.Tries) && i == len(t.Tries) {
				if end := guarded(e, func() { d.op(o) }); end != "" {
					quiet(func() { d.fail("the call %s ended in a %s", o.K, end) })
				}
				ask("after the call " + o.K)
			}
		}
		if i == len(t.Tries) {
			break
		}
		tr := t.Tries[i]
		text := string(tr.Input)
		s := newScanner(text, clampAt(tr.At, text))
		s.Tracker = d.in.basket
		res := e.read(d.in, s, tr, true)
		str := res.String()
		if len(t.Ops) == 0 || true {
			quiet(func() {
				s.ToMarker(s.Mark())
				str += ", picked " + segString(noZeros(basketSegs(d.in.basket))) + fmt.Sprintf(", logged %d", len(d.in.log.Entries))
			})
		}
		l = append(l, str)
		ask(fmt.Sprintf("after attempt %d", i+1))
	}
	return l
}

func init() {
	register(&Prop{
		ID: "C22", Quick: 300000, Thorough: 6000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: genSched(r), Bare: r.P(50)}
			n := 1
			if r.P(45) {
				n = r.In(2, 3)
			}
			if r.P(15) {
				name := r.Pick("json", "mxt", "lua")
				if n > 1 {
					name = "json"
				}
				for i := 0; i < n; i++ {
					t := &Task{Gram: name}
					for k := r.In(1, 2); k > 0; k-- {
						text := gramDoc(r, name, 30)
						if len(text) > 3000 {
							text = text[:r.N(3000)]
						}
						tr := &Try{Input: BStr(text)}
						tr.Faults = gramFaults(r, r.In(0, 2), descFaults, name, text)
						t.Tries = append(t.Tries, tr)
					}
					genDesc(r, t, n == 1)
					sc.Tasks = append(sc.Tasks, t)
				}
				return sc
			}
			o := GenOpt{NoGiant: true, NoMany: true, Faults: true, Refs: true, Maps: r.P(40), Wide: r.P(30)}
			if n == 1 {
				o.Picks, o.Mons, o.Janus = r.P(40), r.P(40), r.P(50)
			}
			t := genTree(r, o, r.In(n, n+1), 80, 3, descFaults, false)
			if n == 1 {
				genDesc(r, t, true)
				sc.Tasks = []*Task{t}
				return sc
			}
			for i := 0; i < n; i++ {
				x := &Task{Root: t.Root, Rules: t.Rules, Tries: []*Try{t.Tries[i%len(t.Tries)]}}
				genDesc(r, x, false)
				sc.Tasks = append(sc.Tasks, x)
			}
			return sc
		},
		Run: runDesc,
		Rule: "A case is a Reader tree of up to 60 parts (with rules, observers and begin/end pairs) or a grammar that one task reads with and describes before, between, after and in the middle of its attempts, while Readers fail, are cancelled or crash and observers are put on rules, or that two or three tasks share under statement level preemption; besides rule names, lists of rules and grammars of the user are checked and collected. " +
			"Every description has to be the one that the parts give, in order and with the operators, the lines of a grammar name its rules in order, invalid Readers are reported exactly if they are there, and the results of the attempts are those without any description. Non-trivial: at least three descriptions of a composition; distinct by hash of tree, texts, faults, calls and schedule.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)"}, stubUser...),
	})
}

func runDesc(sc *Scenario) *Outcome {
	o := newOutcome()
	if len(sc.Tasks) == 0 {
		return o.skip("no tasks")
	}
	first := sc.Tasks[0]
	for _, t := range sc.Tasks {
		t.Root, t.Rules, t.Gram = first.Root, first.Rules, first.Gram
	}
	build := func() *Inst {
		return first.build(BuildOpt{Rec: !sc.Bare}, GramOpt{Rec: !sc.Bare, Faults: true})
	}
	in := build()
	root := ""
	list := []string{}
	inv := false
	if first.Gram != "" {
		// what is described is left open, but names and order are not
		quiet(func() {
			root = in.gram.What()
			list = tok.GrammarLines(in.gram.Grammar())
		})
		names := []string{}
		t := reflect.TypeOf(in.gram).Elem()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type == reflect.TypeOf(tok.Rule{}) {
				names = append(names, t.Field(i).Tag.Get("name"))
			}
		}
		bad := len(names) != len(list)
		for i := 0; !bad && i < len(names); i++ {
			bad = !strings.HasPrefix(list[i], names[i]+": ") || len(list[i]) <= len(names[i])+2 || strings.Contains(list[i], tok.InvalidReaderMarker)
		}
		if bad {
			return o.fail("rules", fmt.Sprintf("the rules %q of %s are described as %q", names, first.Gram, list))
		}
	} else {
		root, inv = describe(first.Root), shown(first.Root)
		for i, n := range first.Rules {
			list = append(list, fmt.Sprintf("R%d: %s", i, describe(n)))
		}
	}
	envs := []*Env{}
	fns := []func(*Env){}
	descs := []*Desc{}
	logs := make([]taskLog, len(sc.Tasks))
	for i, t := range sc.Tasks {
		i, t := i, t
		o.addTask(t)
		for _, x := range t.Ops {
			o.Hash.Str(fmt.Sprint(*x))
		}
		budget, ok := t.budgets()
		if !ok {
			return o.skip("model")
		}
		d := &Desc{in: in, root: root, list: list, inv: inv}
		descs = append(descs, d)
		envs = append(envs, newEnv(budget+2000000))
		fns = append(fns, func(e *Env) { logs[i] = describing(t, d, e, false) })
	}
	s := runTasks(sc.Sched, envs, fns)
	o.Switch, o.Pairs = s.record, s.pairs
	for i, e := range envs {
		o.addEnv(e)
		o.Hash.Str(strings.Join(logs[i], "|"))
	}
	for _, sw := range s.record {
		o.Hash.Int(int(sw.At))
		o.Hash.Int(sw.To)
	}
	n := 0
	for i, d := range descs {
		n += d.n
		if d.bad != "" {
			return o.fail("description", fmt.Sprintf("task %d of %d: %s", i, len(descs), d.bad))
		}
	}
	o.Trivial = n < 3 || first.Root != nil && first.Root.size() < 2
	o.probe("composition of more than 20 parts", first.Root != nil && first.Root.size() > 20)
	o.probe("invalid reader shown", inv)
	o.probe("described inside of a read", o.Fired["ask"] > 0)
	if len(sc.Tasks) == 1 {
		e := newEnv(envs[0].budget)
		old := cur
		cur = e
		want := describing(first, &Desc{in: build()}, e, true)
		cur = old
		// The descriptions asked for in the middle use statements of the budget,
		// so an attempt which runs out of it ends at another point without them.
		if logs[0].overBudget() || want.overBudget() {
			return o.skip("budget")
		}
		if d := logs[0].diff(want); d != "" {
			return o.fail("changed", d+" (without any description)")
		}
	}
	return o
}
