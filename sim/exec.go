package main

import (
	"fmt"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// Res is how one attempt ended.
type Res struct {
	End string // "" or how the attempt was interrupted
	Err error
	Pos int
}

func (r Res) ok() bool { return r.End == "" && r.Err == nil }

func (r Res) String() string {
	switch {
	case r.End != "":
		return fmt.Sprintf("%s at %d", r.End, r.Pos)
	case r.Err != nil:
		s := ""
		quiet(func() { s = r.Err.Error() })
		return fmt.Sprintf("error %q at %d", s, r.Pos)
	}
	return fmt.Sprintf("ok at %d", r.Pos)
}

// Tee is the Tracker of the simulator, it hands the updates on.
type Tee struct {
	next  tok.Tracker
	crash int // crash at this update
	n     int
	last  int
	any   bool
	start int
	bad   string
	moves int
	armed bool
}

func (t *Tee) Update(m tok.Marker) {
	t.n++
	t.last = int(m)
	t.any = true
	if t.next != nil {
		t.next.Update(m)
	}
	if t.n == t.crash {
		if e := cur; e != nil {
			e.hit("crash-tracker")
			panic(errCrash{"tracker"})
		}
	}
}

// check compares the last update with the position of s.
func (t *Tee) check(s *tok.Scanner, when string) {
	if tr, ok := s.Tracker.(*Tee); !ok || tr != t {
		return
	}
	t.compare(s, when)
}

func (t *Tee) compare(s *tok.Scanner, when string) {
	p := mark(s)
	t.moves++
	if t.bad != "" {
		return
	}
	if t.any && t.last != p {
		t.bad = fmt.Sprintf("the Scanner is at %d but the Tracker was told %d last, %s", p, t.last, when)
	} else if !t.any && t.start != p {
		t.bad = fmt.Sprintf("the Scanner is at %d but the Tracker was told nothing since %d, %s", p, t.start, when)
	}
}

// nullTracker is told the moves and does nothing.
type nullTracker struct{ n int }

func (t *nullTracker) Update(m tok.Marker) { t.n++ }

// observed attaches a Tracker to some of the Scanners that have none.
func observed(s *tok.Scanner, n int) {
	if s.Tracker == nil && n%4 == 1 {
		s.Tracker = &nullTracker{}
	}
}

// newScanner creates a Scanner at the given position.
func newScanner(text string, at int) *tok.Scanner {
	var s *tok.Scanner
	quiet(func() {
		s = tok.NewScanner(text)
		s.ToMarker(tok.Marker(at))
	})
	return s
}

// read lets in read from s in the running task.
func (e *Env) read(in *Inst, s *tok.Scanner, t *Try, use bool) Res {
	e.faults = faultMap(t.Faults)
	e.sticky = false
	observed(s, len(t.Input)+t.At+len(t.Faults))
	var err error
	end := guarded(e, func() {
		e.scanners = append(e.scanners[:0], s)
		if use {
			err = s.Use(in.root)
		} else {
			err = in.root.Read(s)
		}
	})
	return Res{end, err, mark(s)}
}

// soloRead is read as the only task.
func (e *Env) soloRead(in *Inst, s *tok.Scanner, t *Try, use bool) Res {
	old := cur
	cur = e
	r := e.read(in, s, t, use)
	cur = old
	return r
}

func newEnv(budget uint64) *Env { return &Env{budget: budget, fired: map[string]int{}} }

// ---------------------------------------------------------------------------
// Grammars

const gramBudget = 20000000

func newGrammar(name string) tok.Grammar {
	switch name {
	case "json":
		return grammar.JSON()
	case "mxt":
		return grammar.MXT()
	}
	return grammar.Lua()
}

// GramOpt selects the layers around the rules of a grammar.
type GramOpt struct {
	Rec    bool
	Faults bool
	Picks  bool
	// PickSub records the rules as picked ones, the Basket is made later.
	PickSub bool
	NoPick  map[string]bool
	Mon     bool
	Maps    bool
}

// buildGram creates an instance of a grammar with layers around each rule.
func buildGram(name string, o GramOpt) *Inst {
	in := &Inst{basket: &tok.Basket{}, log: &tok.Log{}}
	quiet(func() {
		in.gram = newGrammar(name)
		in.root = in.gram
		for i, r := range in.gram.Grammar() {
			r := r
			if o.Faults {
				r.Reader = &faultReader{site: "r:" + r.Name, sub: r.Reader}
			}
			n := &Node{ID: i, K: "rule", S: BStr(r.Name)}
			rec := func(kind string) {
				if o.Rec {
					x := &recReader{id: i, kind: kind, rule: r.Name, node: n, sub: r.Reader}
					if kind == "pick-sub" {
						x.pick = r.Name
					}
					r.Reader = x
				}
			}
			rec("rule")
			if o.PickSub {
				rec("pick-sub")
			}
			if o.Picks && !o.NoPick[r.Name] {
				rec("pick-sub")
				r.Pick(in.basket)
			}
			if o.Mon {
				rec("mon-sub")
			}
			if o.Maps {
				rec("map-sub")
				r.Map(in.mapFunc(n))
				if i%5 == 3 {
					n.S2 = "fF"
					r.Map(in.mapFunc(n))
				}
			}
		}
		if o.Mon {
			in.log = tok.MonitorGrammar(in.gram)
		}
	})
	return in
}

// build creates the instance a task works with.
func (t *Task) build(o BuildOpt, g GramOpt) *Inst {
	if t.Gram != "" {
		return buildGram(t.Gram, g)
	}
	var in *Inst
	quiet(func() { in = buildTree(t.Root, t.Rules, o) })
	return in
}

// gramVisits returns which rules are reached at which position.
func gramVisits(name, text string, plan []*Fault) []Visit {
	in := buildGram(name, GramOpt{Faults: true})
	e := newEnv(gramBudget)
	e.trace = newTrace()
	e.soloRead(in, newScanner(text, 0), &Try{Faults: plan}, true)
	return e.trace.visits
}

func gramFaults(r *Rng, n int, kinds []string, name, text string) []*Fault {
	return planFaults(r, n, kinds, func(p []*Fault) []Visit { return gramVisits(name, text, p) })
}
