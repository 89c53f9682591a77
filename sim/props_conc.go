package main

import (
	"fmt"
	"strings"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// C06, C07, C13: an attempt may only depend on its own input

// taskLog is what a task has seen.
type taskLog []string

func (l taskLog) diff(o taskLog) string {
	for i := range l {
		if i < len(o) && ranOut(l[i]) && ranOut(o[i]) {
			// where exactly the budget ended it says nothing about the result
			return ""
		}
		if i >= len(o) || l[i] != o[i] {
			b := "nothing"
			if i < len(o) {
				b = o[i]
			}
			return fmt.Sprintf("attempt %d: %s, expected: %s", i+1, l[i], b)
		}
	}
	return ""
}

func ranOut(s string) bool {
	return strings.HasPrefix(s, "budget at ")
}

// overBudget reports whether an attempt has used up its statements.
func (l taskLog) overBudget() bool {
	for _, s := range l {
		if ranOut(s) {
			return true
		}
	}
	return false
}

// ConcOpt selects what a task observes.
type ConcOpt struct {
	observers bool // compare Basket and Log too
	clean     bool // no observers at all
}

// attempts runs the tries of a task on in, one Scanner per attempt.
func (t *Task) attempts(e *Env, in *Inst, obs bool) taskLog {
	var l taskLog
	var s *tok.Scanner
	for _, tr := range t.Tries {
		text := string(tr.Input)
		at := clampAt(tr.At, text)
		for i := 0; i < tr.Rep; i++ {
			e.trace = newTrace()
			e.read(in, newScanner(text, at), tr, true)
		}
		e.trace = newTrace()
		if s == nil || !t.same {
			s = newScanner(text, at)
		} else {
			quiet(func() { s.ToMarker(tok.Marker(at)) })
		}
		if obs {
			s.Tracker = in.basket
		}
		res := e.read(in, s, tr, true)
		str := fmt.Sprintf("%s, calls %x", res, uint64(e.trace.h))
		if obs {
			if res.End != "" {
				quiet(func() { s.ToMarker(tok.Marker(at)) })
			}
			str += ", picked " + segString(basketSegs(in.basket))
			quiet(func() {
				var b strings.Builder
				for _, en := range in.log.Entries {
					fmt.Fprintf(&b, " %d.%s@%d-%d", en.Level, en.Info, en.EnterAt, en.ExitAt)
				}
				str += b.String()
				in.log.Reset()
			})
		}
		l = append(l, str)
	}
	return l
}

func (t *Task) budgets() (uint64, bool) {
	if t.Gram != "" {
		return gramBudget, true
	}
	max := uint64(0)
	janus := map[int]string{}
	for _, tr := range t.Tries {
		text := string(tr.Input)
		m := runModel(t.Root, t.Rules, text, clampAt(tr.At, text), tr.Faults, janus, nil)
		if !m.Valid {
			return 0, false
		}
		if b := m.budget(); b > max {
			max = b
		}
	}
	return max, true
}

// manyTimes lets some attempts happen very often.
func manyTimes(r *Rng, t *Task) {
	if r.N(200) != 0 {
		return
	}
	for _, tr := range t.Tries {
		if len(tr.Input) > 400 || r.P(30) {
			continue
		}
		tr.Rep = r.PickInt(70, 300, 1100, 2100)
		if t.Gram == "lua" || len(tr.Input) > 150 {
			tr.Rep /= 10
		}
	}
}

// soloLog runs the task alone on a new instance.
func soloLog(t *Task, budget uint64, build func() *Inst, obs bool) taskLog {
	e := newEnv(budget)
	in := build()
	old := cur
	cur = e
	l := t.attempts(e, in, obs)
	cur = old
	return l
}

func genSched(r *Rng) SchedSpec {
	return SchedSpec{Seed: r.U64(), Mean: r.PickInt(1, 1, 2, 3, 5, 10, 30, 100, 400)}
}

var concFaults = []string{"err", "errpart", "errafter", "cancel", "crash", "crashafter", "stall", "stall"}

func init() {
	register(&Prop{
		ID: "C06", Quick: 96000, Thorough: 1920000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: genSched(r), Bare: r.P(40)}
			n := r.In(2, 4)
			if r.P(35) {
				for ; n > 0; n-- {
					t := &Task{Gram: "json"}
					for i := r.In(1, 2); i > 0; i-- {
						text := gramDoc(r, "json", 40)
						tr := &Try{Input: BStr(text)}
						if r.P(40) {
							tr.Faults = gramFaults(r, 1, concFaults, "json", text)
						}
						t.Tries = append(t.Tries, tr)
					}
					sc.Tasks = append(sc.Tasks, t)
				}
				return sc
			}
			o := GenOpt{Faults: true, Refs: true, Maps: r.P(30), NoMany: true}
			t := genTree(r, o, n, 40, 2, concFaults, false)
			for _, tr := range t.Tries {
				tt := &Task{Root: t.Root, Rules: t.Rules, Tries: []*Try{tr}}
				if r.P(30) {
					tt.Tries = append(tt.Tries, t.Tries[r.N(len(t.Tries))])
				}
				sc.Tasks = append(sc.Tasks, tt)
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			// the tree of the first task is the shared one
			for _, t := range sc.Tasks {
				t.Root, t.Rules, t.Gram = sc.Tasks[0].Root, sc.Tasks[0].Rules, sc.Tasks[0].Gram
			}
			return runConc(sc, true)
		},
		Rule: "A case is two to four tasks that read their own texts with one shared Reader tree without Janus pairs and observers, or with one shared JSON grammar, while a seeded scheduler preempts at every statement (mean distance 1 to 400 statements) and Readers of single tasks fail, stall, are cancelled or crash. " +
			"Result, error and the complete sequence of Reads of each task are compared with the same task alone on an instance of its own. Non-trivial: at least two switches inside of Reads; distinct by hash of trees, texts, faults and schedule.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)"}, stubUser...),
	})
	register(&Prop{
		ID: "C07", Quick: 180000, Thorough: 4800000,
		Gen: func(r *Rng, th bool) *Scenario {
			bare := r.P(40)
			if r.P(45) {
				name := r.Pick("json", "mxt", "mxt", "lua")
				t := &Task{Gram: name}
				for i := r.In(2, 4); i > 0; i-- {
					text := gramDoc(r, name, 50)
					tr := &Try{Input: BStr(text)}
					if r.P(50) {
						tr.Faults = gramFaults(r, r.In(1, 2), []string{"err", "errpart", "errafter", "cancel", "crash", "crashpart", "crashafter"}, name, text)
					}
					t.Tries = append(t.Tries, tr)
				}
				manyTimes(r, t)
				return &Scenario{Bare: bare, Tasks: []*Task{t}}
			}
			o := GenOpt{Faults: true, Refs: true, Maps: r.P(30)}
			if r.P(40) {
				t := genTree(r, o, r.In(2, 5), 60, 3, allFaults, true)
				for _, tr := range t.Tries {
					tr.Input = t.Text
				}
				return &Scenario{Kind: "same", Bare: bare, Tasks: []*Task{t}}
			}
			t := genTree(r, o, r.In(2, 5), 60, 3, allFaults, false)
			manyTimes(r, t)
			return &Scenario{Bare: bare, Tasks: []*Task{t}}
		},
		Run: runHistory,
		Rule: "A case is a sequence of two to five attempts (rarely each of them repeated up to thousands of times) on one and the same Reader tree without Janus pairs, or one JSON, MXT or Lua grammar instance, on Scanners of their own or on one and the same, in which earlier attempts are refused, run into damaged text, fail, are cancelled or crash half way. " +
			"Result, error and the complete sequence of Reads of each attempt are compared with the same attempt on an instance that was never used. Non-trivial: an attempt follows an attempt that failed or was interrupted; distinct by hash of tree, texts and faults.",
		Real: realLib, Stub: stubUser,
	})
	register(&Prop{
		ID: "C13", Quick: 60000, Thorough: 1200000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: genSched(r), Bare: r.P(40)}
			var same *Task
			for n := r.In(2, 4); n > 0; n-- {
				if r.P(35) {
					name := r.Pick("json", "mxt", "mxt", "lua")
					t := &Task{Gram: name}
					for i := r.In(1, 2); i > 0; i-- {
						text := gramDoc(r, name, 30)
						if len(text) > 6000 {
							text = text[:r.N(3000)]
						}
						tr := &Try{Input: BStr(text)}
						if r.P(40) {
							tr.Faults = gramFaults(r, 1, concFaults, name, text)
						}
						t.Tries = append(t.Tries, tr)
					}
					sc.Tasks = append(sc.Tasks, t)
					continue
				}
				if same != nil && r.P(50) {
					// another instance of the same tree
					t := &Task{Root: same.Root, Rules: same.Rules}
					t.Tries = append(t.Tries, same.Tries[r.N(len(same.Tries))])
					sc.Tasks = append(sc.Tasks, t)
					continue
				}
				o := GenOpt{NoGiant: true, Faults: true, Refs: true, Maps: r.P(30), Picks: r.P(60), Mons: r.P(60), Janus: r.P(60)}
				t := genTree(r, o, r.In(1, 2), 40, 2, concFaults, false)
				same = t
				sc.Tasks = append(sc.Tasks, t)
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome { return runConc(sc, false) },
		Rule: "A case is two to four tasks, each with Scanners, Readers, Janus pairs, Basket, Log or JSON, MXT or Lua grammar of its own, preempted at every statement by a seeded scheduler while Readers of single tasks fail, stall, are cancelled or crash. " +
			"Result, error, sequence of Reads, Basket and Log of each task are compared with the task alone. Non-trivial: at least two switches inside of Reads; distinct by hash of trees, texts, faults and schedule.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)"}, stubUser...),
	})
}

func runConc(sc *Scenario, shared bool) *Outcome {
	o := newOutcome()
	if len(sc.Tasks) == 0 {
		return o.skip("no tasks")
	}
	obs := !shared
	build := func(t *Task) func() *Inst {
		return func() *Inst {
			return t.build(BuildOpt{Rec: !sc.Bare}, GramOpt{Rec: !sc.Bare, Faults: true, Picks: obs, Mon: obs, NoPick: mxtNoPick})
		}
	}
	var one *Inst
	if shared {
		one = build(sc.Tasks[0])()
	}
	logs := make([]taskLog, len(sc.Tasks))
	want := make([]taskLog, len(sc.Tasks))
	envs := []*Env{}
	fns := []func(*Env){}
	for i, t := range sc.Tasks {
		i, t := i, t
		o.addTask(t)
		budget, ok := t.budgets()
		if !ok {
			return o.skip("model")
		}
		want[i] = soloLog(t, budget, build(t), obs)
		in := one
		if !shared {
			in = build(t)()
		}
		envs = append(envs, newEnv(budget))
		fns = append(fns, func(e *Env) { logs[i] = t.attempts(e, in, obs) })
	}
	s := runTasks(sc.Sched, envs, fns)
	o.Switch, o.Pairs = s.record, s.pairs
	for _, e := range envs {
		o.addEnv(e)
	}
	for _, sw := range s.record {
		o.Hash.Int(int(sw.At))
		o.Hash.Int(sw.To)
	}
	o.Trivial = len(s.record) < 2
	for i := range logs {
		if d := logs[i].diff(want[i]); d != "" {
			what := sc.Tasks[i].Gram
			if sc.Tasks[i].Root != nil {
				what = sc.Tasks[i].Root.String()
			}
			return o.fail("interference", fmt.Sprintf("task %d of %d with %s (%d switches): %s (alone)", i, len(logs), what, len(s.record), d))
		}
	}
	return o
}

func runHistory(sc *Scenario) *Outcome {
	o := newOutcome()
	t := sc.Tasks[0]
	if t.same = sc.Kind == "same"; t.same {
		for _, tr := range t.Tries {
			tr.Input = t.Tries[0].Input
		}
	}
	o.addTask(t)
	budget, ok := t.budgets()
	if !ok {
		return o.skip("model")
	}
	build := func() *Inst { return t.build(BuildOpt{Rec: !sc.Bare}, GramOpt{Rec: !sc.Bare, Faults: true}) }
	e := newEnv(budget)
	in := build()
	old := cur
	cur = e
	l := t.attempts(e, in, false)
	cur = old
	o.addEnv(e)
	o.Trivial = true
	for i, tr := range t.Tries {
		if i < len(t.Tries)-1 && !strings.HasPrefix(l[i], "ok") {
			o.Trivial = false
		}
		x := *tr
		x.Rep = 0
		one := &Task{Gram: t.Gram, Root: t.Root, Rules: t.Rules, Tries: []*Try{&x}}
		w := soloLog(one, budget, build, false)
		o.Hash.Str(l[i])
		if l[i] != w[0] {
			what := t.Gram
			if t.Root != nil {
				what = t.Root.String()
			}
			hist := []string{}
			for j := 0; j < i; j++ {
				hist = append(hist, fmt.Sprintf("%q -> %s", string(t.Tries[j].Input), l[j]))
			}
			return o.fail("history", fmt.Sprintf("attempt %d on %q with %s: %s; on an unused instance: %s; earlier attempts: %s", i+1, string(tr.Input), what, l[i], w[0], strings.Join(hist, "; ")))
		}
	}
	return o
}
