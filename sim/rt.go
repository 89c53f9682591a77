package main

import (
	"errors"
	"fmt"

	"github.com/aiq/tok"
	"github.com/aiq/tok/simrt"
)

// ---------------------------------------------------------------------------
// The simulator core: tasks, the scheduler and the hook that gets control in
// front of every statement of the code under test.

// errBudget is the panic value that stops a task which does not come to an end.
type errBudget struct{ steps uint64 }

// errCrash is the panic value of an injected crash.
type errCrash struct{ at string }

// errInjected is the plain error of an injected failure.
var errInjected = errors.New("injected failure")

// Switch is one decision of the scheduler: at global step At run task To.
type Switch struct {
	At uint64
	To int
}

// SchedSpec describes the schedule of a run, either by seed and mean distance
// between two switches or, if Explicit, by the list of all switches.
type SchedSpec struct {
	Seed     uint64
	Mean     int
	Explicit bool
	Switches []Switch
}

// Env is the context in which code under test runs: one per task.
type Env struct {
	id       int
	steps    uint64
	budget   uint64
	total    uint64
	scanners []*tok.Scanner
	faults   map[fkey]*Fault
	sticky   bool
	fired    map[string]int
	trace    *Trace
	track    *Tee
	trackAll bool   // also Scanners that the library makes
	ask      func() // describe the Reader that is at work
	badValue string // a value Reader has another value than it has read

	resume chan struct{}
	done   bool
}

type fkey struct {
	site string
	pos  int
}

var (
	cur   *Env
	busy  bool
	sched *Scheduler

	totalSteps uint64
	siteSeen   []uint32
)

func init() {
	simrt.Hook = hook
}

func hook(site int) {
	if busy || cur == nil {
		return
	}
	e := cur
	e.steps++
	if e.steps > e.budget {
		panic(errBudget{e.steps})
	}
	if site >= 0 {
		for site >= len(siteSeen) {
			siteSeen = append(siteSeen, 0)
		}
		siteSeen[site]++
	}
	if e.trace != nil && e.trace.sampling {
		e.sample()
	}
	if sched != nil && simrt.Hold == 0 {
		sched.tick(site)
	}
}

// mark reads the position of a scanner without the simulator being involved.
func mark(s *tok.Scanner) int {
	b := busy
	busy = true
	m := s.Mark()
	busy = b
	return int(m)
}

func tail(s *tok.Scanner) string {
	b := busy
	busy = true
	t := s.Tail()
	busy = b
	return t
}

func head(s *tok.Scanner) string {
	b := busy
	busy = true
	t := s.Head()
	busy = b
	return t
}

func get(s *tok.Scanner, from, to int) string {
	b := busy
	busy = true
	t := s.Get(tok.MakeToken(tok.Marker(from), tok.Marker(to)))
	busy = b
	return t
}

// quiet runs f without steps being counted.
func quiet(f func()) {
	b := busy
	busy = true
	f()
	busy = b
}

func (e *Env) sample() {
	if len(e.scanners) == 0 {
		return
	}
	e.trace.onPos(mark(e.scanners[len(e.scanners)-1]))
}

// ---------------------------------------------------------------------------

// Scheduler lets exactly one task run and decides at every step who is next.
type Scheduler struct {
	tasks    []*Env
	rng      Rng
	mean     int
	explicit []Switch
	isExpl   bool
	ei       int
	step     uint64
	next     uint64
	record   []Switch
	pairs    map[uint64]bool
	lastSite []int
	fin      chan struct{}
}

func (s *Scheduler) plan() {
	if s.isExpl {
		if s.ei < len(s.explicit) {
			s.next = s.explicit[s.ei].At
		} else {
			s.next = ^uint64(0)
		}
		return
	}
	gap := 1
	if s.mean > 1 {
		gap = 1 + s.rng.N(2*s.mean-1)
	}
	s.next = s.step + uint64(gap)
}

func (s *Scheduler) tick(site int) {
	s.step++
	if s.step < s.next {
		return
	}
	me := cur
	to := -1
	if s.isExpl {
		for s.ei < len(s.explicit) && s.explicit[s.ei].At <= s.step {
			to = s.explicit[s.ei].To
			s.ei++
		}
	} else {
		// any other task that is not done
		n := 0
		for _, t := range s.tasks {
			if !t.done && t != me {
				n++
			}
		}
		if n > 0 {
			k := s.rng.N(n)
			for i, t := range s.tasks {
				if !t.done && t != me {
					if k == 0 {
						to = i
						break
					}
					k--
				}
			}
		}
	}
	s.plan()
	if to < 0 || to >= len(s.tasks) || s.tasks[to].done || s.tasks[to] == me {
		return
	}
	s.record = append(s.record, Switch{s.step, to})
	s.lastSite[me.id] = site
	s.pairs[uint64(site+1)<<32|uint64(s.lastSite[to]+1)] = true
	t := s.tasks[to]
	cur = t
	t.resume <- struct{}{}
	<-me.resume
}

func (s *Scheduler) finish(me *Env) {
	me.done = true
	for _, t := range s.tasks {
		if !t.done {
			cur = t
			t.resume <- struct{}{}
			return
		}
	}
	cur = nil
	s.fin <- struct{}{}
}

// runTasks runs the functions as tasks under the given schedule and returns
// the switches that took place.
func runTasks(spec SchedSpec, envs []*Env, fns []func(*Env)) *Scheduler {
	s := &Scheduler{
		tasks:    envs,
		rng:      Rng{mix(spec.Seed, 77)},
		mean:     spec.Mean,
		explicit: spec.Switches,
		isExpl:   spec.Explicit,
		pairs:    map[uint64]bool{},
		lastSite: make([]int, len(envs)),
		fin:      make(chan struct{}, 1),
	}
	if len(envs) == 0 {
		return s
	}
	for i, e := range envs {
		e.id = i
		e.resume = make(chan struct{}, 1)
		s.lastSite[i] = -1
	}
	s.plan()
	sched = s
	for i := range envs {
		e, f := envs[i], fns[i]
		go func() {
			<-e.resume
			f(e)
			s.finish(e)
		}()
	}
	cur = envs[0]
	envs[0].resume <- struct{}{}
	<-s.fin
	sched = nil
	cur = nil
	return s
}

// guarded runs f in e and reports how it ended: "" or a description of the
// panic. An injected crash is reported as "crash@...".
func guarded(e *Env, f func()) (end string) {
	e.steps = 0
	defer func() {
		e.total += e.steps
		totalSteps += e.steps
		e.steps = 0
		if r := recover(); r != nil {
			busy = false
			if e.trace != nil {
				e.trace.open = e.trace.open[:0]
			}
			switch x := r.(type) {
			case errBudget:
				end = "budget"
			case errCrash:
				end = "crash@" + x.at
			default:
				end = "panic: " + fmt.Sprint(x)
			}
		}
		e.scanners = e.scanners[:0]
	}()
	f()
	return ""
}

// solo runs f in e as the only task.
func solo(e *Env, f func()) string {
	old := cur
	cur = e
	end := guarded(e, f)
	cur = old
	return end
}
