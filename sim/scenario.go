package main

import (
	"encoding/json"
)

// Scenario is everything that decides one simulated run. It is generated from
// a seed, shrunk if the run fails and stored as replay file.
type Scenario struct {
	Prop  string
	Index int // number of the run the scenario was generated for
	Seed  uint64
	Kind  string     `json:",omitempty"`
	Tasks []*Task    `json:",omitempty"`
	Segs  []*SegSpec `json:",omitempty"`
	Bare  bool       `json:",omitempty"` // no recording layers between the Readers
	Sched SchedSpec
}

// Task is the work of one client of the library.
type Task struct {
	Gram  string  `json:",omitempty"` // json, mxt or lua; a tree otherwise
	Root  *Node   `json:",omitempty"`
	Rules []*Node `json:",omitempty"`
	Tries []*Try  `json:",omitempty"`
	Text  BStr    `json:",omitempty"`
	Ops   []*Op   `json:",omitempty"`

	same bool // all tries use one Scanner
}

// Try is one attempt to read Input from the position At on.
type Try struct {
	Input  BStr
	At     int      `json:",omitempty"`
	Faults []*Fault `json:",omitempty"`
	Doc    []string `json:",omitempty"` // what happened to the document
	Crash  int      `json:",omitempty"` // crash at this notification of the Tracker
	Rep    int      `json:",omitempty"` // as many attempts of the same kind before it
}

// Op is one call of a program that works on a Scanner.
type Op struct {
	K    string
	S    BStr   `json:",omitempty"`
	L    []BStr `json:",omitempty"`
	N    int    `json:",omitempty"`
	M    int    `json:",omitempty"`
	End  string `json:",omitempty"` // how a callback ends: ok, fail, crash
	Body []*Op  `json:",omitempty"`
}

// SegSpec is a Segment that is delivered to a Graph.
type SegSpec struct {
	Info     string
	From, To int
	Fault    string `json:",omitempty"`
}

func (sc *Scenario) clone() *Scenario {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

// Outcome is the result of one run.
type Outcome struct {
	Class   string // class of the violation, "" if the property held
	Msg     string
	Known   string // identity of a known finding that was met
	KnownAt string
	Hash    Hash
	Trivial bool // the run did not decide anything
	Why     string
	Fired   map[string]int
	Probes  map[string]int
	Max     map[string]int
	Steps   uint64
	Switch  []Switch
	Pairs   map[uint64]bool
}

func newOutcome() *Outcome {
	return &Outcome{Hash: newHash(), Fired: map[string]int{}, Probes: map[string]int{}}
}

func (o *Outcome) fail(class, msg string) *Outcome {
	if o.Class == "" {
		o.Class, o.Msg = class, msg
	}
	return o
}

func (o *Outcome) skip(why string) *Outcome {
	o.Trivial = true
	o.Why = why
	return o
}

func (o *Outcome) known(id, at string) {
	if o.Known == "" {
		o.Known, o.KnownAt = id, at
	}
}

func (o *Outcome) addEnv(e *Env) {
	for k, v := range e.fired {
		o.Fired[k] += v
	}
	o.Steps += e.total
}

// max keeps the largest value that was measured.
func (o *Outcome) max(name string, v int) {
	if o.Max == nil {
		o.Max = map[string]int{}
	}
	if v > o.Max[name] {
		o.Max[name] = v
	}
}

func (o *Outcome) probe(name string, hit bool) {
	if hit {
		o.Probes[name]++
	} else {
		o.Probes[name] += 0
	}
}

// Prop is a property and how it is simulated.
type Prop struct {
	ID       string
	Quick    int // runs
	Thorough int
	Gen      func(r *Rng, thorough bool) *Scenario
	Run      func(sc *Scenario) *Outcome
	Rule     string
	Real     []string
	Stub     []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }
