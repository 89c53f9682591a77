package main

import (
	"fmt"
	"github.com/aiq/tok"
)

// Call is one recorded Read of a Reader.
type Call struct {
	ID     int
	Kind   string
	Rule   string
	Node   *Node
	Parent int
	Kids   []int
	Enter  int
	Exit   int
	Text   string // the text read, if OK
	Tail   string // the visible text at the begin
	Done   bool
	Err    error
	Maps   []tok.Token // Map notifications right after the call
	Sub    bool        // read on another scanner as the parent
	Level  int         // nesting of a monitored call
}

func (c *Call) OK() bool { return c.Done && c.Err == nil }

// MapEv is one Map notification.
type MapEv struct {
	Site  string
	Token tok.Token
	After int // number of calls that were completed before
}

// PickEv is a successful Read below a Pick.
type PickEv struct {
	Info     string
	From, To int
}

func (p PickEv) String() string { return fmt.Sprintf("%s[%d-%d)", p.Info, p.From, p.To) }

// Visit is a position at which a fault site was reached.
type Visit struct {
	Site string
	Pos  int
}

// Trace is the recorded history of one attempt.
type Trace struct {
	sampling bool
	calls    []*Call
	open     []int
	maps     []MapEv
	mapCrash string // site of the Map that crashed
	exits    []int  // indices of the calls in the order of their end
	visits   []Visit
	shadow   []PickEv // picks that were not followed by a move back
	zeros    []PickEv // all picks without a length
	seen     map[fkey]bool
	updates  []int
	touched  int // times a sampled position went back
	last     int
	h        Hash
}

func newTrace() *Trace { return &Trace{h: newHash(), last: -1} }

func (t *Trace) visit(site string, pos int) {
	if t.seen == nil {
		t.seen = map[fkey]bool{}
	}
	k := fkey{site, pos}
	if !t.seen[k] {
		t.seen[k] = true
		t.visits = append(t.visits, Visit{site, pos})
	}
}

// onPos is called with every observed position.
func (t *Trace) onPos(p int) {
	if p == t.last {
		return
	}
	if p < t.last {
		t.touched++
		for n := len(t.shadow); n > 0 && t.shadow[n-1].To > p; n-- {
			t.shadow = t.shadow[:n-1]
		}
	}
	t.last = p
}

func (t *Trace) onMap(site string, tk tok.Token) {
	t.maps = append(t.maps, MapEv{site, tk, len(t.exits)})
	t.h.Str(site)
	quiet(func() { t.h.Str(tk.String()) })
}

// A recorded attempt that gets larger is given up as one that does not end.
const (
	maxCalls = 400000
	maxDepth = 20000
)

// recReader records the Reads of sub.
type recReader struct {
	id   int
	kind string
	rule string
	pick string // Info of the Pick right above
	node *Node
	sub  tok.Reader
}

func (r *recReader) What() string { return r.sub.What() }

// tracked compares what the Tracker was told with the position of s.
func (e *Env) tracked(s *tok.Scanner, when, kind string) {
	if tr, ok := s.Tracker.(*Tee); ok && tr == e.track {
		e.track.compare(s, when+kind)
		return
	}
	// another Scanner, made for a part of the text
	if !e.trackAll {
		return
	}
	for _, i := range e.trace.open {
		if e.trace.calls[i].Kind == "bodytail" {
			return
		}
	}
	e.track.compare(s, when+kind)
}

func (r *recReader) Read(s *tok.Scanner) error {
	e := cur
	if e == nil || e.trace == nil {
		return r.sub.Read(s)
	}
	t := e.trace
	i := len(t.calls)
	if i > maxCalls || len(t.open) > maxDepth {
		panic(errBudget{e.steps})
	}
	c := &Call{ID: r.id, Kind: r.kind, Rule: r.rule, Node: r.node, Parent: -1, Enter: mark(s)}
	keep := r.kind == "jbeg" || r.kind == "jend"
	if keep {
		c.Tail = tail(s)
	}
	if e.track != nil {
		e.tracked(s, "before a Read of ", r.kind)
	}
	t.calls = append(t.calls, c)
	if n := len(t.open); n > 0 {
		c.Parent = t.open[n-1]
		p := t.calls[c.Parent]
		p.Kids = append(p.Kids, i)
		c.Sub = e.scanners[len(e.scanners)-1] != s
	}
	t.open = append(t.open, i)
	e.scanners = append(e.scanners, s)
	t.onPos(c.Enter)
	err := r.sub.Read(s)
	e.scanners = e.scanners[:len(e.scanners)-1]
	t.open = t.open[:len(t.open)-1]
	c.Done = true
	c.Exit = mark(s)
	c.Err = err
	t.onPos(c.Exit)
	if e.track != nil {
		e.tracked(s, "after a Read of ", r.kind)
	}
	if err == nil && keep && c.Exit >= c.Enter {
		c.Text = get(s, c.Enter, c.Exit)
	}
	t.exits = append(t.exits, i)
	t.h.Int(r.id)
	t.h.Int(c.Enter)
	t.h.Int(c.Exit)
	if err == nil {
		t.h.Int(1)
	}
	if r.pick != "" && err == nil {
		ev := PickEv{r.pick, c.Enter, c.Exit}
		if ev.From == ev.To {
			t.zeros = append(t.zeros, ev)
		} else {
			t.shadow = append(t.shadow, ev)
		}
	}
	return err
}
