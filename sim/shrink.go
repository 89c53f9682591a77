package main

import "time"

// ---------------------------------------------------------------------------
// Minimisation: remove and simplify parts of a scenario as long as the same
// class of violation remains.

type shrinker struct {
	run   func(*Scenario) *Outcome
	class string
	best  *Scenario
	left  int
	end   time.Time
}

func shrink(p *Prop, sc *Scenario, o *Outcome, limit int) (*Scenario, *Outcome, int) {
	s := &shrinker{run: p.Run, class: o.Class, best: sc, left: limit, end: time.Now().Add(90 * time.Second)}
	if len(o.Switch) > 0 {
		c := sc.clone()
		c.Sched = SchedSpec{Explicit: true, Switches: o.Switch}
		s.try(c)
	}
	for {
		before := s.left
		if !s.pass() || before == s.left || s.left <= 0 {
			break
		}
	}
	return s.best, safeRun(p, s.best.clone()), limit - s.left
}

func (s *shrinker) try(c *Scenario) bool {
	if s.left <= 0 {
		return false
	}
	s.left--
	if time.Now().After(s.end) {
		s.left = 0
		return false
	}
	o := safeRunF(s.run, c.clone())
	if o.Class == s.class {
		s.best = c
		return true
	}
	return false
}

// edit applies f to a copy of the best scenario and keeps it if it still fails.
func (s *shrinker) edit(f func(c *Scenario) bool) bool {
	if s.left <= 0 {
		return false
	}
	c := s.best.clone()
	if !f(c) {
		return false
	}
	return s.try(c)
}

func (s *shrinker) pass() bool {
	changed := false
	did := func(ok bool) bool {
		changed = changed || ok
		return ok
	}
	// switches, in chunks
	for n := len(s.best.Sched.Switches); n > 0; n /= 2 {
		for i := 0; i < len(s.best.Sched.Switches); {
			if !did(s.edit(func(c *Scenario) bool {
				l := c.Sched.Switches
				j := i + n
				if j > len(l) {
					j = len(l)
				}
				c.Sched.Switches = append(append([]Switch{}, l[:i]...), l[j:]...)
				return j > i
			})) {
				i += n
			}
		}
	}
	for i := 0; i < len(s.best.Tasks); {
		if !did(s.edit(func(c *Scenario) bool {
			if len(c.Tasks) < 2 {
				return false
			}
			c.Tasks = append(c.Tasks[:i], c.Tasks[i+1:]...)
			sw := []Switch{}
			for _, x := range c.Sched.Switches {
				if x.To > i {
					x.To--
				}
				sw = append(sw, x)
			}
			c.Sched.Switches = sw
			return true
		})) {
			i++
		}
	}
	for n := len(s.best.Segs); n > 0; n /= 2 {
		for i := 0; i < len(s.best.Segs); {
			if !did(s.edit(func(c *Scenario) bool {
				j := i + n
				if j > len(c.Segs) {
					j = len(c.Segs)
				}
				c.Segs = append(c.Segs[:i:i], c.Segs[j:]...)
				return j > i
			})) {
				i += n
			}
		}
	}
	for i := range s.best.Segs {
		for did(s.edit(func(c *Scenario) bool {
			x := c.Segs[i]
			if x.From == 0 {
				return false
			}
			x.From--
			return true
		})) {
		}
		for did(s.edit(func(c *Scenario) bool {
			x := c.Segs[i]
			if x.To-1 < x.From {
				return false
			}
			x.To--
			return true
		})) {
		}
	}
	for ti := range s.best.Tasks {
		ti := ti
		for i := 0; i < len(s.best.Tasks[ti].Tries); {
			if !did(s.edit(func(c *Scenario) bool {
				t := c.Tasks[ti]
				if len(t.Tries) < 2 {
					return false
				}
				t.Tries = append(t.Tries[:i], t.Tries[i+1:]...)
				return true
			})) {
				i++
			}
		}
		for xi := range s.best.Tasks[ti].Tries {
			xi := xi
			for i := 0; i < len(s.best.Tasks[ti].Tries[xi].Faults); {
				if !did(s.edit(func(c *Scenario) bool {
					x := c.Tasks[ti].Tries[xi]
					x.Faults = append(x.Faults[:i], x.Faults[i+1:]...)
					return true
				})) {
					i++
				}
			}
			for i := range s.best.Tasks[ti].Tries[xi].Faults {
				did(s.edit(func(c *Scenario) bool {
					f := c.Tasks[ti].Tries[xi].Faults[i]
					if f.Kind == "err" || f.Pos < 0 {
						return false
					}
					f.Kind, f.K = "err", 0
					return true
				}))
				did(s.edit(func(c *Scenario) bool {
					f := c.Tasks[ti].Tries[xi].Faults[i]
					if f.K < 2 || f.Pos < 0 {
						return false
					}
					f.K = 1
					return true
				}))
			}
			for _, k := range []int{0, 2, 4, -1} {
				did(s.edit(func(c *Scenario) bool {
					x := c.Tasks[ti].Tries[xi]
					n := 0
					if k > 0 {
						n = x.Rep - x.Rep/k
					} else if k < 0 {
						n = x.Rep - 1
					}
					if x.Rep == 0 || n >= x.Rep {
						return false
					}
					x.Rep = n
					return true
				}))
			}
			did(s.edit(func(c *Scenario) bool {
				x := c.Tasks[ti].Tries[xi]
				if x.At == 0 {
					return false
				}
				x.At = 0
				return true
			}))
			did(s.text(func(c *Scenario) (*BStr, []*Try) {
				x := c.Tasks[ti].Tries[xi]
				return &x.Input, []*Try{x}
			}))
		}
		did(s.text(func(c *Scenario) (*BStr, []*Try) {
			t := c.Tasks[ti]
			return &t.Text, t.Tries
		}))
		did(s.ops(func(c *Scenario) *[]*Op { return &c.Tasks[ti].Ops }))
		did(s.tree(func(c *Scenario) **Node { return &c.Tasks[ti].Root }))
		for ri := range s.best.Tasks[ti].Rules {
			ri := ri
			did(s.tree(func(c *Scenario) **Node { return &c.Tasks[ti].Rules[ri] }))
		}
	}
	return changed
}

// text shortens a text, with and without moving the faults behind the cut.
func (s *shrinker) text(get func(*Scenario) (*BStr, []*Try)) bool {
	changed := false
	b, _ := get(s.best)
	for n := len(*b); n > 0; n /= 2 {
		for i := 0; ; {
			b, _ := get(s.best)
			if i >= len(*b) {
				break
			}
			cut := func(move bool) bool {
				return s.edit(func(c *Scenario) bool {
					b, tries := get(c)
					j := i + n
					if j > len(*b) {
						j = len(*b)
					}
					*b = (*b)[:i] + (*b)[j:]
					if move {
						for _, x := range tries {
							for _, f := range x.Faults {
								if f.Pos >= j {
									f.Pos -= j - i
								}
							}
							if x.At >= j {
								x.At -= j - i
							}
						}
					}
					return true
				})
			}
			if cut(true) || cut(false) {
				changed = true
			} else {
				i += n
			}
		}
	}
	return changed
}

func (s *shrinker) ops(get func(*Scenario) *[]*Op) bool {
	changed := false
	for i := 0; ; {
		l := *get(s.best)
		if i >= len(l) {
			return changed
		}
		if s.edit(func(c *Scenario) bool {
			p := get(c)
			*p = append((*p)[:i:i], (*p)[i+1:]...)
			return true
		}) {
			changed = true
			continue
		}
		if len(l[i].Body) > 0 {
			if s.edit(func(c *Scenario) bool {
				p := get(c)
				body := (*p)[i].Body
				*p = append((*p)[:i:i], append(body, (*p)[i+1:]...)...)
				return true
			}) {
				changed = true
				continue
			}
			j := i
			if s.ops(func(c *Scenario) *[]*Op { return &(*get(c))[j].Body }) {
				changed = true
			}
		}
		i++
	}
}

func (s *shrinker) tree(get func(*Scenario) **Node) bool {
	changed := false
	if *get(s.best) == nil {
		return false
	}
	for k := range (*get(s.best)).Kids {
		k := k
		if s.edit(func(c *Scenario) bool {
			p := get(c)
			if k >= len((*p).Kids) {
				return false
			}
			*p = (*p).Kids[k]
			return true
		}) {
			return s.tree(get) || true
		}
	}
	n := *get(s.best)
	if n.K != "lit" {
		if s.edit(func(c *Scenario) bool {
			p := get(c)
			*p = &Node{ID: (*p).ID, K: "lit", S: "a"}
			return true
		}) {
			return true
		}
	}
	switch n.K {
	case "seq", "any", "skipws":
		for i := 0; i < len((*get(s.best)).Kids); {
			if !s.edit(func(c *Scenario) bool {
				x := *get(c)
				if len(x.Kids) < 2 {
					return false
				}
				x.Kids = append(x.Kids[:i:i], x.Kids[i+1:]...)
				return true
			}) {
				i++
			} else {
				changed = true
			}
		}
	case "times":
		for s.edit(func(c *Scenario) bool {
			x := *get(c)
			x.N--
			return x.N > 0
		}) {
			changed = true
		}
	case "anyfold":
		for i := 0; i < len((*get(s.best)).L); {
			if !s.edit(func(c *Scenario) bool {
				x := *get(c)
				if len(x.L) < 2 {
					return false
				}
				x.L = append(x.L[:i:i], x.L[i+1:]...)
				return true
			}) {
				i++
			} else {
				changed = true
			}
		}
	}
	for k := range (*get(s.best)).Kids {
		k := k
		if s.tree(func(c *Scenario) **Node { return &(*get(c)).Kids[k] }) {
			changed = true
		}
	}
	return changed
}
