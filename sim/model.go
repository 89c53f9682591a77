package main

import (
	"math/big"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------------------
// The reference model: a direct interpreter for the description of a Reader
// tree. A failed Read is a no-op for whoever tries it, nothing else is
// remembered.

// Model interprets one attempt.
type Model struct {
	in     string
	rules  []*Node
	faults map[fkey]*Fault
	sticky bool
	janus  map[int]string
	evals  int
	cap    int
	depth  int
	active map[[2]int]bool
	visits []Visit
	seen   map[fkey]bool
	picks  []PickEv
	held   []PickEv // picks of the tails whose bodies are being read
	gone   []PickEv // abandoned picks without a length
	fired  int
}

type mInvalid struct{ why string }
type mCrash struct{}

// MResult is the outcome the model expects.
type MResult struct {
	Valid   bool
	Crash   bool
	OK      bool
	Pos     int
	Evals   int
	Visits  []Visit
	Picks   []PickEv
	Gone    []PickEv
	Invalid string
	Fired   int
	Len     int // of the text
}

const modelCap = 20000

// runModel interprets the tree on in from pos on.
func runModel(root *Node, rules []*Node, in string, pos int, faults []*Fault, janus map[int]string, picks []PickEv) (res MResult) {
	m := &Model{in: in, rules: rules, faults: faultMap(faults), janus: janus, cap: modelCap + 20*len(in),
		active: map[[2]int]bool{}, seen: map[fkey]bool{}, picks: append([]PickEv{}, picks...)}
	if m.janus == nil {
		m.janus = map[int]string{}
	}
	defer func() {
		res.Evals = m.evals
		res.Visits = m.visits
		res.Picks = m.picks
		res.Gone = m.gone
		res.Len = len(in)
		res.Fired = m.fired
		if r := recover(); r != nil {
			res.Gone = append(res.Gone, m.held...)
			switch x := r.(type) {
			case mInvalid:
				res.Valid = false
				res.Invalid = x.why
			case mCrash:
				res.Valid = true
				res.Crash = true
			default:
				panic(r)
			}
		}
	}()
	base := len(m.picks)
	ok, np := m.eval(root, len(in), pos)
	if !ok {
		m.abandon(base)
	}
	return MResult{Valid: true, OK: ok, Pos: np}
}

func faultMap(l []*Fault) map[fkey]*Fault {
	m := map[fkey]*Fault{}
	for _, f := range l {
		c := *f
		m[fkey{f.Site, f.Pos}] = &c
	}
	return m
}

// abandon removes the picks from index n on.
func (m *Model) abandon(n int) {
	for _, p := range m.picks[n:] {
		if p.From == p.To {
			m.gone = append(m.gone, p)
		}
	}
	m.picks = m.picks[:n]
}

// try evaluates n; a failure leaves nothing behind.
func (m *Model) try(n *Node, end, pos int) (bool, int) {
	base := len(m.picks)
	ok, np := m.eval(n, end, pos)
	if !ok {
		m.abandon(base)
		return false, pos
	}
	return true, np
}

func (m *Model) first(end, pos int) (rune, int) {
	return utf8.DecodeRuneInString(m.in[pos:end])
}

func (m *Model) str(s string, end, pos int) (bool, int) {
	if strings.HasPrefix(m.in[pos:end], s) {
		return true, pos + len(s)
	}
	return false, pos
}

func (m *Model) fold(s string, end, pos int) (bool, int) {
	if end-pos >= len(s) && strings.EqualFold(m.in[pos:pos+len(s)], s) {
		return true, pos + len(s)
	}
	return false, pos
}

func (m *Model) one(end, pos int, f func(rune) bool) (bool, int) {
	r, n := m.first(end, pos)
	if n > 0 && f(r) {
		return true, pos + n
	}
	return false, pos
}

func (m *Model) skipWS(end, pos int) int {
	for pos < end && strings.IndexByte(" \r\n\t", m.in[pos]) >= 0 {
		pos++
	}
	return pos
}

func ranges(str string) func(rune) bool {
	rs := []rune(str)
	return func(r rune) bool {
		for i := 0; i+2 < len(rs); i += 3 {
			if rs[i] <= r && r <= rs[i+2] {
				return true
			}
		}
		return false
	}
}

func (m *Model) digits(end, pos, base int, max *big.Int) (bool, int) {
	v := new(big.Int)
	n := 0
	for pos+n < end {
		d := strings.IndexByte("0123456789abcdef", lower(m.in[pos+n]))
		if d < 0 || d >= base {
			break
		}
		nv := new(big.Int).Mul(v, big.NewInt(int64(base)))
		nv.Add(nv, big.NewInt(int64(d)))
		if nv.Cmp(max) > 0 {
			break
		}
		v = nv
		n++
	}
	return n > 0, pos + n
}

func lower(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

func (m *Model) eval(n *Node, end, pos int) (bool, int) {
	m.evals++
	if m.evals > m.cap {
		panic(mInvalid{"too much work"})
	}
	m.depth++
	if m.depth > 2000 {
		panic(mInvalid{"too deep"})
	}
	defer func() { m.depth-- }()
	kid := func(i int) *Node {
		if i < len(n.Kids) {
			return n.Kids[i]
		}
		return &Node{K: "lit"}
	}
	switch n.K {
	case "lit":
		return m.str(string(n.S), end, pos)
	case "rune":
		return m.one(end, pos, func(r rune) bool { return r == rune(n.N) })
	case "anyrune":
		return m.one(end, pos, func(r rune) bool { return strings.ContainsRune(string(n.S), r) })
	case "between":
		return m.one(end, pos, func(r rune) bool { return rune(n.N) <= r && r <= rune(n.M) })
	case "betweenany":
		return m.one(end, pos, ranges(string(n.S)))
	case "set":
		f := ranges(string(n.S))
		return m.one(end, pos, func(r rune) bool { return f(r) || strings.ContainsRune(string(n.S2), r) })
	case "bbany":
		rs := []rune(string(n.S))
		return m.one(end, pos, func(r rune) bool {
			for i := 0; i+1 < len(rs); i += 2 {
				if rs[i] <= r && r <= rs[i+1] {
					return true
				}
			}
			return false
		})
	case "digit":
		return m.one(end, pos, func(r rune) bool { return '0' <= r && r <= '9' })
	case "hex":
		return m.one(end, pos, func(r rune) bool { return strings.ContainsRune("0123456789abcdefABCDEF", r) })
	case "holey":
		return m.one(end, pos, func(r rune) bool {
			return rune(n.N) <= r && r <= rune(n.M) && !strings.ContainsRune(string(n.S), r)
		})
	case "fold":
		return m.fold(string(n.S), end, pos)
	case "anyfold":
		for _, s := range n.L {
			if ok, np := m.fold(string(s), end, pos); ok {
				return true, np
			}
		}
		return false, pos
	case "match":
		return m.one(end, pos, preds[string(n.S)])
	case "ws":
		return m.one(end, pos, func(r rune) bool { return strings.ContainsRune(" \r\n\t", r) })
	case "nl":
		if ok, np := m.str("\n", end, pos); ok {
			return ok, np
		}
		return m.str("\r\n", end, pos)
	case "bool":
		var l []string
		switch n.S {
		case "", "*":
			l = []string{"true", "True", "TRUE", "false", "False", "FALSE"}
		case "l":
			l = []string{"true", "false"}
		case "U":
			l = []string{"TRUE", "FALSE"}
		case "Cc":
			l = []string{"True", "False"}
		}
		for _, s := range l {
			if ok, np := m.str(s, end, pos); ok {
				return ok, np
			}
		}
		return false, pos
	case "uint":
		if !numArgs(n) {
			return false, pos
		}
		max := new(big.Int).Lsh(big.NewInt(1), uint(n.M))
		max.Sub(max, big.NewInt(1))
		ok, np := m.digits(end, pos, n.N, max)
		if !ok {
			return false, pos
		}
		return true, np
	case "int":
		if !numArgs(n) {
			return false, pos
		}
		max := new(big.Int).Lsh(big.NewInt(1), uint(n.M-1))
		p := pos
		if ok, np := m.str("-", end, pos); ok {
			p = np
		} else {
			if ok, np := m.str("+", end, pos); ok {
				p = np
			}
			max.Sub(max, big.NewInt(1))
		}
		ok, np := m.digits(end, p, n.N, max)
		if !ok {
			return false, pos
		}
		return true, np
	case "inv":
		return false, pos
	case "atend":
		return pos == end, pos
	case "any":
		for _, k := range n.Kids {
			if ok, np := m.try(k, end, pos); ok {
				return true, np
			}
		}
		return false, pos
	case "at":
		base := len(m.picks)
		ok, _ := m.eval(kid(0), end, pos)
		m.abandon(base)
		return ok, pos
	case "body", "bodytail":
		for t := pos; t < end; {
			base := len(m.picks)
			ok, te := m.try(kid(1), end, t)
			if ok {
				tp := append([]PickEv{}, m.picks[base:]...)
				m.abandonKeep(base, n.K == "body")
				h := len(m.held)
				if n.K == "bodytail" {
					m.held = append(m.held, tp...)
				}
				bok, be := m.try(kid(0), t, pos)
				m.held = m.held[:h]
				if !bok || be != t {
					m.abandon(base)
					if n.K == "bodytail" {
						m.picks = append(m.picks, tp...)
						m.abandon(base)
					}
					return false, pos
				}
				if n.K == "body" {
					return true, t
				}
				m.picks = append(m.picks, tp...)
				return true, te
			}
			_, w := m.first(end, t)
			t += w
		}
		return false, pos
	case "many", "zom":
		p := pos
		for {
			ok, np := m.try(kid(0), end, p)
			if !ok || np == p {
				break
			}
			p = np
		}
		if n.K == "many" {
			return p > pos, p
		}
		return true, p
	case "opt":
		_, np := m.try(kid(0), end, pos)
		return true, np
	case "to":
		for t := pos; ; {
			base := len(m.picks)
			ok, _ := m.try(kid(0), end, t)
			m.abandon(base)
			if ok {
				return true, t
			}
			if t >= end {
				return false, pos
			}
			_, w := m.first(end, t)
			t += w
		}
	case "past":
		for t := pos; t < end; {
			if ok, np := m.try(kid(0), end, t); ok {
				return true, np
			}
			_, w := m.first(end, t)
			t += w
		}
		return false, pos
	case "not":
		base := len(m.picks)
		ok, _ := m.try(kid(0), end, pos)
		m.abandon(base)
		_, w := m.first(end, pos)
		if ok || w == 0 {
			return false, pos
		}
		return true, pos + w
	case "named":
		return m.eval(kid(0), end, pos)
	case "seq":
		p := pos
		for _, k := range n.Kids {
			ok, np := m.eval(k, end, p)
			if !ok {
				return false, pos
			}
			p = np
		}
		return true, p
	case "skipseq":
		ok, p := m.eval(kid(0), end, pos)
		if !ok {
			return false, pos
		}
		for i := 1; i < len(n.Kids); i++ {
			if ok, p = m.eval(n.Kids[i], end, p); !ok {
				return false, pos
			}
			if ok, p = m.eval(kid(0), end, p); !ok {
				return false, pos
			}
		}
		return true, p
	case "skipws":
		p := m.skipWS(end, pos)
		for _, k := range n.Kids {
			ok, np := m.eval(k, end, p)
			if !ok {
				return false, pos
			}
			p = m.skipWS(end, np)
		}
		return true, p
	case "times":
		p := pos
		for i := 0; i < n.N; i++ {
			ok, np := m.eval(kid(0), end, p)
			if !ok {
				return false, pos
			}
			p = np
		}
		return true, p
	case "map":
		ok, np := m.try(kid(0), end, pos)
		if ok {
			m.mapCrash(n)
		}
		return ok, np
	case "pick":
		ok, np := m.try(kid(0), end, pos)
		if ok {
			m.picks = append(m.picks, PickEv{string(n.S), pos, np})
		}
		return ok, np
	case "mon":
		return m.eval(kid(0), end, pos)
	case "rule":
		ok, np := m.eval(kid(0), end, pos)
		for _, c := range string(n.S2) {
			switch c {
			case 'p':
				if ok {
					m.picks = append(m.picks, PickEv{string(n.S), pos, np})
				} else {
					np = pos
				}
			case 'f':
				if ok {
					m.mapCrash(n)
				} else {
					np = pos
				}
			}
		}
		return ok, np
	case "ref":
		i := n.N % len(m.rules)
		key := [2]int{i, pos<<20 | end}
		if m.active[key] {
			panic(mInvalid{"left recursion"})
		}
		m.active[key] = true
		ok, np := m.eval(m.rules[i], end, pos)
		delete(m.active, key)
		return ok, np
	case "jbeg":
		ok, np := m.try(kid(0), end, pos)
		if ok {
			m.janus[n.N] = m.in[pos:np]
		}
		return ok, np
	case "jend":
		ok, np := m.str(m.janus[n.N], end, pos)
		return ok, np
	case "flt":
		return m.flt(n, kid(0), end, pos)
	}
	panic("unknown node kind " + n.K)
}

// abandonKeep drops the picks of the tail of a Body, those of the tail of a
// BodyTail are only set aside.
func (m *Model) abandonKeep(base int, drop bool) {
	if drop {
		m.abandon(base)
	} else {
		m.picks = m.picks[:base]
	}
}

func (m *Model) mapCrash(n *Node) {
	if f := m.faults[fkey{siteOf(n), -2}]; f != nil {
		panic(mCrash{})
	}
}

func (m *Model) flt(n, kid *Node, end, pos int) (bool, int) {
	k := fkey{siteOf(n), pos}
	if !m.seen[k] {
		m.seen[k] = true
		m.visits = append(m.visits, Visit{k.site, pos})
	}
	if m.sticky {
		return false, pos
	}
	f := m.faults[k]
	if f == nil {
		return m.eval(kid, end, pos)
	}
	m.fired++
	part := func() int {
		w, ok := runesWidth(m.in[pos:end], f.K)
		if ok {
			return pos + w
		}
		return pos
	}
	switch f.Kind {
	case "err":
		return false, pos
	case "errpart":
		return false, part()
	case "errback":
		return false, pos - lastWidth(m.in[:pos], f.K)
	case "errafter":
		_, np := m.eval(kid, end, pos)
		return false, np
	case "lie":
		return true, part()
	case "cancel":
		m.sticky = true
		return false, pos
	case "crash", "crashpart":
		panic(mCrash{})
	case "crashafter":
		ok, np := m.eval(kid, end, pos)
		if !ok {
			return false, np
		}
		panic(mCrash{})
	case "stall", "ask":
		return m.eval(kid, end, pos)
	}
	panic("unknown fault kind " + f.Kind)
}

// numArgs tells if base and size of a Reader for integers are valid.
func numArgs(n *Node) bool {
	return (n.N == 8 || n.N == 10 || n.N == 16) && (n.M == 8 || n.M == 16 || n.M == 32 || n.M == 64)
}
