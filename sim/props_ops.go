package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// ---------------------------------------------------------------------------
// Programs of calls on a Scanner

var opScopes = []string{"use", "usefunc", "traceuse", "traceusefunc", "tokenizeuse", "captureuse", "scope", "trace", "tokenize", "capture", "while"}

// calls that only move
var opMoves = []string{"move", "moverunes", "tomarker", "toend", "tostart", "if", "torune", "scanstring", "ifmatch", "revif", "to", "iffold"}

// all calls that may move
var opAll = []string{
	"move", "move", "moverunes", "moverunes", "tomarker", "tomarker", "toend", "tostart", "scanstring",
	"if", "ifany", "to", "iffold", "tofold", "ifrune", "torune", "whilerune", "ifanyrune", "toanyrune", "whileanyrune",
	"ifbetween", "tobetween", "whilebetween", "ifmatch", "tomatch", "whilematch",
	"revif", "revifany", "revto", "reviffold", "revtofold", "revifrune", "revtorune", "revwhilerune", "revifanyrune",
	"revtoanyrune", "revwhileanyrune", "revifbetween", "revtobetween", "revwhilebetween", "revifmatch", "revtomatch", "revwhilematch",
	"readrune", "revreadrune", "readbool", "readint", "readuint", "state", "since", "get", "linecol",
}

// genProgram generates a text and a program for it.
func genProgram(r *Rng, moves []string, scopes bool) *Task {
	g := newGen(r, GenOpt{})
	text := g.word(0, 14)
	if r.P(35) {
		text = damage(r, text, g.alpha, r.In(1, 3), nil)
	}
	if r.P(10) {
		text += strings.Repeat(string(g.char()), r.N(60))
	}
	if len(moves) > 20 && r.P(30) {
		text = g.word(0, 3) + r.Pick("true", "False", "TRUE", "127", "-129", "+32767", "65536x", "9223372036854775807", "-9223372036854775809", "18446744073709551616", "ffFF", "-8f", "0777", "255,256", "--1", "１２", "1٣4", "Ａf", "fＦ", "٤", "7𝟖", "ａ") + g.word(0, 3)
	}
	huge, long := r.N(600) == 0, r.N(600) == 0
	if huge {
		text += g.word(300, 5000) + text
		if r.P(40) {
			text = damage(r, text, g.alpha, r.In(1, 3), nil)
		}
	}
	if r.N(8000) == 0 {
		huge = true
		text = strings.Repeat(g.word(20, 80), 1+r.N(4000)) + text
	}
	t := &Task{Text: BStr(text)}
	kinds := subset(r, moves, r.PickInt(30, 60, 100))
	var prog func(d, n int) []*Op
	arg := func() string {
		if len(text) > 0 && r.P(60) {
			i := r.N(len(text))
			j := i + 1 + r.N(3)
			if huge && r.P(20) {
				j = i + 1 + r.N(2000)
			}
			if j > len(text) {
				j = len(text)
			}
			a := text[i:j]
			if r.P(20) {
				a = swapCase(r, a)
			}
			return a
		}
		if r.P(15) {
			return text + "x"
		}
		return g.word(0, 3)
	}
	prog = func(d, n int) []*Op {
		ops := []*Op{}
		for ; n > 0; n-- {
			if scopes && d > 0 && r.P(45) {
				k := opScopes[r.N(len(opScopes))]
				if r.P(8) {
					k = "recover"
				}
				o := &Op{K: k, End: r.Pick("ok", "ok", "fail", "fail", "fail"), Body: prog(d-1, r.N(4))}
				if r.P(7) {
					o.End = "crash"
				}
				if k == "while" {
					o.N = r.N(4)
					if len(o.Body) < 2 && r.N(100) == 0 {
						o.N = r.PickInt(10, 70, 300, 2000)
					}
				}
				if o.End == "crash" && r.P(70) {
					// caught where it happens, the program goes on
					o = &Op{K: "recover", End: "ok", Body: append(prog(0, r.N(2)), o)}
				}
				ops = append(ops, o)
				continue
			}
			k := kinds[r.N(len(kinds))]
			if i := len(ops); i > 0 && r.P(8) && ops[i-1].Body == nil && ops[i-1].End == "" {
				k = ops[i-1].K // the same call again, often with other arguments
			}
			o := &Op{K: k}
			switch k {
			case "move":
				o.N = r.In(-4, 6)
				if r.P(15) {
					o.N = r.In(-100, 100)
				}
				if huge && r.P(50) {
					o.N = r.In(-len(text), len(text))
				}
				if r.P(2) {
					o.N = r.PickInt(1<<62, -1<<62)
				}
			case "moverunes", "scanstring":
				o.N = r.In(-4, 5)
				if r.P(8) {
					o.N = r.In(-100, 100)
				}
				if huge && r.P(40) {
					o.N = r.In(-len(text), len(text))
				}
			case "tomarker":
				o.N = r.In(-2, len(text)+2)
				if r.P(5) {
					o.N = r.In(-1000, 1000)
				}
			case "ifany", "revifany":
				for i := r.N(4); i > 0; i-- {
					o.L = append(o.L, BStr(arg()))
				}
			case "ifbetween", "tobetween", "whilebetween", "revifbetween", "revtobetween", "revwhilebetween":
				a, b := g.char(), g.char()
				if a > b && !r.P(20) {
					a, b = b, a
				}
				if r.P(10) {
					b = utf8.MaxRune
				}
				o.N, o.M = int(a), int(b)
			case "ifrune", "torune", "whilerune", "revifrune", "revtorune", "revwhilerune":
				o.N = int(g.char())
			case "ifmatch", "tomatch", "whilematch", "revifmatch", "revtomatch", "revwhilematch":
				o.S = BStr(r.Pick("upper", "digit", "ab", "nota", "wide"))
				if r.P(10) {
					o.M = 1 + r.N(4) // the MatchFunc crashes at this call
				}
			case "readbool":
				o.S = BStr(r.Pick("", "*", "l", "U", "Cc", "x"))
			case "readint", "readuint":
				o.N = r.PickInt(8, 10, 16, 7)
				o.M = r.PickInt(8, 16, 32, 64, 12)
			case "state":
			case "linecol":
				o.N = r.PickInt(1, 2, 4, 8)
			case "since":
				o.N = r.N(len(text) + 1)
			case "get":
				o.N, o.M = r.N(len(text)+1), r.N(len(text)+1)
			default:
				o.S = BStr(arg())
			}
			ops = append(ops, o)
		}
		return ops
	}
	if long {
		t.Ops = prog(r.In(1, 2), r.In(50, 400))
		return t
	}
	if r.N(600) == 0 {
		// a deep nest of entry points
		t.Ops = prog(1, 2)
		one, fails := opScopes[r.N(len(opScopes)-1)], r.PickInt(3, 25, 60)
		for i := r.In(20, 300); i > 0; i-- {
			o := &Op{K: one, End: "ok", Body: t.Ops}
			if r.P(50) {
				o.K = opScopes[r.N(len(opScopes)-1)]
			}
			if r.P(fails) {
				o.End = "fail"
			}
			t.Ops = []*Op{o}
			if r.P(60) {
				t.Ops = append(prog(0, 1), o)
			}
		}
		return t
	}
	t.Ops = prog(r.In(1, 4), r.In(1, 8))
	return t
}

func hashOps(o *Outcome, ops []*Op) {
	for _, p := range ops {
		o.Hash.Str(p.K)
		o.Hash.Str(string(p.S))
		for _, l := range p.L {
			o.Hash.Str(string(l))
		}
		o.Hash.Int(p.N)
		o.Hash.Int(p.M)
		o.Hash.Str(p.End)
		hashOps(o, p.Body)
		o.Hash.Int(-7)
	}
}

// Machine executes a program.
type Machine struct {
	e       *Env
	s       *tok.Scanner
	text    string
	bad     string
	scopes  bool // check the entry points
	cursor  bool // check the single moves
	tee     *Tee
	fails   int // scopes that failed after a move
	crashes int
	calls   int
	moved   int
	h       Hash
	depth   int
}

func (m *Machine) fail(f string, a ...interface{}) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
}

func (m *Machine) run(ops []*Op) {
	for _, o := range ops {
		if m.bad != "" {
			return
		}
		m.op(o)
		if m.tee != nil {
			m.tee.check(m.s, "after "+o.K)
			if m.tee.bad != "" {
				m.fail("%s", m.tee.bad)
			}
		}
	}
}

func (m *Machine) op(o *Op) {
	m.calls++
	if o.K == "recover" {
		m.recov(o)
		return
	}
	for _, k := range opScopes {
		if k == o.K {
			m.scope(o)
			return
		}
	}
	m.step(o)
}

// recov runs the body and catches a crash, like a server that survives one.
func (m *Machine) recov(o *Op) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(errCrash); !ok {
				panic(r)
			}
			m.crashes++
			if p := mark(m.s); p < 0 || p > len(m.text) {
				m.fail("the Scanner is at %d of %d after a crash", p, len(m.text))
			}
		}
	}()
	m.run(o.Body)
}

// body is the callback of an entry point; it returns the position at its end.
func (m *Machine) body(o *Op, at *int) bool {
	m.run(o.Body)
	*at = mark(m.s)
	if o.End == "crash" {
		m.e.hit("crash")
		panic(errCrash{o.K})
	}
	if o.End == "fail" {
		m.e.hit("err")
	}
	return o.End == "ok"
}

func (m *Machine) scope(o *Op) {
	s := m.s
	from := mark(s)
	at := from
	var err error
	failure := errors.New("failure of " + o.K)
	read := func(x *tok.Scanner) error {
		if x != s {
			m.fail("%s handed over another Scanner", o.K)
		}
		if m.body(o, &at) {
			return nil
		}
		return failure
	}
	lambda := func() bool { return m.body(o, &at) }
	rd := &userReader{read}
	var tk tok.Token
	var str string
	hasTok, hasStr := false, false
	ok := false
	n := 0
	switch o.K {
	case "use":
		err = s.Use(rd)
	case "usefunc":
		err = s.UseFunc(read)
	case "traceuse":
		str, err = s.TraceUse(rd)
		hasStr = true
	case "traceusefunc":
		str, err = s.TraceUseFunc(read)
		hasStr = true
	case "tokenizeuse":
		tk, err = s.TokenizeUse(rd)
		hasTok = true
	case "captureuse":
		str, err = s.CaptureUse(rd)
		hasStr = true
	case "scope":
		ok = s.Scope(lambda)
	case "trace":
		str, ok = s.Trace(lambda)
		hasStr = true
	case "tokenize":
		tk, ok = s.Tokenize(lambda)
		hasTok = true
	case "capture":
		str, ok = s.Capture(lambda)
		hasStr = true
	case "while":
		res := s.While(func() bool {
			n++
			m.run(o.Body)
			at = mark(s)
			if o.End == "crash" && n > o.N {
				m.e.hit("crash")
				panic(errCrash{o.K})
			}
			return n <= o.N
		})
		p := mark(s)
		m.h.Int(p)
		if !m.scopes || m.bad != "" {
			return
		}
		if n != o.N+1 {
			m.fail("While called its function %d times, it returned true %d times", n, o.N)
		}
		if p != at {
			m.fail("While moved the Scanner from %d to %d by itself", at, p)
		}
		if res != (from < p) {
			m.fail("While returned %v after a move from %d to %d", res, from, p)
		}
		return
	}
	if o.K != "scope" && o.K != "trace" && o.K != "tokenize" && o.K != "capture" {
		ok = err == nil
		if m.scopes && !ok && err != failure && m.bad == "" {
			m.fail("%s returned the error %v for the error %v", o.K, err, failure)
		}
	}
	p := mark(s)
	m.h.Int(p)
	if !m.scopes || m.bad != "" {
		return
	}
	if ok != (o.End == "ok") {
		m.fail("%s reported %v, the callback %s", o.K, ok, o.End)
		return
	}
	if !ok {
		if at != from {
			m.fails++
		}
		if p != from {
			m.fail("%s from %d failed after the callback had moved to %d, the Scanner is left at %d", o.K, from, at, p)
		}
		if hasStr && o.K != "trace" && str != "" {
			m.fail("%s from %d failed but returned the text %q", o.K, from, str)
		}
		if hasTok && o.K != "tokenize" && tk.Len() != 0 {
			m.fail("%s from %d failed but returned the Token %v", o.K, from, tk)
		}
		return
	}
	if p != at {
		m.fail("%s from %d succeeded at %d, the Scanner is left at %d", o.K, from, at, p)
		return
	}
	a, b := from, at
	if a > b {
		a, b = b, a
	}
	if hasStr && str != m.text[a:b] {
		m.fail("%s from %d to %d returned the text %q, read was %q", o.K, from, at, str, m.text[a:b])
	}
	if hasTok {
		want := tok.MakeToken(tok.Marker(a), tok.Marker(b))
		if tk != want {
			m.fail("%s from %d to %d returned the Token %v", o.K, from, at, tk)
		}
	}
}

type userReader struct{ f tok.ReadFunc }

func (u *userReader) Read(s *tok.Scanner) error { return u.f(s) }
func (u *userReader) What() string              { return "user" }

func (m *Machine) matchFunc(o *Op) tok.MatchFunc {
	n := 0
	p := preds[string(o.S)]
	if p == nil {
		p = preds["ab"]
	}
	return func(r rune) bool {
		n++
		if n == o.M {
			m.e.hit("crash-match")
			panic(errCrash{"match"})
		}
		return p(r)
	}
}

// step executes a single move and compares it with the reference cursor.
func (m *Machine) step(o *Op) {
	s := m.s
	from := mark(s)
	defer func() {
		if r := recover(); r != nil {
			c, crash := r.(errCrash)
			if !crash {
				panic(r)
			}
			if m.cursor {
				// an interrupted search has not moved
				if p := mark(s); p != from && c.at == "match" {
					m.fail("%s was interrupted by a crash of its MatchFunc at %d and left the Scanner at %d", o.K, from, p)
				}
			}
			m.crashes++
			if !m.scopes {
				return // the user catches it
			}
			panic(r)
		}
	}()
	str := string(o.S)
	l := []string{}
	for _, x := range o.L {
		l = append(l, string(x))
	}
	rn, rm := rune(o.N), rune(o.M)
	ok := false
	val := ""
	fromErr := func(err error) { ok = err == nil }
	switch o.K {
	case "move":
		ok = s.Move(o.N)
	case "moverunes":
		ok = s.MoveRunes(o.N)
	case "tomarker":
		ok = s.ToMarker(tok.Marker(o.N))
	case "toend":
		ok = s.ToEnd()
	case "tostart":
		ok = s.ToStart()
	case "scanstring":
		val, ok = s.ScanString(o.N)
	case "if":
		ok = s.If(str)
	case "ifany":
		ok = s.IfAny(l...)
	case "to":
		ok = s.To(str)
	case "iffold":
		ok = s.IfFold(str)
	case "tofold":
		ok = s.ToFold(str)
	case "ifrune":
		ok = s.IfRune(rn)
	case "torune":
		ok = s.ToRune(rn)
	case "whilerune":
		ok = s.WhileRune(rn)
	case "ifanyrune":
		ok = s.IfAnyRune(str)
	case "toanyrune":
		ok = s.ToAnyRune(str)
	case "whileanyrune":
		ok = s.WhileAnyRune(str)
	case "ifbetween":
		ok = s.IfBetween(rn, rm)
	case "tobetween":
		ok = s.ToBetween(rn, rm)
	case "whilebetween":
		ok = s.WhileBetween(rn, rm)
	case "ifmatch":
		ok = s.IfMatch(m.matchFunc(o))
	case "tomatch":
		ok = s.ToMatch(m.matchFunc(o))
	case "whilematch":
		ok = s.WhileMatch(m.matchFunc(o))
	case "revif":
		ok = s.RevIf(str)
	case "revifany":
		ok = s.RevIfAny(l)
	case "revto":
		ok = s.RevTo(str)
	case "reviffold":
		ok = s.RevIfFold(str)
	case "revtofold":
		ok = s.RevToFold(str)
	case "revifrune":
		ok = s.RevIfRune(rn)
	case "revtorune":
		ok = s.RevToRune(rn)
	case "revwhilerune":
		ok = s.RevWhileRune(rn)
	case "revifanyrune":
		ok = s.RevIfAnyRune(str)
	case "revtoanyrune":
		ok = s.RevToAnyRune(str)
	case "revwhileanyrune":
		ok = s.RevWhileAnyRune(str)
	case "revifbetween":
		ok = s.RevIfBetween(rn, rm)
	case "revtobetween":
		ok = s.RevToBetween(rn, rm)
	case "revwhilebetween":
		ok = s.RevWhileBetween(rn, rm)
	case "revifmatch":
		ok = s.RevIfMatch(m.matchFunc(o))
	case "revtomatch":
		ok = s.RevToMatch(m.matchFunc(o))
	case "revwhilematch":
		ok = s.RevWhileMatch(m.matchFunc(o))
	case "readrune":
		x, err := s.ReadRune()
		val = string(x)
		fromErr(err)
	case "revreadrune":
		x, err := s.RevReadRune()
		val = string(x)
		fromErr(err)
	case "readbool":
		x, err := s.ReadBool(str)
		val = fmt.Sprint(x)
		fromErr(err)
	case "readint":
		x, err := s.ReadInt(o.N, o.M)
		val = fmt.Sprint(x)
		fromErr(err)
	case "readuint":
		x, err := s.ReadUint(o.N, o.M)
		val = fmt.Sprint(x)
		fromErr(err)
	case "state":
		val, ok = fmt.Sprint(s.AtStart(), s.AtEnd()), true
	case "since":
		val, ok = "#"+s.Since(tok.Marker(clampAt(o.N, m.text))), true
	case "get":
		val, ok = "#"+s.Get(tok.MakeToken(tok.Marker(clampAt(o.N, m.text)), tok.Marker(clampAt(o.M, m.text)))), true
	case "linecol":
		l, c := s.LineCol(o.N)
		val, ok = fmt.Sprintf("line %d column %d", l, c), true
	default:
		panic("unknown op " + o.K)
	}
	to := mark(s)
	m.h.Int(to)
	if to != from {
		m.moved++
	}
	if !m.cursor || m.bad != "" {
		return
	}
	if to < 0 || to > len(m.text) {
		m.fail("%s left the text of %d bytes: from %d to %d", opText(o), len(m.text), from, to)
		return
	}
	if !ok && to != from {
		m.fail("%s reported a failure at %d but moved to %d", opText(o), from, to)
		return
	}
	var head, tail string
	quiet(func() { head, tail = s.Head(), s.Tail() })
	if head != m.text[:to] || tail != m.text[to:] {
		m.fail("after %s at %d: Head is %q and Tail is %q", opText(o), to, head, tail)
		return
	}
	if want, wok, known := refMove(m.text, from, o); known {
		if ok != wok || to != want {
			m.fail("%s at %d of %q: got %v at %d, expected %v at %d", opText(o), from, m.text, ok, to, wok, want)
			return
		}
		if ok && opValues[o.K] {
			if exp := refValue(m.text, from, to, o); val != exp && exp != "\x00open" {
				m.fail("%s at %d of %q: moved to %d and returned %s, expected %s", opText(o), from, m.text, to, val, exp)
				return
			}
		}
	}
	switch {
	case o.K == "move" || o.K == "moverunes" || o.K == "tomarker" || o.K == "tostart":
	case strings.HasPrefix(o.K, "rev"):
		if to > from {
			m.fail("%s at %d moved forward to %d", opText(o), from, to)
		}
	default:
		if to < from {
			m.fail("%s at %d moved back to %d", opText(o), from, to)
		}
	}
}

// the calls that return a value
var opValues = map[string]bool{"scanstring": true, "readrune": true, "revreadrune": true, "readbool": true, "readint": true, "readuint": true,
	"state": true, "since": true, "get": true, "linecol": true}

func opText(o *Op) string {
	s := o.K
	if o.S != "" {
		s += fmt.Sprintf("(%q)", string(o.S))
	}
	if len(o.L) > 0 {
		s += fmt.Sprintf("(%q)", o.L)
	}
	if o.N != 0 || o.M != 0 {
		s += fmt.Sprintf("(%d,%d)", o.N, o.M)
	}
	return s
}

// refMove is the reference cursor: it returns where a call has to end, and
// false if it does not know.
func refMove(text string, p int, o *Op) (int, bool, bool) {
	head, tail := text[:p], text[p:]
	n := len(text)
	str := string(o.S)
	refuse := func() (int, bool, bool) { return p, false, true }
	one := func(f func(rune) bool) (int, bool, bool) {
		r, w := utf8.DecodeRuneInString(tail)
		if w > 0 && f(r) {
			return p + w, true, true
		}
		return refuse()
	}
	find := func(f func(rune) bool) (int, bool, bool) {
		for i, r := range tail {
			if f(r) {
				return p + i, true, true
			}
		}
		return refuse()
	}
	while := func(f func(rune) bool) (int, bool, bool) {
		for i, r := range tail {
			if !f(r) {
				return p + i, i > 0, true
			}
		}
		return n, n > p, true
	}
	revOne := func(f func(rune) bool) (int, bool, bool) {
		r, w := utf8.DecodeLastRuneInString(head)
		if w > 0 && f(r) {
			return p - w, true, true
		}
		return refuse()
	}
	// backwards: to the place behind the last rune that stops
	back := func(f func(rune) bool) (int, bool) {
		for q := p; q > 0; {
			r, w := utf8.DecodeLastRuneInString(text[:q])
			if f(r) {
				return q, true
			}
			q -= w
		}
		return 0, false
	}
	revFind := func(f func(rune) bool) (int, bool, bool) {
		if q, ok := back(f); ok {
			return q, true, true
		}
		return refuse()
	}
	revWhile := func(f func(rune) bool) (int, bool, bool) {
		q, _ := back(func(r rune) bool { return !f(r) })
		return q, q < p, true
	}
	not := func(int, bool, bool) (int, bool, bool) { return 0, false, false }
	clean := func(s string) bool { return utf8.ValidString(s) && !strings.ContainsRune(s, utf8.RuneError) }
	is := func(r rune) bool { return r == rune(o.N) }
	between := func(r rune) bool { return rune(o.N) <= r && r <= rune(o.M) }
	any := func(r rune) bool { return strings.ContainsRune(str, r) }
	pred := preds[str]
	switch o.K {
	case "state", "since", "get", "linecol":
		return p, true, true
	case "move":
		if (o.N >= 0 && o.N <= n-p) || (o.N < 0 && o.N >= -p) {
			return p + o.N, true, true
		}
		return refuse()
	case "tomarker":
		if o.N < 0 || o.N > n {
			return refuse()
		}
		return o.N, true, true
	case "toend":
		return n, true, true
	case "tostart":
		return 0, true, true
	case "moverunes":
		if o.N >= 0 {
			if w, ok := runesWidth(tail, o.N); ok {
				return p + w, true, true
			}
			return refuse()
		}
		q := p
		for i := 0; i < -o.N; i++ {
			_, w := utf8.DecodeLastRuneInString(text[:q])
			if w == 0 {
				return refuse()
			}
			q -= w
		}
		return q, true, true
	case "if":
		if strings.HasPrefix(tail, str) {
			return p + len(str), true, true
		}
		return refuse()
	case "ifany":
		for _, s := range o.L {
			if strings.HasPrefix(tail, string(s)) {
				return p + len(s), true, true
			}
		}
		return refuse()
	case "to":
		if i := strings.Index(tail, str); i >= 0 {
			return p + i, true, true
		}
		return refuse()
	case "iffold":
		if len(tail) >= len(str) && strings.EqualFold(tail[:len(str)], str) {
			return p + len(str), true, true
		}
		return refuse()
	case "ifrune":
		return one(is)
	case "torune":
		return find(is)
	case "ifanyrune":
		return one(any)
	case "toanyrune":
		if strings.ContainsRune(str, utf8.RuneError) || !utf8.ValidString(str) {
			return 0, false, false
		}
		return find(any)
	case "ifbetween":
		return one(between)
	case "tobetween":
		return find(between)
	case "ifmatch":
		return one(pred)
	case "tomatch":
		return find(pred)
	case "whilerune":
		return while(is)
	case "whilebetween":
		return while(between)
	case "whilematch":
		return while(pred)
	case "whileanyrune":
		if !clean(str) {
			return not(0, false, false)
		}
		q, _, _ := while(any)
		if q == n {
			return refuse() // the tests of the repository want no move here
		}
		return q, q > p, true
	case "tofold":
		if !clean(str) || !clean(text) {
			return not(0, false, false)
		}
		for i := 0; i+len(str) <= len(tail); i++ {
			if strings.EqualFold(tail[i:i+len(str)], str) {
				return p + i, true, true
			}
		}
		return refuse()
	case "scanstring":
		if o.N < 0 {
			return refuse()
		}
		if w, ok := runesWidth(tail, o.N); ok {
			return p + w, true, true
		}
		return refuse()
	case "revif":
		if strings.HasSuffix(head, str) {
			return p - len(str), true, true
		}
		return refuse()
	case "revifany":
		for _, s := range o.L {
			if strings.HasSuffix(head, string(s)) {
				return p - len(s), true, true
			}
		}
		return refuse()
	case "reviffold":
		if len(head) >= len(str) && strings.EqualFold(head[len(head)-len(str):], str) {
			return p - len(str), true, true
		}
		return refuse()
	case "revto":
		if !clean(str) || !clean(text) || str == "" {
			return not(0, false, false)
		}
		if i := strings.LastIndex(head, str); i >= 0 {
			return i + len(str), true, true
		}
		return refuse()
	case "revtofold":
		if !clean(str) || !clean(text) || str == "" {
			return not(0, false, false)
		}
		for q := p; q >= len(str); q-- {
			if utf8.RuneStart(append([]byte(text[q:]), 'x')[0]) && strings.EqualFold(text[q-len(str):q], str) {
				return q, true, true
			}
		}
		return refuse()
	case "revifrune":
		return revOne(is)
	case "revtorune":
		return revFind(is)
	case "revwhilerune":
		return revWhile(is)
	case "revifanyrune":
		return revOne(any)
	case "revtoanyrune":
		return revFind(any)
	case "revwhileanyrune":
		return revWhile(any)
	case "revifbetween":
		return revOne(between)
	case "revtobetween":
		return revFind(between)
	case "revwhilebetween":
		return revWhile(between)
	case "revifmatch":
		return revOne(pred)
	case "revtomatch":
		return revFind(pred)
	case "revwhilematch":
		return revWhile(pred)
	case "readrune":
		return one(func(r rune) bool { return r != utf8.RuneError })
	case "revreadrune":
		return revOne(func(r rune) bool { return r != utf8.RuneError })
	case "readbool":
		l := boolWords[str]
		for _, w := range l {
			if strings.HasPrefix(tail, w) {
				return p + len(w), true, true
			}
		}
		return refuse()
	case "readint", "readuint":
		if !(o.N == 8 || o.N == 10 || o.N == 16) || !(o.M == 8 || o.M == 16 || o.M == 32 || o.M == 64) {
			return refuse()
		}
		w := 0
		if o.K == "readint" && tail != "" && (tail[0] == '-' || tail[0] == '+') {
			w = 1
		}
		last := 0
		for e := w + 1; e <= len(tail); e++ {
			if strings.IndexByte("0123456789abcdefABCDEF", tail[e-1]) < 0 {
				break
			}
			if o.K == "readint" {
				if _, err := strconv.ParseInt(tail[:e], o.N, o.M); err != nil {
					break
				}
			} else if _, err := strconv.ParseUint(tail[:e], o.N, o.M); err != nil {
				break
			}
			last = e
		}
		if last == 0 {
			return refuse()
		}
		return p + last, true, true
	}
	return not(0, false, false)
}

var boolWords = map[string][]string{
	"":   {"true", "True", "TRUE", "false", "False", "FALSE"},
	"*":  {"true", "True", "TRUE", "false", "False", "FALSE"},
	"l":  {"true", "false"},
	"U":  {"TRUE", "FALSE"},
	"Cc": {"True", "False"},
}

// refValue is the value a read from a to b has to return.
func refValue(text string, a, b int, o *Op) string {
	if a > b {
		a, b = b, a
	}
	str := text[a:b]
	switch o.K {
	case "state":
		return fmt.Sprint(a == 0, a == len(text))
	case "since":
		x := clampAt(o.N, text)
		if x > a {
			a, x = x, a
		}
		return "#" + text[x:a]
	case "get":
		x, y := clampAt(o.N, text), clampAt(o.M, text)
		if x > y {
			x, y = y, x
		}
		return "#" + text[x:y]
	case "linecol":
		head := text[:a]
		line := head[strings.LastIndexByte(head, '\n')+1:]
		col := 1
		for i := 0; i < len(line); i++ {
			if line[i] == '\t' {
				col += o.N
			} else {
				col++
			}
			if line[i] >= 0x80 {
				return "\x00open" // whether a column is a byte or a rune is left open
			}
		}
		return fmt.Sprintf("line %d column %d", strings.Count(head, "\n")+1, col)
	case "readbool":
		return fmt.Sprint(strings.EqualFold(str, "true"))
	case "readint":
		i, _ := strconv.ParseInt(str, o.N, 64)
		return fmt.Sprint(i)
	case "readuint":
		i, _ := strconv.ParseUint(str, o.N, 64)
		return fmt.Sprint(i)
	}
	return str
}

// runMachine runs a program and returns the machine and how it ended.
func runMachine(e *Env, m *Machine, t *Task) string {
	m.e = e
	m.text = string(t.Text)
	m.h = newHash()
	return guarded(e, func() { m.run(t.Ops) })
}

func opCount(ops []*Op) int {
	n := 0
	for _, o := range ops {
		n += 1 + opCount(o.Body)
	}
	return n
}

func runTrackedOps(o *Outcome, t *Task) *Outcome {
	hashOps(o, t.Ops)
	e := newEnv(3000000)
	m := &Machine{s: newScanner(string(t.Text), 0), tee: &Tee{}}
	m.s.Tracker = m.tee
	old := cur
	cur = e
	end := runMachine(e, m, t)
	cur = old
	o.addEnv(e)
	o.Hash.Int(int(m.h))
	if m.tee.n < 2 {
		o.Trivial = true
	}
	if m.bad != "" {
		return o.fail("tracker", fmt.Sprintf("program on %q: %s", string(t.Text), m.bad))
	}
	_ = end
	return o
}

// ---------------------------------------------------------------------------
// C01

func init() {
	register(&Prop{
		ID: "C01", Quick: 3000000, Thorough: 60000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Sched: SchedSpec{Seed: r.U64(), Mean: r.PickInt(1, 2, 5, 20, 100)}}
			n := 1
			if r.P(35) {
				n = r.In(2, 3)
			}
			for ; n > 0; n-- {
				sc.Tasks = append(sc.Tasks, genProgram(r, opMoves, true))
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			ms := make([]*Machine, len(sc.Tasks))
			ends := make([]string, len(sc.Tasks))
			envs := []*Env{}
			fns := []func(*Env){}
			for i, t := range sc.Tasks {
				i, t := i, t
				o.addTask(t)
				hashOps(o, t.Ops)
				m := &Machine{scopes: true, s: newScanner(string(t.Text), 0)}
				observed(m.s, len(t.Text)+len(t.Ops))
				ms[i] = m
				envs = append(envs, newEnv(5000000))
				fns = append(fns, func(e *Env) { ends[i] = runMachine(e, m, t) })
			}
			s := runTasks(sc.Sched, envs, fns)
			o.Switch, o.Pairs = s.record, s.pairs
			o.Trivial = true
			for i, m := range ms {
				o.addEnv(envs[i])
				o.Hash.Int(int(m.h))
				if m.fails > 0 || m.crashes > 0 {
					o.Trivial = false
				}
				o.probe("failed after a move", m.fails > 0)
				o.probe("crash survived", m.crashes > 0)
				if m.bad != "" {
					o.fail("rollback", fmt.Sprintf("task %d on %q: %s", i, string(sc.Tasks[i].Text), m.bad))
				} else if ends[i] != "" && !strings.HasPrefix(ends[i], "crash@") {
					o.fail("rollback", fmt.Sprintf("task %d on %q: %s", i, string(sc.Tasks[i].Text), ends[i]))
				}
			}
			for _, sw := range s.record {
				o.Hash.Int(int(sw.At))
				o.Hash.Int(sw.To)
			}
			return o
		},
		Rule: "A case is one to three tasks, each a random program of nested entry points (Use, UseFunc, TraceUse, TraceUseFunc, TokenizeUse, CaptureUse, Scope, Trace, Tokenize, Capture, While) " +
			"on its own Scanner, whose callbacks move forward and back, succeed, fail or crash; crashes may be caught half way up. With several tasks a seeded scheduler preempts at statement level. " +
			"After every entry point position, result, error and returned text are compared with what the callback did. Non-trivial: a callback failed after a move or crashed; distinct by hash of programs, schedule and positions.",
		Real: realLib, Stub: []string{"callbacks of the user (simulated, with injected failures and crashes)"},
	})
	register(&Prop{
		ID: "C10", Quick: 12000000, Thorough: 240000000,
		Gen: func(r *Rng, th bool) *Scenario {
			return &Scenario{Tasks: []*Task{genProgram(r, opAll, r.P(20))}}
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			t := sc.Tasks[0]
			o.addTask(t)
			hashOps(o, t.Ops)
			e := newEnv(20000000)
			m := &Machine{cursor: true, s: newScanner(string(t.Text), 0)}
			if (len(t.Text)+len(t.Ops))%5 == 0 {
				quiet(func() { m.s = tok.NewRevScanner(string(t.Text)) })
				if p := mark(m.s); p != len(t.Text) {
					return o.fail("cursor", fmt.Sprintf("a Scanner that goes backwards on %q starts at %d", string(t.Text), p))
				}
			}
			observed(m.s, len(t.Text)+len(t.Ops))
			old := cur
			cur = e
			end := runMachine(e, m, t)
			cur = old
			o.addEnv(e)
			o.Hash.Int(int(m.h))
			if m.calls < 2 {
				o.Trivial = true
			}
			o.probe("invalid UTF-8", !utf8.ValidString(string(t.Text)))
			o.probe("crash of a MatchFunc", m.crashes > 0)
			if m.bad != "" {
				return o.fail("cursor", fmt.Sprintf("program on %q: %s", string(t.Text), m.bad))
			}
			if end != "" && !strings.HasPrefix(end, "crash@") {
				return o.fail("cursor", fmt.Sprintf("program on %q: %s", string(t.Text), end))
			}
			return o
		},
		Rule: "A case is a random program of up to some dozen calls of all moving and reading functions and of the questions about the position (AtStart, AtEnd, Since, Get, LineCol) of the Scanner, from the start or the end of a text with multi byte runes and damaged bytes, with out of range arguments, stale markers and MatchFuncs that crash. " +
			"After every call the position, the result, Head and Tail are compared with a reference cursor; calls the cursor does not describe have to stay inside of the text, move only in their direction and not at all if they report a failure. " +
			"Non-trivial: at least two calls; distinct by hash of program, text and positions.",
		Real: realLib, Stub: []string{"MatchFuncs and callbacks of the user (simulated, may crash)"},
	})
}
