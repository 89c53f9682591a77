package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/aiq/tok"
)

// BStr is a string that survives JSON even if it is not valid UTF-8.
type BStr string

func (b BStr) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *BStr) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(s)
	*b = BStr(u)
	return err
}

// Node describes a Reader.
type Node struct {
	ID   int
	K    string
	S    BStr    `json:",omitempty"`
	S2   BStr    `json:",omitempty"`
	L    []BStr  `json:",omitempty"`
	N    int     `json:",omitempty"`
	M    int     `json:",omitempty"`
	Raw  bool    `json:",omitempty"` // handed over as string or rune
	Kids []*Node `json:",omitempty"`
}

func (n *Node) clone() *Node {
	c := *n
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.clone())
	}
	return &c
}

func (n *Node) walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (n *Node) size() int {
	c := 0
	n.walk(func(*Node) { c++ })
	return c
}

func (n *Node) String() string {
	var b strings.Builder
	n.write(&b)
	return b.String()
}

func (n *Node) write(b *strings.Builder) {
	fmt.Fprintf(b, "%s#%d", n.K, n.ID)
	a := []string{}
	if n.S != "" {
		a = append(a, strconv.Quote(string(n.S)))
	}
	if n.S2 != "" {
		a = append(a, strconv.Quote(string(n.S2)))
	}
	for _, l := range n.L {
		a = append(a, strconv.Quote(string(l)))
	}
	switch n.K {
	case "rune":
		a = append(a, strconv.QuoteRune(rune(n.N)))
	case "between", "holey":
		a = append(a, strconv.QuoteRune(rune(n.N)), strconv.QuoteRune(rune(n.M)))
	case "times", "int", "uint", "jbeg", "jend", "ref":
		a = append(a, strconv.Itoa(n.N))
		if n.M != 0 {
			a = append(a, strconv.Itoa(n.M))
		}
	}
	for _, k := range n.Kids {
		a = append(a, k.String())
	}
	if len(a) > 0 {
		b.WriteString("(" + strings.Join(a, ", ") + ")")
	}
}

var preds = map[string]func(rune) bool{
	"upper": unicode.IsUpper,
	"digit": unicode.IsDigit,
	"ab":    func(r rune) bool { return r == 'a' || r == 'b' },
	"nota":  func(r rune) bool { return r != 'a' },
	"wide":  func(r rune) bool { return r > 127 },
}

// ---------------------------------------------------------------------------

// Inst is a built Reader tree or grammar together with its observers.
type Inst struct {
	root   tok.Reader
	basket *tok.Basket
	log    *tok.Log
	rules  []*tok.Rule
	janus  map[int]*[2]tok.Reader
	opt    BuildOpt
	gram   tok.Grammar
}

// BuildOpt selects how a tree is built.
type BuildOpt struct {
	Rec   bool // record every Read
	NoMon bool // leave the Monitor observers out

	Basket *tok.Basket // for the picks
}

// buildTree builds the tree with its own observers and Janus pairs.
func buildTree(root *Node, rules []*Node, opt BuildOpt) *Inst {
	in := &Inst{basket: &tok.Basket{}, log: &tok.Log{}, janus: map[int]*[2]tok.Reader{}, opt: opt}
	if opt.Basket != nil {
		in.basket = opt.Basket
	}
	for i := range rules {
		in.rules = append(in.rules, &tok.Rule{Name: fmt.Sprintf("R%d", i)})
	}
	all := append([]*Node{root}, rules...)
	for _, n := range all {
		n.walk(func(x *Node) {
			if x.K == "jend" {
				in.janus[x.N] = nil
			}
		})
	}
	for i, n := range rules {
		in.rules[i].Reader = in.build(n)
	}
	in.root = in.build(root)
	// ends without a begin
	return in
}

func (in *Inst) kid(n *Node, i int) tok.Reader {
	if i < len(n.Kids) {
		return in.build(n.Kids[i])
	}
	return tok.Lit("")
}

func (in *Inst) arg(n *Node, i int) interface{} {
	if i < len(n.Kids) {
		k := n.Kids[i]
		if k.Raw && !in.opt.Rec {
			if k.K == "lit" {
				return string(k.S)
			} else if k.K == "rune" {
				return rune(k.N)
			}
		}
		return in.build(k)
	}
	return tok.Lit("")
}

func (in *Inst) args(n *Node, from int) []interface{} {
	res := []interface{}{}
	for i := from; i < len(n.Kids); i++ {
		res = append(res, in.arg(n, i))
	}
	return res
}

func (in *Inst) build(n *Node) tok.Reader {
	r := in.build1(n)
	if in.opt.Rec {
		return &recReader{id: n.ID, kind: n.K, node: n, sub: r}
	}
	return r
}

// late resolves a Reader at the first use, for ends built before their begin.
type lateReader struct {
	in   *Inst
	pair int
}

func (l *lateReader) get() tok.Reader {
	p := l.in.janus[l.pair]
	if p == nil {
		b, e := tok.Janus("j", tok.Lit("q"))
		p = &[2]tok.Reader{b, e}
		l.in.janus[l.pair] = p
	}
	return p[1]
}
func (l *lateReader) Read(s *tok.Scanner) error { return l.get().Read(s) }
func (l *lateReader) What() string              { return l.get().What() }

func (in *Inst) build1(n *Node) tok.Reader {
	switch n.K {
	case "lit":
		return tok.Lit(string(n.S))
	case "rune":
		return tok.Rune(rune(n.N))
	case "anyrune":
		return tok.AnyRune(string(n.S))
	case "between":
		return tok.Between(rune(n.N), rune(n.M))
	case "betweenany":
		return tok.BetweenAny(string(n.S))
	case "set":
		return tok.Set(string(n.S), string(n.S2))
	case "bbany":
		return tok.BuildBetweenAny([]rune(string(n.S))...)
	case "digit":
		return tok.Digit()
	case "hex":
		return tok.HexDigit()
	case "holey":
		return tok.Holey(rune(n.N), rune(n.M), string(n.S))
	case "fold":
		return tok.Fold(string(n.S))
	case "match":
		p, id := preds[string(n.S)], siteOf(n)
		return tok.Match(string(n.S), func(r rune) bool {
			if e := cur; e != nil {
				e.inMatch(id)
			}
			return p(r)
		})
	case "ws":
		return tok.WS()
	case "nl":
		return tok.NL()
	case "bool":
		r := tok.Bool(string(n.S))
		return &valReader{r, func() string { return fmt.Sprint(r.Value) }, &Op{K: "readbool", S: n.S}}
	case "int":
		r := tok.Int(n.N, n.M)
		return &valReader{r, func() string { return fmt.Sprint(r.Value) }, &Op{K: "readint", N: n.N, M: n.M}}
	case "uint":
		r := tok.Uint(n.N, n.M)
		return &valReader{r, func() string { return fmt.Sprint(r.Value) }, &Op{K: "readuint", N: n.N, M: n.M}}
	case "atend":
		return tok.AtEnd()
	case "inv":
		return invalids[n.N%len(invalids)]()
	case "any":
		return tok.Any(in.args(n, 0)...)
	case "anyfold":
		l := []string{}
		for _, s := range n.L {
			l = append(l, string(s))
		}
		return tok.AnyFold(l...)
	case "at":
		return tok.At(in.kid(n, 0))
	case "body":
		return tok.Body(in.kid(n, 0), in.kid(n, 1))
	case "bodytail":
		return tok.BodyTail(in.kid(n, 0), in.kid(n, 1))
	case "many":
		return tok.Many(in.arg(n, 0))
	case "zom":
		return tok.Zom(in.arg(n, 0))
	case "opt":
		return tok.Opt(in.arg(n, 0))
	case "to":
		return tok.To(in.arg(n, 0))
	case "past":
		return tok.Past(in.arg(n, 0))
	case "not":
		return tok.Not(in.kid(n, 0))
	case "named":
		return tok.Named("named", in.kid(n, 0))
	case "seq":
		return tok.Seq(in.args(n, 0)...)
	case "skipseq":
		return tok.SkipSeq(in.kid(n, 0), in.args(n, 1)...)
	case "skipws":
		return tok.SkipWSSeq(in.args(n, 0)...)
	case "times":
		return tok.Times(n.N, in.kid(n, 0))
	case "map":
		m := tok.Map(in.layer(n, "map-sub", in.kid(n, 0)), in.mapFunc(n))
		for i := 0; i < n.M; i++ {
			m = tok.Map(m, in.mapFunc(n))
		}
		return m
	case "pick":
		return tok.Pick(in.layer(n, "pick-sub", in.kid(n, 0)), in.basket, string(n.S))
	case "mon":
		if in.opt.NoMon {
			return in.kid(n, 0)
		}
		return tok.Monitor(in.layer(n, "mon-sub", in.kid(n, 0)), in.log, string(n.S))
	case "rule":
		r := &tok.Rule{Name: string(n.S), Reader: in.kid(n, 0)}
		for _, c := range string(n.S2) {
			switch c {
			case 'p':
				r.Reader = in.layer(n, "pick-sub", r.Reader)
				r.Pick(in.basket)
			case 'm':
				if !in.opt.NoMon {
					r.Reader = in.layer(n, "mon-sub", r.Reader)
					r.Monitor(in.log)
				}
			case 'f':
				r.Reader = in.layer(n, "map-sub", r.Reader)
				r.Map(in.mapFunc(n))
			case 'F': // a second one right above
				r.Map(in.mapFunc(n))
			}
		}
		return r
	case "ref":
		return in.rules[n.N%len(in.rules)]
	case "jbeg":
		b, e := tok.Janus("j", in.kid(n, 0))
		in.janus[n.N] = &[2]tok.Reader{b, e}
		return b
	case "jend":
		return &lateReader{in, n.N}
	case "flt":
		f := &faultReader{site: siteOf(n), sub: in.kid(n, 0)}
		if n.M == 1 {
			return tok.Wrap("flt", f.Read)
		}
		return f
	}
	panic("unknown node kind " + n.K)
}

// invalids build Readers from parameters that are not valid. None of them ever
// matches.
var invalids = []func() tok.Reader{
	func() tok.Reader { return tok.InvalidReader("not %s", "valid") },
	func() tok.Reader { return tok.Any("a", 1.5) },
	func() tok.Reader { return tok.Any('a', 7) },
	func() tok.Reader { return tok.Seq("", struct{}{}) },
	func() tok.Reader { return tok.SkipSeq(tok.WS(), 1.5) },
	func() tok.Reader { return tok.SkipWSSeq("a", 1.5) },
	func() tok.Reader { return tok.Opt(1.5) },
	func() tok.Reader { return tok.Many(1.5) },
	func() tok.Reader { return tok.Zom(1.5) },
	func() tok.Reader { return tok.To(1.5) },
	func() tok.Reader { return tok.Past(1.5) },
	func() tok.Reader { return tok.BetweenAny("a_z") },
	func() tok.Reader { return tok.BetweenAny("a-zb") },
	func() tok.Reader { return tok.BetweenAny("a-z0-") },
	func() tok.Reader { return tok.BetweenAny("0-9a+z") },
	func() tok.Reader { return tok.Set("a-", "b") },
	func() tok.Reader { return tok.Set("ab", "ab") },
	func() tok.Reader { return tok.BuildBetweenAny('a') },
	func() tok.Reader { return tok.BuildBetweenAny('a', 'z', '0') },
}

// valReader looks at the value that a value Reader keeps.
type valReader struct {
	tok.Reader
	value func() string
	op    *Op
}

func (r *valReader) Read(s *tok.Scanner) error {
	e := cur
	from := mark(s)
	head := tail(s)
	err := r.Reader.Read(s)
	if e == nil || err != nil {
		return err
	}
	n := mark(s) - from
	if n < 0 || n > len(head) {
		return nil
	}
	if want := refValue(head[:n], 0, n, r.op); r.value() != want && e.badValue == "" {
		e.badValue = fmt.Sprintf("the value of the Read of %q at %d is %s", head[:n], from, r.value())
	}
	return nil
}

// layer records what a Map, Pick or Monitor sees.
func (in *Inst) layer(n *Node, kind string, r tok.Reader) tok.Reader {
	if !in.opt.Rec {
		return r
	}
	l := &recReader{id: n.ID, kind: kind, node: n, sub: r, rule: string(n.S)}
	if kind == "pick-sub" {
		l.pick = string(n.S)
	}
	return l
}

func siteOf(n *Node) string { return "n" + strconv.Itoa(n.ID) }

func (in *Inst) mapFunc(n *Node) tok.MapFunc {
	site := siteOf(n)
	return func(t tok.Token) {
		if e := cur; e != nil {
			e.onMap(site, t)
		}
	}
}

// ---------------------------------------------------------------------------
// Faults

// Fault is an injected failure of a user supplied part at a position.
type Fault struct {
	Site string
	Pos  int
	Kind string // err, errpart, errback, errafter, lie, cancel, crash, crashpart, crashafter, stall, ask
	K    int    `json:",omitempty"`
	RE   bool   `json:",omitempty"` // the error is a ReadError
}

func (f *Fault) String() string { return fmt.Sprintf("%s@%s:%d k=%d", f.Kind, f.Site, f.Pos, f.K) }

// runesWidth is the number of bytes of the first k runes of str, and false if
// there are fewer.
func runesWidth(str string, k int) (int, bool) {
	w := 0
	for i := 0; i < k; i++ {
		if w >= len(str) {
			return 0, false
		}
		_, n := utf8.DecodeRuneInString(str[w:])
		w += n
	}
	return w, true
}

// lastWidth is the number of bytes of the last k runes of str.
func lastWidth(str string, k int) int {
	w := 0
	for ; k > 0; k-- {
		_, n := utf8.DecodeLastRuneInString(str[:len(str)-w])
		w += n
	}
	return w
}

// faultReader is a Reader of the user that delegates to sub and fails where
// the fault plan says so.
type faultReader struct {
	site string
	sub  tok.Reader
}

func (r *faultReader) What() string { return r.sub.What() }

func (r *faultReader) Read(s *tok.Scanner) error {
	e := cur
	if e == nil {
		return r.sub.Read(s)
	}
	pos := mark(s)
	if e.trace != nil {
		e.trace.visit(r.site, pos)
	}
	if e.sticky {
		e.hit("cancelled")
		return errInjected
	}
	f := e.faults[fkey{r.site, pos}]
	if f == nil {
		return r.sub.Read(s)
	}
	fail := func() error {
		if f.RE {
			var err error
			quiet(func() { err = s.ErrorFor("injected") })
			return err
		}
		return errInjected
	}
	part := func() {
		if w, ok := runesWidth(tail(s), f.K); ok {
			s.Move(w)
		}
	}
	e.hit(f.Kind)
	switch f.Kind {
	case "err":
		return fail()
	case "errpart":
		part()
		return fail()
	case "errback":
		s.Move(-lastWidth(head(s), f.K))
		return fail()
	case "errafter":
		if err := r.sub.Read(s); err != nil {
			return err
		}
		return fail()
	case "lie":
		part()
		return nil
	case "cancel":
		e.sticky = true
		return fail()
	case "crash":
		panic(errCrash{r.site})
	case "crashpart":
		part()
		panic(errCrash{r.site})
	case "crashafter":
		if err := r.sub.Read(s); err != nil {
			return err
		}
		panic(errCrash{r.site})
	case "ask":
		if e.ask != nil {
			e.ask()
		}
		return r.sub.Read(s)
	case "stall":
		for i := 0; i < f.K; i++ {
			hook(-1)
		}
		return r.sub.Read(s)
	}
	panic("unknown fault kind " + f.Kind)
}

func (e *Env) hit(kind string) {
	if e.fired == nil {
		e.fired = map[string]int{}
	}
	e.fired[kind]++
	if e.trace != nil {
		e.trace.h.Str(kind)
	}
}

// inMatch is called for every call of a MatchFunc.
func (e *Env) inMatch(site string) {
	f := e.faults[fkey{site, -1}]
	if f == nil || f.Kind != "crash" {
		return
	}
	f.K--
	if f.K == 0 {
		e.hit("crash-match")
		panic(errCrash{site})
	}
}

func (e *Env) onMap(site string, t tok.Token) {
	if e.trace != nil {
		e.trace.onMap(site, t)
	}
	if f := e.faults[fkey{site, -2}]; f != nil && f.Kind == "crash" {
		e.hit("crash-map")
		if e.trace != nil {
			e.trace.mapCrash = site
		}
		panic(errCrash{site})
	}
}
