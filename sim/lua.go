package main

import (
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Reference for the syntax of Lua 5.4: a scanner for tokens with the longest
// match and a recursive descent over the tokens. It knows nothing of the
// library.

type luaTok struct {
	kind     byte // n name, w keyword, d numeral, s string, o operator
	from, to int
	text     string
}

type luaNode struct {
	rule     string
	from, to int // first and last token; offsets for comments
}

var luaWords = map[string]bool{
	"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true,
	"function": true, "goto": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true,
	"repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true,
}

var luaOps = []string{
	"...", "..", "::", "==", "~=", "<=", ">=", "<<", ">>", "//",
	"+", "-", "*", "/", "%", "^", "#", "&", "~", "|", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", ".",
}

var luaBin = map[string]bool{
	"+": true, "-": true, "*": true, "/": true, "//": true, "^": true, "%": true, "&": true, "~": true, "|": true, ">>": true, "<<": true,
	"..": true, "<": true, "<=": true, ">": true, ">=": true, "==": true, "~=": true, "and": true, "or": true,
}

var luaWordList = func() []string {
	l := []string{}
	for w := range luaWords {
		l = append(l, w)
	}
	sort.Strings(l)
	return l
}()

func luaAlnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func isHex(c byte) bool { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

// luaNumber checks the text of a numeral.
func luaNumber(t string) bool {
	digit, exp := isDigit, "eE"
	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
		t, digit, exp = t[2:], isHex, "pP"
	}
	run := func(f func(byte) bool) int {
		n := 0
		for n < len(t) && f(t[n]) {
			n++
		}
		t = t[n:]
		return n
	}
	n := run(digit)
	if strings.HasPrefix(t, ".") {
		t = t[1:]
		n += run(digit)
	}
	if n == 0 {
		return false
	}
	if t != "" && strings.ContainsRune(exp, rune(t[0])) {
		t = t[1:]
		if t != "" && (t[0] == '+' || t[0] == '-') {
			t = t[1:]
		}
		if run(isDigit) == 0 {
			return false
		}
	}
	return t == ""
}

// luaQuoted returns the end of the quoted string at i, -1 if it is none. open
// is set if the verdict depends on what is left open.
func luaQuoted(t string, i int, open *bool) int {
	q := t[i]
	i++
	at := func(k int) byte {
		if k < len(t) {
			return t[k]
		}
		return 0
	}
	for i < len(t) {
		c := t[i]
		switch {
		case c == q:
			return i + 1
		case c == '\n' || c == '\r':
			return -1
		case c != '\\':
			i++
		default:
			i++
			if i >= len(t) {
				return -1
			}
			c = t[i]
			switch {
			case strings.IndexByte("abfnrtv\"'\\", c) >= 0:
				i++
			case c == '\n' || c == '\r':
				i++
				if d := at(i); d != c && (d == '\n' || d == '\r') {
					i++
				}
			case c == 'z':
				i++
				for i < len(t) && strings.IndexByte(" \t\r\n\v\f", t[i]) >= 0 {
					i++
				}
			case c == 'x':
				if !isHex(at(i+1)) || !isHex(at(i+2)) {
					return -1
				}
				i += 3
			case c == 'u':
				if at(i+1) != '{' {
					return -1
				}
				k := i + 2
				for isHex(at(k)) {
					k++
				}
				if k == i+2 || at(k) != '}' {
					return -1
				}
				if k-i-2 > 7 {
					*open = true
				}
				i = k + 1
			case isDigit(c):
				v := 0
				for n := 0; n < 3 && isDigit(at(i)); n++ {
					v = v*10 + int(t[i]-'0')
					i++
				}
				if v > 255 {
					return -1
				}
			default:
				return -1
			}
		}
	}
	return -1
}

// luaLex splits the text into tokens. ok is false if a token is malformed.
func luaLex(t string, i int) (toks []luaTok, notes []luaNode, ok, open bool) {
	if strings.ContainsAny(t, "\v\f") {
		open = true
	}
	for i < len(t) {
		c := t[i]
		from := i
		add := func(kind byte, to int) {
			toks = append(toks, luaTok{kind, from, to, t[from:to]})
			i = to
		}
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.HasPrefix(t[i:], "--"):
			e := refLong(t[i+2:])
			switch {
			case e == -1:
				return toks, notes, false, open
			case e == -2:
				e = strings.IndexAny(t[i:], "\r\n")
				if e < 0 {
					e = len(t) - i
				}
				e += i
			default:
				e += i + 2
			}
			notes = append(notes, luaNode{"Comment", i, e})
			i = e
		case isDigit(c) || c == '.' && i+1 < len(t) && isDigit(t[i+1]):
			exp := "eE"
			k := i
			if strings.HasPrefix(t[i:], "0x") || strings.HasPrefix(t[i:], "0X") {
				exp = "pP"
				k += 2
			}
			for k < len(t) {
				if strings.IndexByte(exp, t[k]) >= 0 && k+1 < len(t) && (t[k+1] == '+' || t[k+1] == '-') {
					k += 2
				} else if luaAlnum(t[k]) || t[k] == '.' {
					k++
				} else {
					break
				}
			}
			if !luaNumber(t[i:k]) {
				return toks, notes, false, open
			}
			add('d', k)
		case luaAlnum(c):
			k := i
			for k < len(t) && luaAlnum(t[k]) {
				k++
			}
			if luaWords[t[i:k]] {
				add('w', k)
			} else {
				add('n', k)
			}
		case c == '"' || c == '\'':
			e := luaQuoted(t, i, &open)
			if e < 0 {
				return toks, notes, false, open
			}
			add('s', e)
		case c == '[' && i+1 < len(t) && (t[i+1] == '[' || t[i+1] == '='):
			e := refLong(t[i:])
			if e < 0 {
				return toks, notes, false, open
			}
			add('s', i+e)
		default:
			l := 0
			for _, op := range luaOps {
				if strings.HasPrefix(t[i:], op) {
					l = len(op)
					break
				}
			}
			if l == 0 {
				return toks, notes, false, open
			}
			add('o', i+l)
		}
	}
	return toks, notes, true, open
}

type luaParser struct {
	toks  []luaTok
	p     int
	nodes []luaNode
}

type luaStop struct{}

func (l *luaParser) is(text string) bool {
	return l.p < len(l.toks) && l.toks[l.p].text == text && l.toks[l.p].kind != 's'
}

func (l *luaParser) opt(text string) bool {
	if l.is(text) {
		l.p++
		return true
	}
	return false
}

func (l *luaParser) need(text string) {
	if !l.opt(text) {
		panic(luaStop{})
	}
}

func (l *luaParser) kind() byte {
	if l.p < len(l.toks) {
		return l.toks[l.p].kind
	}
	return 0
}

// node records what was read since the token at from.
func (l *luaParser) node(rule string, from int) {
	if l.p > from {
		l.nodes = append(l.nodes, luaNode{rule, from, l.p - 1})
	}
}

func (l *luaParser) name() {
	if l.kind() != 'n' {
		panic(luaStop{})
	}
	l.p++
	l.node("Name", l.p-1)
}

func (l *luaParser) str() {
	l.p++
	l.node("LiteralString", l.p-1)
}

func (l *luaParser) block() {
	a := l.p
	for {
		if l.p == len(l.toks) || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") {
			break
		}
		if l.is("return") {
			b := l.p
			l.p++
			if !(l.p == len(l.toks) || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") || l.is(";")) {
				l.expList()
			}
			l.opt(";")
			l.node("retstat", b)
			break
		}
		l.stat()
	}
	l.node("block", a)
}

func (l *luaParser) stat() {
	a := l.p
	rule := ""
	switch {
	case l.opt(";"):
	case l.opt("::"):
		l.name()
		l.need("::")
		rule = "label"
	case l.opt("break"):
		rule = "break"
	case l.opt("goto"):
		l.name()
		rule = "goto"
	case l.opt("do"):
		l.block()
		l.need("end")
		rule = "do"
	case l.opt("while"):
		l.exp()
		l.need("do")
		l.block()
		l.need("end")
		rule = "while"
	case l.opt("repeat"):
		l.block()
		l.need("until")
		l.exp()
		rule = "repeat"
	case l.opt("if"):
		l.exp()
		l.need("then")
		l.block()
		for l.opt("elseif") {
			l.exp()
			l.need("then")
			l.block()
		}
		if l.opt("else") {
			l.block()
		}
		l.need("end")
		rule = "ifelse"
	case l.opt("for"):
		b := l.p
		l.name()
		if l.opt("=") {
			l.exp()
			l.need(",")
			l.exp()
			if l.opt(",") {
				l.exp()
			}
			rule = "for"
		} else {
			for l.opt(",") {
				l.name()
			}
			l.node("namelist", b)
			l.need("in")
			l.expList()
			rule = "foreach"
		}
		l.need("do")
		l.block()
		l.need("end")
	case l.opt("function"):
		b := l.p
		l.name()
		for l.opt(".") {
			l.name()
		}
		if l.opt(":") {
			l.name()
		}
		l.node("funcname", b)
		l.funcBody()
		rule = "func"
	case l.opt("local"):
		if l.opt("function") {
			l.name()
			l.funcBody()
			rule = "localfunc"
			break
		}
		b := l.p
		for {
			l.name()
			c := l.p
			if l.opt("<") {
				l.name()
				l.need(">")
				l.node("attrib", c)
			}
			if !l.opt(",") {
				break
			}
		}
		l.node("attnamelist", b)
		if l.opt("=") {
			l.expList()
		}
		rule = "localatt"
	default:
		k := l.suffixed()
		if k == 'c' {
			rule = "funccall"
			break
		}
		for k == 'v' && l.opt(",") {
			k = l.suffixed()
		}
		if k != 'v' {
			panic(luaStop{})
		}
		l.node("varlist", a)
		l.need("=")
		l.expList()
	}
	if rule != "" {
		l.node(rule, a)
	}
	l.node("stat", a)
}

// suffixed reads a variable (v), a call (c) or an expression in brackets (p).
func (l *luaParser) suffixed() byte {
	k := byte('v')
	if l.opt("(") {
		l.exp()
		l.need(")")
		k = 'p'
	} else {
		l.name()
	}
	for {
		switch {
		case l.opt("."):
			l.name()
			k = 'v'
		case l.opt("["):
			l.exp()
			l.need("]")
			k = 'v'
		case l.opt(":"):
			l.name()
			if !l.args() {
				panic(luaStop{})
			}
			k = 'c'
		case l.args():
			k = 'c'
		default:
			return k
		}
	}
}

func (l *luaParser) args() bool {
	a := l.p
	switch {
	case l.opt("("):
		if !l.is(")") {
			l.expList()
		}
		l.need(")")
	case l.is("{"):
		l.table()
	case l.kind() == 's':
		l.str()
	default:
		return false
	}
	l.node("funcargs", a)
	return true
}

func (l *luaParser) table() {
	a := l.p
	l.need("{")
	b := l.p
	for !l.is("}") {
		c := l.p
		if l.opt("[") {
			l.exp()
			l.need("]")
			l.need("=")
			l.exp()
		} else if l.kind() == 'n' && l.p+1 < len(l.toks) && l.toks[l.p+1].text == "=" {
			l.name()
			l.need("=")
			l.exp()
		} else {
			l.exp()
		}
		l.node("field", c)
		if !l.is(",") && !l.is(";") {
			break
		}
		l.p++
		l.node("fieldsep", l.p-1)
	}
	l.node("fieldlist", b)
	l.need("}")
	l.node("tableconstructor", a)
}

func (l *luaParser) funcBody() {
	a := l.p
	l.need("(")
	b := l.p
	if !l.is(")") {
		if !l.opt("...") {
			l.name()
			e := l.p
			for l.is(",") && l.p+1 < len(l.toks) && l.toks[l.p+1].kind == 'n' {
				l.p++
				l.name()
				e = l.p
			}
			l.nodes = append(l.nodes, luaNode{"namelist", b, e - 1})
			if l.opt(",") {
				l.need("...")
			}
		}
		l.node("funcparams", b)
	}
	l.need(")")
	l.block()
	l.need("end")
	l.node("funcbody", a)
}

func (l *luaParser) expList() {
	a := l.p
	l.exp()
	for l.opt(",") {
		l.exp()
	}
	l.node("explist", a)
}

func (l *luaParser) exp() {
	a := l.p
	switch {
	case l.is("-") || l.is("not") || l.is("#") || l.is("~"):
		l.p++
		l.node("unop", a)
		l.exp()
		return
	case l.opt("nil") || l.opt("true") || l.opt("false") || l.opt("..."):
	case l.kind() == 'd':
		l.p++
		l.node("Numeral", a)
	case l.kind() == 's':
		l.str()
	case l.opt("function"):
		l.funcBody()
		l.node("funcdef", a)
	case l.is("{"):
		l.table()
	default:
		l.suffixed()
	}
	if k := l.kind(); (k == 'o' || k == 'w') && luaBin[l.toks[l.p].text] {
		l.p++
		l.node("binop", l.p-1)
		l.exp()
	}
}

// luaChecked are the rules whose reads are compared.
var luaChecked = map[string]bool{}

func init() {
	for _, r := range strings.Fields("Name Numeral LiteralString Comment unop binop fieldsep field fieldlist tableconstructor funcparams funcbody funcdef funcargs " +
		"explist namelist varlist funcname label retstat attrib attnamelist break goto do while repeat ifelse for foreach func localfunc localatt funccall stat block") {
		luaChecked[r] = true
	}
}

// refLua parses a text. open is set if the verdict is left open.
func refLua(t string, script bool) (toks []luaTok, nodes []luaNode, ok, open bool) {
	i := 0
	if script && strings.HasPrefix(t, "#!") {
		i = strings.IndexAny(t, "\r\n")
		if i < 0 {
			i = len(t)
		}
	}
	toks, nodes, ok, open = luaLex(t, i)
	if !ok {
		return
	}
	l := &luaParser{toks: toks}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, is := v.(luaStop); !is {
					panic(v)
				}
				ok = false
			}
		}()
		l.block()
		ok = l.p == len(l.toks)
	}()
	nodes = append(nodes, l.nodes...)
	return
}

// luaSpans renders nodes as sorted list of rule and text range.
func luaSpans(toks []luaTok, nodes []luaNode) []string {
	l := []string{}
	for _, n := range nodes {
		from, to := n.from, n.to
		if n.rule != "Comment" {
			from, to = toks[n.from].from, toks[n.to].to
		}
		l = append(l, PickEv{n.rule, from, to}.String())
	}
	sort.Strings(l)
	return l
}

// luaTrim renders picks the same way: without the blanks and comments at both
// ends, and without those that hold nothing else.
func luaTrim(toks []luaTok, picks []PickEv) ([]string, string) {
	l := []string{}
	for _, p := range picks {
		if !luaChecked[p.Info] {
			continue
		}
		if p.Info == "Comment" {
			l = append(l, p.String())
			continue
		}
		a := sort.Search(len(toks), func(i int) bool { return toks[i].from >= p.From })
		b := sort.Search(len(toks), func(i int) bool { return toks[i].to > p.To }) - 1
		if a > 0 && toks[a-1].to > p.From || b+1 < len(toks) && toks[b+1].from < p.To {
			return nil, p.String() + " cuts a token"
		}
		if a <= b {
			l = append(l, PickEv{p.Info, toks[a].from, toks[b].to}.String())
		}
	}
	sort.Strings(l)
	return l, ""
}

// ---------------------------------------------------------------------------
// Generator of chunks

type luaGen struct {
	r    *Rng
	toks []string
	left int // tokens that may still be spent
}

func (g *luaGen) add(l ...string) {
	g.toks = append(g.toks, l...)
	g.left -= len(l)
}

func (g *luaGen) name() {
	g.add(g.r.Pick("a", "b", "x1", "_", "A_9", "f", "g", "self", "nilx", "nothing", "order", "android", "endx", "_end", "doit", "iff", "functional", "returns", "breakx",
		"truely", "falsed", "inner", "gotox", "localx", "whiles", "forx", "thens", "elsex", "untilx", "repeats", "e", "x"))
}

func (g *luaGen) str() {
	r := g.r
	switch r.N(4) {
	case 0:
		e := strings.Repeat("=", r.N(3))
		b := ""
		for i := r.N(4); i > 0; i-- {
			if r.P(4) {
				b += string(anyRune(r))
			}
			b += r.Pick("a", "]", "]=", "é", "\n", "--", "\"", "[[", "]"+e+"x", "\\", "\xff")
		}
		b = strings.ReplaceAll(b, "]"+e+"]", "")
		for strings.HasSuffix(b, "]"+e) || strings.Contains(b, "]"+e+"]") {
			b = strings.ReplaceAll(b, "]", ".")
		}
		g.add("[" + e + "[" + b + "]" + e + "]")
	default:
		q := r.Pick("\"", "'")
		b := ""
		for i := r.N(5); i > 0; i-- {
			if c := anyRune(r); r.P(4) && c > ' ' && !strings.ContainsRune("\"'\\", c) {
				b += string(c)
			}
			b += r.Pick("a", "b c", "é", "世", "\t", "--", "]]", "[[", "{", "\\n", "\\\"", "\\'", "\\\\", "\\x4F", "\\u{48}", "\\u{10FFFF}", "\\0", "\\9x", "\\12", "\\255", "\\200", "\\065", "\\199",
				"\\z  \n ", "\\z", "\\\n", "\\\r\n", "\\a", "\\b", "\\f", "\\r", "\\t", "\\v", "1", "\x7f", "\x01", "\xfe", map[string]string{"\"": "'", "'": "\""}[q])
		}
		g.add(q + b + q)
	}
}

func (g *luaGen) list(f func(), n int) {
	f()
	for ; n > 1; n-- {
		g.add(",")
		f()
	}
}

func (g *luaGen) exp(d int) {
	r := g.r
	if r.P(15) {
		g.add(r.Pick("-", "not", "#", "~"))
	}
	k := r.N(16)
	if d <= 0 || g.left < 0 {
		k = r.N(9)
	}
	switch k {
	case 0:
		g.add(r.Pick("nil", "true", "false", "..."))
	case 1, 2:
		g.add(r.Pick("0", "1", "42", "3.5", "3.", ".5", "0x1F", "0xA.8", "0x.8p1", "0X1p-4", "2e3", "1E+5", "1.5e-3", "0xep1", "00", "7e0", "0x0.p3", "1e10", "0xEe"))
	case 3:
		g.str()
	case 4, 5, 6, 7:
		g.name()
	case 8:
		g.name()
		g.add(".")
		g.name()
	case 9, 10:
		g.suffixed(d-1, false)
	case 11:
		g.table(d - 1)
	case 12:
		g.add("function")
		g.funcBody(d - 1)
	case 13:
		g.add("(")
		g.exp(d - 1)
		g.add(")")
	default:
		g.exp(d - 1)
	}
	if r.P(30) && g.left > 0 {
		g.add(r.Pick("+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<", "..", "<", "<=", ">", ">=", "==", "~=", "and", "or"))
		if r.P(8) {
			g.add(r.Pick(".5", "...", "[[s]]"), r.Pick("..", "-", "/", "<", ">"))
		}
		if r.P(8) {
			g.add(r.Pick(".5", ".5e1", "...", "[[s]]", "[=[s]=]"))
			return
		}
		g.exp(d - 1)
	}
}

func (g *luaGen) table(d int) {
	r := g.r
	g.add("{")
	for n := r.N(4); n > 0; n-- {
		switch r.N(3) {
		case 0:
			g.add("[")
			g.key(d)
			g.add("]", "=")
			g.exp(d)
		case 1:
			g.name()
			g.add("=")
			g.exp(d)
		default:
			g.exp(d)
		}
		if n > 1 || r.P(30) {
			g.add(r.Pick(",", ",", ";"))
		}
	}
	g.add("}")
}

func (g *luaGen) args(d int) {
	r := g.r
	if r.P(20) {
		g.add(":")
		g.name()
	}
	switch r.N(6) {
	case 0:
		g.str()
	case 1:
		g.table(d)
	case 2:
		g.add("(", ")")
	default:
		g.add("(")
		g.list(func() { g.exp(d) }, r.In(1, 3))
		g.add(")")
	}
}

func (g *luaGen) index(d int) {
	if g.r.P(50) {
		g.add(".")
		g.name()
	} else {
		g.add("[")
		g.key(d)
		g.add("]")
	}
}

func (g *luaGen) key(d int) {
	if g.r.P(15) {
		g.add(g.r.Pick("[[k]]", "[=[k]=]", "[==[]==]"))
		return
	}
	g.exp(d)
}

// suffixed adds a prefix with suffixes; a call comes last if call is set.
func (g *luaGen) suffixed(d int, call bool) {
	r := g.r
	if r.P(25) {
		g.add("(")
		g.exp(d)
		g.add(")")
	} else {
		g.name()
	}
	for n := r.N(3); n > 0; n-- {
		if r.P(50) {
			g.args(d - 1)
		} else {
			g.index(d - 1)
		}
	}
	if call {
		g.args(d)
	}
}

func (g *luaGen) variable(d int) {
	if g.r.P(60) {
		g.name()
		return
	}
	g.suffixed(d-1, false)
	g.index(d)
}

func (g *luaGen) funcBody(d int) {
	r := g.r
	g.add("(")
	switch r.N(4) {
	case 0:
		g.add("...")
	case 1:
		g.list(g.name, r.In(1, 3))
		g.add(",", "...")
	case 2:
		g.list(g.name, r.In(1, 3))
	}
	g.add(")")
	g.block(d, r.N(3))
	g.add("end")
}

func (g *luaGen) block(d, n int) {
	r := g.r
	for ; n > 0 && g.left > 0; n-- {
		g.stat(d)
	}
	if r.P(20) {
		g.add("return")
		if r.P(70) {
			g.list(func() { g.exp(d) }, r.In(1, 2))
		}
		if r.P(30) {
			g.add(";")
		}
	}
}

func (g *luaGen) stat(d int) {
	r := g.r
	k := r.N(20)
	if d <= 0 && k > 9 {
		k = r.N(10)
	}
	switch k {
	case 0, 1, 2:
		g.list(func() { g.variable(d) }, r.PickInt(1, 1, 2))
		g.add("=")
		g.list(func() { g.exp(d) }, r.PickInt(1, 1, 2))
	case 3, 4:
		g.suffixed(d, true)
	case 5:
		g.add("local")
		g.list(func() {
			g.name()
			if r.P(25) {
				g.add("<", r.Pick("const", "close"), ">")
			}
		}, r.In(1, 3))
		if r.P(60) {
			g.add("=")
			g.list(func() { g.exp(d) }, r.In(1, 2))
		}
	case 6:
		g.add(r.Pick(";", "break"))
	case 7:
		g.add("::")
		g.name()
		g.add("::")
	case 8:
		g.add("goto")
		g.name()
	case 9:
		g.add(";")
	case 10, 11:
		g.add("do")
		g.block(d-1, r.N(3))
		g.add("end")
	case 12:
		g.add("while")
		g.exp(d - 1)
		g.add("do")
		g.block(d-1, r.N(3))
		g.add("end")
	case 13:
		g.add("repeat")
		g.block(d-1, r.N(3))
		g.add("until")
		g.exp(d - 1)
	case 14, 15:
		g.add("if")
		g.exp(d - 1)
		g.add("then")
		g.block(d-1, r.N(3))
		for n := r.PickInt(0, 0, 1, 2); n > 0; n-- {
			g.add("elseif")
			g.exp(d - 1)
			g.add("then")
			g.block(d-1, r.N(2))
		}
		if r.P(40) {
			g.add("else")
			g.block(d-1, r.N(3))
		}
		g.add("end")
	case 16:
		g.add("for")
		g.name()
		g.add("=")
		g.list(func() { g.exp(d - 1) }, r.In(2, 3))
		g.add("do")
		g.block(d-1, r.N(3))
		g.add("end")
	case 17:
		g.add("for")
		g.list(g.name, r.In(1, 3))
		g.add("in")
		g.list(func() { g.exp(d - 1) }, r.In(1, 2))
		g.add("do")
		g.block(d-1, r.N(3))
		g.add("end")
	case 18:
		g.add("function")
		g.name()
		for n := r.N(3); n > 0; n-- {
			g.add(".")
			g.name()
		}
		if r.P(30) {
			g.add(":")
			g.name()
		}
		g.funcBody(d - 1)
	default:
		g.add("local", "function")
		g.name()
		g.funcBody(d - 1)
	}
}

// text joins the tokens with blanks and comments where they are needed and
// where not.
func (g *luaGen) text() string {
	r := g.r
	var b strings.Builder
	// how much white there is
	blanks, notes := r.PickInt(0, 30, 90), r.PickInt(0, 0, 5, 20)
	sep := func(prev, next string) string {
		p, n := byte(' '), byte(' ')
		if prev != "" {
			p = prev[len(prev)-1]
		}
		if next != "" {
			n = next[0]
		}
		s := ""
		need := luaAlnum(p) && luaAlnum(n) || strings.IndexByte("<>=~/:.-[", p) >= 0 && strings.IndexByte("<>=~/:.-[", n) >= 0 ||
			prev != "" && (isDigit(prev[0]) || prev[0] == '.' && len(prev) > 1 && isDigit(prev[1])) && n == '.' || p == '.' && isDigit(n)
		if need || r.P(blanks) {
			s = r.Pick(" ", " ", "\n", "\t", "\r\n", "  ")
		}
		if r.P(notes) {
			if p == '-' && s == "" {
				s = " "
			}
			switch r.N(3) {
			case 0:
				s += "--[" + r.Pick("[c", "[]", "[ --x", "[\n") + "]]"
			case 1:
				s += "--[=[" + r.Pick("c", "]]", "]", "end") + "]=]"
			default:
				s += "--" + r.Pick("", "c", " note", "-", "[=", "[x", "é", "]]") + r.Pick("\n", "\r\n")
			}
			if r.P(30) {
				s += " "
			}
		}
		return s
	}
	prev := ""
	for _, t := range g.toks {
		b.WriteString(sep(prev, t))
		b.WriteString(t)
		prev = t
	}
	if r.P(40) {
		b.WriteString(sep(prev, ""))
	}
	if r.P(10) {
		if strings.HasSuffix(prev, "-") {
			b.WriteString(" ")
		}
		b.WriteString("--" + r.Pick("", "end", " x"))
	}
	return b.String()
}

// find returns the first token from i on, around the end, that fits.
func (g *luaGen) find(i int, f func(string) bool) int {
	for n := range g.toks {
		j := (i + n) % len(g.toks)
		if g.toks[j] != "" && f(g.toks[j]) {
			return j
		}
	}
	return -1
}

// luaChunk generates a chunk. Some have tokens lost, doubled or swapped.
func luaChunk(r *Rng, size int, log *[]string) string {
	g := &luaGen{r: r, left: size}
	g.block(r.PickInt(1, 2, 2, 3), r.In(1, 4))
	if log != nil {
		for n := r.In(1, 2); n > 0 && len(g.toks) > 0; n-- {
			i := r.N(len(g.toks))
			rest := append([]string{}, g.toks[i+1:]...)
			switch r.N(9) {
			case 4:
				// a keyword where a name was
				if j := g.find(i, func(t string) bool { return luaAlnum(t[0]) && !isDigit(t[0]) && !luaWords[t] }); j >= 0 {
					g.toks[j] = luaWordList[r.N(len(luaWordList))]
					*log = append(*log, "doc-name-replaced")
				}
			case 5:
				if j := g.find(i, func(t string) bool { return isDigit(t[0]) || t[0] == '.' && len(t) > 1 && isDigit(t[1]) }); j >= 0 {
					g.toks[j] = r.Pick("0x", "0x.", "0x1p", "0x1p+", "0x.p1", "1e", "1e+", ".e1", ".", "3a", "1.2.3", "1..2", "0x1.8.1", "5_", "0xg", "1e5.", "1e5e5", "0b1", "0x1pa", "1ea", "é1", "08", "1E-", "0xA.G")
					*log = append(*log, "doc-numeral-damaged")
				}
			case 6, 7:
				// the blank between two tokens is lost
				j := -1
				for n := range g.toks {
					k := (i + n) % len(g.toks)
					if k+1 < len(g.toks) && g.toks[k] != "" && g.toks[k+1] != "" &&
						strings.IndexByte("<>=~/:.-[", g.toks[k][len(g.toks[k])-1]) >= 0 && strings.IndexByte("<>=~/:.-[", g.toks[k+1][0]) >= 0 {
						j = k
						break
					}
				}
				if j < 0 || r.P(30) {
					j = i
				}
				if j+1 < len(g.toks) {
					t := g.toks[j] + g.toks[j+1]
					g.toks = append(append(g.toks[:j:j], t), g.toks[j+2:]...)
					*log = append(*log, "doc-blank-lost")
				}
			case 8:
				// parentheses around a token
				g.toks = append(append(g.toks[:i:i], "(", g.toks[i], ")"), rest...)
				*log = append(*log, "doc-parenthesised")
			case 0:
				g.toks = append(g.toks[:i], rest...)
				*log = append(*log, "doc-token-lost")
			case 1:
				g.toks = append(append(g.toks[:i+1], g.toks[i]), rest...)
				*log = append(*log, "doc-token-doubled")
			case 2:
				j := r.N(len(g.toks))
				g.toks[i], g.toks[j] = g.toks[j], g.toks[i]
				*log = append(*log, "doc-tokens-swapped")
			default:
				g.toks[i] = r.Pick("end", "do", "then", "=", ",", "(", ")", "{", "}", "[", "]", "a", "1", "\"s\"", "..", "...", ".", ":", ";", "nil", "not", "and", "local", "function", "return", "in", "<", ">", "::", "-")
				*log = append(*log, "doc-token-replaced")
			}
		}
	}
	t := g.text()
	if r.P(15) {
		t = "#!" + r.Pick("/bin/lua", "", " x -- y", "\x00\x01", "é\xff", "\U0010FFFF") + r.Pick("\n", "\r\n") + t
	}
	return t
}

// luaTokenDoc is a short text around one token that is drawn from the
// characters of its kind, well formed or not.
func luaTokenDoc(r *Rng) string {
	from := func(chars string, min, max int) string {
		rs := []rune(chars)
		s := ""
		for n := r.In(min, max); n > 0; n-- {
			s += string(rs[r.N(len(rs))])
		}
		return s
	}
	t := ""
	switch r.N(7) {
	case 0, 1: // a quoted string
		q := r.Pick("\"", "'")
		for n := r.In(1, 3); n > 0; n-- {
			t += from("aé \x00\x7f\U0010ffff", 0, 1) + r.Pick("\\", "\\", "\\", "")
			switch r.N(8) {
			case 0, 1:
				t += from("0123456789", 1, 4)
			case 2:
				t += r.Pick("x", "x", "X") + from("09afAFgG", 0, 3)
			case 3:
				t += r.Pick("u{", "u{", "u{", "u", "U{") + from("019afAFg", 0, 8) + r.Pick("}", "}", "}", "")
			case 4:
				t += from("\r\n", 1, 3)
			case 5:
				t += r.Pick("z", "z", "Z") + from(" \t\r\n", 0, 3)
			case 6:
				t += from("abfnrtvzxu\"'\\0cdeghijklmopqswy/?[(", 1, 1)
			default:
				t += string(anyRune(r))
			}
		}
		t = q + t + q
	case 2: // a numeral
		t = r.Pick("", "0x", "0X") + from("0123456789abcdefABCDEFpPxX.+-_", 1, 7)
		if r.P(50) {
			t = from("01289", 0, 3) + r.Pick("", ".", ".") + from("059", 0, 2) + r.Pick("", "e", "E") + r.Pick("", "+", "-") + from("09", 0, 2)
		}
	case 3: // a comment or a long string
		t = r.Pick("--[", "[", "[", "--") + from("=[", 0, 3) + from("[]=a\n\r-", 0, 8) + from("]=", 0, 4)
	case 4: // operators
		t = "a" + from("<>=~/.:-+#&|^%* ", 1, 3) + "b"
	case 5: // a name
		t = r.Pick(luaWordList...) + from("azAZ09_é.: ", 0, 2)
		if r.P(50) {
			t = from("azAZ09_éσ１", 1, 4)
		}
	default:
		t = from("{}[]();,=.:\"'-~<>a1 \n", 1, 6)
	}
	switch r.N(6) {
	case 0:
		return "x=" + t
	case 1:
		return "f" + t
	case 2:
		return "x={" + t + "}"
	case 3:
		return t + r.Pick("", "=1", "()", "\n")
	case 4:
		return "local y=" + t + r.Pick("\n", " ", "") + "x=1"
	}
	return "return " + t
}
