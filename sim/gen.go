package main

import (
	"strings"
	"unicode/utf8"
)

// GenOpt selects what a generated tree may contain.
type GenOpt struct {
	Picks, Mons, Maps, Janus, Refs bool
	Faults                         bool // wrap sub readers in fault sites
	NoBodyTail                     bool
	Depth                          int
	Wide                           bool
	Long                           bool
	Nasty                          bool // repetitions of readers that match nothing
	Huge                           bool // texts of thousands of bytes
	Giant                          bool // texts of ten thousands of bytes
	NoGiant                        bool
	NoMany                         bool // the number of attempts is fixed
}

// Gen builds random trees in swarm style: every tree uses its own alphabet and
// its own subset of the Reader kinds.
type Gen struct {
	r      *Rng
	o      GenOpt
	alpha  []rune
	id     int
	leafs  []string
	combs  []string
	nrules int
	pairs  int
	noTail int // > 0: no BodyTail allowed
	inTail int // > 0: inside of a BodyTail
	fltPct int
	dep    int // > 0: there is a very long list
}

var alphabets = []string{
	"ab", "abc", "aAbB", "01a", "a b", "aé", "aé世b", "ab\n \t", "abcdefgh", "()a,", "\"\\a", "-+019", "sSſkKa", "[=]a",
	"a😀b", "a\U0010ffff\x00", "\r\na", "aéÉσςΣ", "İIiı", "\x7f\x80߿ࠀ", "\ufeffa\ufffd", "'`{}", "_.:;~", "\v\f\u0085\u00a0 ", "09aFgＡ１٣", "-+7f８\u2028", "%ds a",
}

// anyRune draws a rune from all planes.
func anyRune(r *Rng) rune {
	switch r.N(8) {
	case 0, 1:
		return rune(32 + r.N(95))
	case 2:
		return rune(r.N(128))
	case 3:
		return rune(r.N(0x800))
	case 4:
		return rune(r.N(0xd800))
	case 6:
		// first and last runes of their length, and behind the surrogates
		if r.P(30) {
			return rune(0xe000 + r.N(0x1ffd))
		}
		return rune(r.PickInt(0, 1, 0x1f, ' ', 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x100000, 0x10fffe, 0x10ffff))
	case 5:
		// a rune that looks like a common one if it is cut short
		c := rune(r.PickInt('"', '\\', ' ', '0', '9', 'a', 'z', '/', '-', '\n', 32+r.N(95)))
		return c + rune(r.PickInt(0x80, 0x100, 0x1000, 0x10000, 0x20000, 0x100000))
	}
	return rune(0x10000 + r.N(0x100000))
}

var leafKinds = []string{
	"lit", "lit", "lit", "rune", "rune", "anyrune", "between", "betweenany", "set", "bbany", "digit", "hex",
	"holey", "fold", "match", "ws", "nl", "bool", "int", "uint", "atend", "anyfold", "inv",
}

var combKinds = []string{
	"seq", "seq", "seq", "any", "any", "any", "many", "zom", "opt", "to", "past", "not", "at", "body",
	"bodytail", "named", "skipseq", "skipws", "times",
}

func subset(r *Rng, l []string, pct int) []string {
	res := []string{}
	for _, s := range l {
		if r.P(pct) {
			res = append(res, s)
		}
	}
	if len(res) < 2 {
		return l
	}
	return res
}

func newGen(r *Rng, o GenOpt) *Gen {
	g := &Gen{r: r, o: o}
	g.alpha = []rune(alphabets[r.N(len(alphabets))])
	if r.P(10) {
		for i := r.In(0, 6); i >= 0; i-- {
			g.alpha = append(g.alpha, anyRune(r))
		}
		if r.P(50) {
			g.alpha = g.alpha[len(g.alpha)/2:]
		}
	}
	g.leafs = subset(r, leafKinds, r.PickInt(40, 70, 100))
	g.combs = subset(r, combKinds, r.PickInt(40, 70, 100))
	g.fltPct = r.PickInt(15, 30, 60)
	if g.o.Depth == 0 {
		g.o.Depth = 1 + r.N(5)
	}
	return g
}

func (g *Gen) char() rune { return g.alpha[g.r.N(len(g.alpha))] }

func (g *Gen) word(min, max int) string {
	n := g.r.In(min, max)
	if n > 50 {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteRune(g.char())
		}
		return b.String()
	}
	s := ""
	for ; n > 0; n-- {
		s += string(g.char())
	}
	return s
}

func (g *Gen) node(k string) *Node {
	g.id++
	return &Node{ID: g.id, K: k}
}

func (g *Gen) ranges() int {
	if g.r.P(15) {
		return g.r.In(4, 12)
	}
	return g.r.In(0, 3)
}

func (g *Gen) leaf() *Node {
	k := g.leafs[g.r.N(len(g.leafs))]
	r := g.r
	if k == "inv" && r.P(60) {
		k = "lit"
	}
	n := g.node(k)
	switch k {
	case "inv":
		n.N = r.N(len(invalids))
	case "lit":
		n.S = BStr(g.word(1, 3))
		if r.P(1) {
			n.S = BStr(g.word(4, 80))
		}
		if r.P(6) {
			n.S = ""
		} else if r.P(4) {
			n.S = BStr("\xff" + g.word(0, 1))
		} else if c := string(g.char()); len(c) > 1 && r.P(8) {
			// the rest of a rune that is longer than a byte
			n.S = BStr(c[1+r.N(len(c)-1):] + g.word(0, 1))
		}
		n.Raw = r.P(40)
	case "rune":
		n.N = int(g.char())
		n.Raw = r.P(40)
	case "anyrune":
		n.S = BStr(g.word(0, 4))
	case "between", "holey":
		a, b := g.char(), g.char()
		if a > b && !r.P(10) {
			a, b = b, a
		}
		if r.P(20) {
			b = utf8.MaxRune
		}
		if r.P(15) {
			a = 0
		}
		n.N, n.M = int(a), int(b)
		if k == "holey" {
			n.S = BStr(g.word(0, 2))
		}
	case "betweenany", "set":
		s := ""
		for i := g.ranges(); i > 0; i-- {
			a, b := g.char(), g.char()
			if a > b {
				a, b = b, a
			}
			s += string(a) + "-" + string(b)
		}
		n.S = BStr(s)
		if k == "set" {
			n.S2 = BStr(g.word(0, 3))
		}
	case "bbany":
		s := ""
		for i := g.ranges(); i > 0; i-- {
			a, b := g.char(), g.char()
			if a > b {
				a, b = b, a
			}
			s += string(a) + string(b)
		}
		n.S = BStr(s)
	case "fold":
		n.S = BStr(g.word(1, 3))
	case "anyfold":
		for i := r.In(1, 4); i > 0; i-- {
			n.L = append(n.L, BStr(g.word(1, 3)))
		}
	case "match":
		n.S = BStr(r.Pick("upper", "digit", "ab", "nota", "wide"))
	case "bool":
		n.S = BStr(r.Pick("", "*", "l", "U", "Cc"))
		if r.P(5) {
			n.S = "x"
		}
	case "int", "uint":
		n.N = r.PickInt(8, 10, 16)
		n.M = r.PickInt(8, 16, 32, 64)
		if r.P(3) {
			n.N = r.PickInt(0, 2, 7, 36)
		} else if r.P(3) {
			n.M = r.PickInt(0, 1, 12, 128)
		}
	}
	return n
}

func (g *Gen) wrap(n *Node) *Node {
	r := g.r
	if g.o.Faults && r.P(g.fltPct) {
		f := g.node("flt")
		f.M = r.N(2)
		f.Kids = []*Node{n}
		n = f
	}
	obs := []string{}
	if g.o.Picks && g.inTail == 0 {
		obs = append(obs, "pick")
	}
	if g.o.Mons {
		obs = append(obs, "mon")
	}
	if g.o.Maps {
		obs = append(obs, "map")
	}
	if len(obs) > 0 && r.P(35) {
		k := obs[r.N(len(obs))]
		if r.P(30) {
			o := g.node("rule")
			o.S = BStr("r" + string(rune('a'+r.N(6))))
			for _, x := range obs {
				if x == k || r.P(40) {
					o.S2 += BStr(map[string]string{"pick": "p", "mon": "m", "map": "f"}[x])
					if x == "map" && r.P(15) {
						o.S2 += "F"
					}
				}
			}
			o.Kids = []*Node{n}
			n = o
		} else {
			o := g.node(k)
			if k == "map" && r.P(15) {
				o.M = r.In(1, 2)
			}
			o.S = BStr("i" + string(rune('a'+r.N(6))))
			if r.P(5) {
				o.S = BStr(r.Pick("%d", "50%", "%s%v", "é ü", "\"q\""))
			}
			o.Kids = []*Node{n}
			n = o
		}
	}
	return n
}

func (g *Gen) tree(d int) *Node { return g.wrap(g.tree1(d)) }

func (g *Gen) count(min, max int) int {
	if g.o.Wide && g.r.P(10) {
		if g.r.P(10) && g.dep == 0 {
			g.dep = 1
			return g.r.PickInt(g.r.In(20, 50), g.r.In(50, 300))
		}
		return g.r.In(8, 20)
	}
	return g.r.In(min, max)
}

func (g *Gen) tree1(d int) *Node {
	r := g.r
	if d <= 0 || r.P(12) {
		if g.o.Janus && g.pairs > 0 && r.P(30) {
			n := g.node("jend")
			n.N = r.N(g.pairs)
			return n
		}
		return g.leaf()
	}
	if g.o.Janus && r.P(12) {
		n := g.node("jbeg")
		n.N = g.pairs
		g.pairs++
		n.Kids = []*Node{g.tree(r.N(d))}
		return n
	}
	if g.o.Refs && g.nrules > 0 && g.inTail == 0 && r.P(15) {
		// a guarded recursion: something has to be read in front of it
		n := g.node("seq")
		l := g.node("lit")
		l.S = BStr(g.word(1, 1))
		f := g.node("ref")
		f.N = r.N(g.nrules)
		n.Kids = []*Node{l, f}
		if r.P(50) {
			n.Kids = append(n.Kids, g.tree(d-1))
		}
		return n
	}
	if r.P(8) {
		// a wrapper without an observer
		n := g.node("rule")
		n.S = BStr(r.Pick("plain", "plain", "plain", "plain", ""))
		n.Kids = []*Node{g.tree(d - 1)}
		return n
	}
	k := g.combs[r.N(len(g.combs))]
	if k == "bodytail" && (g.o.NoBodyTail || g.noTail > 0) {
		k = "body"
	}
	n := g.node(k)
	kids := func(c int) {
		if c > 20 && d > 2 {
			d = 2
		}
		for ; c > 0; c-- {
			n.Kids = append(n.Kids, g.tree(d-1))
		}
	}
	switch k {
	case "seq", "any", "skipws":
		c := g.count(1, 4)
		if k == "any" && c > 7 && r.P(40) {
			// alternatives that get far but hardly match
			for ; c > 0; c-- {
				a, b := g.node("lit"), g.node("lit")
				a.S, b.S = BStr(g.word(0, 3)), BStr(g.word(0, 1)+r.Pick("☃", "☃", string(g.char())))
				s := g.node("seq")
				s.Kids = []*Node{g.wrap(a), b}
				n.Kids = append(n.Kids, g.wrap(s))
			}
			break
		}
		kids(c)
		if r.P(2) {
			n.Kids = nil
		}
	case "skipseq":
		s := g.node("zom")
		s.Kids = []*Node{g.tree(r.N(2))}
		if r.P(25) {
			s = g.tree(r.N(2))
		}
		n.Kids = append(n.Kids, s)
		kids(g.count(1, 3))
	case "times":
		n.N = g.count(0, 4)
		kids(1)
		if g.o.Huge && r.P(40) {
			n.N = r.In(100, g.r.PickInt(300, 300, 2000))
		}
	case "body", "bodytail":
		if k == "bodytail" && g.o.Picks {
			g.inTail++
		}
		b := g.node(r.Pick("zom", "many", "opt"))
		b.Kids = []*Node{g.tree(r.N(d))}
		if r.P(40) {
			b = g.tree(d - 1)
		}
		if k == "bodytail" && g.o.Picks {
			g.inTail--
		}
		n.Kids = []*Node{b, g.tree(r.N(d))}
	case "many", "zom":
		if g.o.Nasty && r.P(40) {
			o := g.node(r.Pick("opt", "zom", "at", "named", "not"))
			o.Kids = []*Node{g.tree(d - 1)}
			n.Kids = []*Node{o}
		} else {
			kids(1)
		}
	default:
		kids(1)
	}
	return n
}

// forest generates a tree and the rules it refers to.
func (g *Gen) forest() (*Node, []*Node) {
	if g.o.Refs && g.r.P(40) {
		g.nrules = g.r.In(1, 2)
	}
	var rules []*Node
	for i := 0; i < g.nrules; i++ {
		rules = append(rules, g.tree(g.r.In(1, 3)))
	}
	root := g.tree(g.o.Depth)
	return root, rules
}

// ---------------------------------------------------------------------------
// Texts

type sampler struct {
	g     *Gen
	rules []*Node
	janus map[int]string
	fuel  int
	max   int
}

func (g *Gen) sample(root *Node, rules []*Node) string {
	s := &sampler{g, rules, map[int]string{}, 400, 300}
	if g.o.Huge {
		s.fuel, s.max = 20000, g.r.PickInt(700, 1500, 3000, 6000)
	}
	if g.o.Giant {
		s.fuel, s.max = 200000, g.r.PickInt(12000, 20000, 40000, 70000)
	}
	return s.of(root)
}

func (s *sampler) rep(lo int) int {
	r := s.g.r
	n := lo + r.N(4)
	if s.g.o.Long && r.P(25) {
		n = lo + r.N(60)
	}
	if s.g.o.Huge && r.P(40) || s.g.o.Giant {
		n = lo + r.N(s.max)
	}
	return n
}

func (s *sampler) of(n *Node) string {
	str := s.make(n)
	if len(str) > s.max {
		str = str[:runeStart(str, s.max)]
	}
	return str
}

func (s *sampler) make(n *Node) string {
	g, r := s.g, s.g.r
	s.fuel--
	if s.fuel < 0 {
		return ""
	}
	kid := func(i int) string {
		if i < len(n.Kids) {
			return s.of(n.Kids[i])
		}
		return ""
	}
	switch n.K {
	case "lit":
		return string(n.S)
	case "rune":
		return string(rune(n.N))
	case "fold":
		return swapCase(r, string(n.S))
	case "anyfold":
		return swapCase(r, string(n.L[r.N(len(n.L))]))
	case "anyrune":
		return pickRune(r, string(n.S))
	case "set":
		if n.S2 != "" && r.P(50) {
			return pickRune(r, string(n.S2))
		}
		return string(g.char())
	case "digit":
		return r.Pick("0", "5", "9")
	case "hex":
		return r.Pick("0", "a", "F")
	case "ws":
		return r.Pick(" ", "\t", "\n", "\r")
	case "nl":
		return r.Pick("\n", "\r\n")
	case "bool":
		return r.Pick("true", "False", "TRUE", "false", "FALSE", "True", "tru")
	case "int", "uint":
		return r.Pick("0", "7", "127", "128", "-128", "-129", "255", "256", "65536", "+12", "-", "ff", "7fffffff",
			"18446744073709551615", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "ffffffffffffffffff")
	case "match":
		return r.Pick("A", "5", "a", "b", "é", string(g.char()))
	case "between", "betweenany", "bbany", "holey", "not":
		return string(g.char())
	case "atend", "at":
		return ""
	case "any":
		if len(n.Kids) == 0 {
			return ""
		}
		return kid(r.N(len(n.Kids)))
	case "many", "zom":
		lo := 0
		if n.K == "many" {
			lo = 1
		}
		var b strings.Builder
		for i := s.rep(lo); i > 0 && b.Len() < s.max && s.fuel > 0; i-- {
			b.WriteString(kid(0))
		}
		return b.String()
	case "opt":
		if r.P(60) {
			return kid(0)
		}
		return ""
	case "to", "past":
		if g.o.Huge && r.P(30) {
			return g.word(0, s.max) + kid(0)
		}
		return g.word(0, 4) + kid(0)
	case "body", "bodytail":
		return kid(0) + kid(1)
	case "times":
		var b strings.Builder
		for i := 0; i < n.N; i++ {
			b.WriteString(kid(0))
		}
		return b.String()
	case "skipseq":
		t := kid(0)
		for i := 1; i < len(n.Kids); i++ {
			t += kid(i) + kid(0)
		}
		return t
	case "skipws":
		t := r.Pick("", " ")
		for i := range n.Kids {
			t += kid(i) + r.Pick("", " ", "\n")
		}
		return t
	case "ref":
		if len(s.rules) == 0 || s.fuel < 100 {
			return ""
		}
		return s.of(s.rules[n.N%len(s.rules)])
	case "jbeg":
		t := kid(0)
		s.janus[n.N] = t
		return t
	case "jend":
		return s.janus[n.N]
	default:
		t := ""
		for i := range n.Kids {
			t += kid(i)
		}
		return t
	}
}

func pickRune(r *Rng, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return ""
	}
	return string(rs[r.N(len(rs))])
}

func swapCase(r *Rng, s string) string {
	b := []byte(s)
	for i := range b {
		c := b[i] | 32
		if 'a' <= c && c <= 'z' && r.P(40) {
			b[i] ^= 32
		}
	}
	return string(b)
}

// damage is what happens to a text on its way: torn, flipped, duplicated,
// reordered or lost parts. The kinds are appended to log.
func damage(r *Rng, t string, alpha []rune, times int, log *[]string) string {
	for ; times > 0; times-- {
		b := []byte(t)
		n := len(b)
		k := r.N(8)
		name := ""
		switch {
		case k == 0 && n > 0:
			name = "torn"
			b = b[:r.N(n)]
		case k == 1 && n > 0:
			name = "flipped"
			b[r.N(n)] ^= 1 << r.N(8)
		case k == 2 && n > 0:
			name = "lost"
			i := r.N(n)
			j := i + 1 + r.N(4)
			if j > n {
				j = n
			}
			b = append(b[:i:i], b[j:]...)
		case k == 3 && n > 0:
			name = "duplicated"
			i := r.N(n)
			j := i + 1 + r.N(6)
			if j > n {
				j = n
			}
			b = append(b[:j:j], b[i:]...)
		case k == 4:
			name = "invalid-byte"
			i := r.N(n + 1)
			b = append(b[:i:i], append([]byte{byte(r.PickInt(0xff, 0xc3, 0x80, 0xe4, 0xf0))}, b[i:]...)...)
		case k == 5:
			name = "inserted"
			i := r.N(n + 1)
			c := "x"
			if len(alpha) > 0 {
				c = string(alpha[r.N(len(alpha))])
			}
			b = append(b[:i:i], append([]byte(c), b[i:]...)...)
		case k == 6 && n > 2:
			name = "reordered"
			i := 1 + r.N(n-1)
			b = append(b[i:n:n], b[:i]...)
		default:
			name = "appended"
			c := "x"
			if len(alpha) > 0 {
				c = string(alpha[r.N(len(alpha))])
			}
			b = append(b[:n:n], c...)
		}
		if log != nil {
			*log = append(*log, name)
		}
		t = string(b)
	}
	return t
}

// text generates an input for a tree.
func (g *Gen) text(root *Node, rules []*Node) string {
	r := g.r
	t := ""
	switch {
	case r.P(12):
		t = g.word(0, 12)
		if g.o.Huge {
			t = g.word(100, 3000)
		}
	default:
		t = g.sample(root, rules)
	}
	if r.P(30) {
		t += g.word(0, 3)
	}
	if r.P(45) {
		t = damage(r, t, g.alpha, r.In(1, 3), nil)
	}
	max := 120
	if g.o.Long {
		max = 400
	}
	if g.o.Huge {
		max = 7000
	}
	if g.o.Giant {
		max = 80000
	}
	if len(t) > max {
		t = t[:max]
	}
	return t
}

// ---------------------------------------------------------------------------
// Fault plans

// planFaults places up to n faults on positions that are really reached.
// visits returns the places that are reached with the given plan.
func planFaults(r *Rng, n int, kinds []string, visits func([]*Fault) []Visit) []*Fault {
	var plan []*Fault
	used := map[fkey]bool{}
	for ; n > 0; n-- {
		vs := visits(plan)
		cand := []Visit{}
		for _, v := range vs {
			if !used[fkey{v.Site, v.Pos}] {
				cand = append(cand, v)
			}
		}
		if len(cand) == 0 {
			break
		}
		v := cand[r.N(len(cand))]
		used[fkey{v.Site, v.Pos}] = true
		f := &Fault{Site: v.Site, Pos: v.Pos, Kind: kinds[r.N(len(kinds))], RE: r.P(30)}
		switch f.Kind {
		case "errpart", "crashpart", "lie", "errback":
			f.K = r.In(1, 3)
			if f.Kind == "lie" && r.P(25) {
				f.K = 0
			}
		case "stall":
			f.K = r.In(1, 60)
		}
		plan = append(plan, f)
	}
	return plan
}

// treeFaults plans faults for a tree with the help of the model.
func treeFaults(r *Rng, n int, kinds []string, root *Node, rules []*Node, in string, at int) []*Fault {
	return planFaults(r, n, kinds, func(p []*Fault) []Visit {
		return runModel(root, rules, in, at, p, nil, nil).Visits
	})
}
