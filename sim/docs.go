package main

import (
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// Documents for the grammars

func jsonWS(r *Rng) string {
	if r.P(70) {
		return ""
	}
	return r.Pick(" ", "\n", "\t", "\r\n", "  ")
}

func jsonString(r *Rng) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := r.N(6); i > 0; i-- {
		switch r.N(25) {
		case 0:
			c := anyRune(r)
			if c >= ' ' && c != '"' && c != '\\' {
				b.WriteRune(c)
			}
			continue
		case 1:
			b.WriteString("\\u")
			for j := 0; j < 4; j++ {
				b.WriteByte("0123456789abcdefABCDEF"[r.N(22)])
			}
			continue
		case 2:
			b.WriteByte('\\')
			b.WriteByte("\"\\/bfnrt"[r.N(8)])
			continue
		}
		b.WriteString(r.Pick("a", "bc", "é", "世", " ", `\n`, `\"`, `\\`, `\u00e9`, `\uD83D\ude00`, "{", "]", ",", "\u2028", "/", `\/`, "\x7f"))
	}
	b.WriteByte('"')
	return b.String()
}

func jsonNumber(r *Rng) string {
	s := r.Pick("", "-")
	s += r.Pick("0", "1", "42", strconv.Itoa(1+r.N(100000)))
	digits := func() string {
		d := ""
		for i := r.N(12); i >= 0; i-- {
			d += string(rune('0' + r.N(10)))
		}
		return d
	}
	if r.P(10) {
		s += digits()
	}
	if r.P(30) {
		s += "." + r.Pick("0", "5", "25", digits())
	}
	if r.P(25) {
		s += r.Pick("e", "E") + r.Pick("", "+", "-") + r.Pick("1", "10", "0", "00", digits())
	}
	return s
}

func jsonValue(r *Rng, d int) string {
	k := r.N(8)
	if d <= 0 && k < 4 {
		k += 4
	}
	switch k {
	case 0, 1:
		l := []string{}
		for i := r.N(4); i > 0; i-- {
			l = append(l, jsonWS(r)+jsonString(r)+jsonWS(r)+":"+jsonWS(r)+jsonValue(r, d-1)+jsonWS(r))
		}
		if len(l) == 0 {
			return "{" + jsonWS(r) + "}"
		}
		return "{" + strings.Join(l, ",") + "}"
	case 2, 3:
		l := []string{}
		for i := r.N(4); i > 0; i-- {
			l = append(l, jsonWS(r)+jsonValue(r, d-1)+jsonWS(r))
		}
		if len(l) == 0 {
			return "[" + jsonWS(r) + "]"
		}
		return "[" + strings.Join(l, ",") + "]"
	case 4:
		return jsonString(r)
	case 5:
		return jsonNumber(r)
	case 6:
		return r.Pick("true", "false")
	}
	return r.Pick("null", jsonString(r))
}

func jsonDoc(r *Rng) string {
	return jsonWS(r) + jsonValue(r, r.N(5)) + jsonWS(r)
}

var jsonAlpha = []rune("{}[]\",:0123 etrufalsn\\-+.\n")

// ---------------------------------------------------------------------------

func mxtWord(r *Rng) string {
	s := ""
	for i := r.In(1, 4); i > 0; i-- {
		s += r.Pick("a", "b", "x", "é", "#", "-", "/", "9")
		if r.P(4) {
			if c := anyRune(r); c > ' ' {
				s += string(c)
			}
		}
	}
	return strings.ReplaceAll(s, "-->", "--")
}

func mxtLine(r *Rng, salt string) string {
	switch r.N(6) {
	case 0:
		if salt != "" {
			return "// note" // looks like a chunk but has no salt
		}
		return "/ / note"
	case 1:
		return ""
	case 2:
		if len(salt) > 1 {
			return "//" + salt[:1] + "?"
		}
		return "x //"
	}
	s := ""
	for i := r.N(6); i > 0; i-- {
		s += r.Pick("a", "b ", "é", "-->", "//", " ", "x")
		if r.P(4) {
			s += string(anyRune(r))
		}
	}
	if strings.HasPrefix(s, "//") {
		s = "." + s
	}
	return s
}

// mxtDoc generates a document of chunks; the salt of a chunk has to follow the
// marker of the next one.
func mxtDoc(r *Rng) string {
	var b strings.Builder
	salt := ""
	nl := r.Pick("\n", "\n", "\r\n")
	n := r.In(1, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(nl)
		}
		b.WriteString("//" + salt + " " + mxtWord(r))
		if r.P(40) {
			b.WriteString(" " + r.Pick("note", "a b", "é - x", "", string(anyRune(r)), "\t", "-- >"))
		}
		b.WriteString(" " + r.Pick("", "-", "--", "x"))
		b.WriteString("-->")
		salt = ""
		if r.P(50) {
			salt = mxtWord(r)
			b.WriteString(" " + salt)
		}
		for j := r.N(4); j > 0; j-- {
			b.WriteString(nl + mxtLine(r, salt))
		}
	}
	if r.P(30) {
		b.WriteString(nl)
	}
	return b.String()
}

var mxtAlpha = []rune("/-> \nab\r")

// ---------------------------------------------------------------------------

func luaExp(r *Rng, d int) string {
	k := r.N(10)
	if d <= 0 && k > 5 {
		k = r.N(6)
	}
	switch k {
	case 0:
		return r.Pick("nil", "true", "false")
	case 1:
		return r.Pick("1", "0x1F", "3.5", "2e3", "0")
	case 2:
		if c := anyRune(r); r.P(10) && c > ' ' && c != '"' && c != '\\' {
			return `"` + string(c) + `"`
		}
		return r.Pick(`"a"`, `'b'`, `"\n"`, `"\x41"`)
	case 3:
		e := strings.Repeat("=", r.N(3))
		return "[" + e + "[" + r.Pick("", "x", "]", "a]b", "]=") + "]" + e + "]"
	case 4, 5:
		return r.Pick("a", "b1", "_x", "t.k")
	case 6:
		return luaExp(r, 0) + r.Pick("+", " * ", "..", "==") + luaExp(r, d-1)
	case 7:
		return "{" + r.Pick("", "1", "a=1", "1,2", "[1]=2;") + "}"
	case 8:
		return r.Pick("f", "g") + "(" + luaExp(r, 0) + ")"
	}
	return "function() " + r.Pick("", "return 1 ", "x=1 ") + "end"
}

func luaStat(r *Rng, d int) string {
	k := r.N(10)
	if d <= 0 && k > 4 {
		k = r.N(5)
	}
	switch k {
	case 0, 1:
		return r.Pick("x", "y", "t.a") + " = " + luaExp(r, 1)
	case 2:
		return "local " + r.Pick("a", "a,b", "c <const>") + r.Pick("", " = "+luaExp(r, 1))
	case 3:
		e := strings.Repeat("=", r.N(3))
		return r.Pick("-- note\n", "--["+e+"[ c ] "+"]"+e+"]", ";", "break", "::l::", "goto l")
	case 4:
		return "f(" + luaExp(r, 0) + ")"
	case 5:
		return "do " + luaStat(r, d-1) + " end"
	case 6:
		return "while " + luaExp(r, 0) + " do " + luaStat(r, d-1) + " end"
	case 7:
		return "if " + luaExp(r, 0) + " then " + luaStat(r, d-1) + r.Pick("", " else "+luaStat(r, d-1)) + " end"
	case 8:
		return "for i = 1, 2 do " + luaStat(r, d-1) + " end"
	}
	return "function h(a) " + luaStat(r, d-1) + " end"
}

func luaDoc(r *Rng) string {
	l := []string{}
	for i := r.In(1, 3); i > 0; i-- {
		l = append(l, luaStat(r, r.N(2)))
	}
	return strings.Join(l, "\n")
}

var luaAlpha = []rune("a1=[]- \n'\"")

// hugeDoc is a document with thousands of bytes, deep nesting, many parts or
// long parts.
func hugeDoc(r *Rng, name string) string {
	var b strings.Builder
	n := r.PickInt(70, 150, 300, 600)
	switch name {
	case "json":
		kind := r.N(6)
		if r.P(4) {
			n = r.PickInt(2000, 9000, 12000)
			if kind == 0 {
				n = 2000
			}
		}
		switch kind {
		case 0: // deep
			end := ""
			for i := 0; i < n; i++ {
				if r.P(60) {
					b.WriteString("[" + jsonWS(r))
					end = "]" + end
				} else {
					b.WriteString("{" + jsonString(r) + ":")
					end = "}" + end
				}
				if r.P(10) && b.String()[b.Len()-1] == '[' {
					b.WriteString(jsonValue(r, 1) + ",")
				}
			}
			return b.String() + jsonValue(r, 1) + end
		case 1: // many elements
			for i := 0; i < n; i++ {
				b.WriteString("," + jsonValue(r, r.N(3)))
			}
			return "[" + b.String()[1:] + "]"
		case 2: // many members
			for i := 0; i < n; i++ {
				b.WriteString("," + jsonString(r) + ":" + jsonValue(r, r.N(2)))
			}
			return "{" + b.String()[1:] + "}"
		case 3: // a long string
			for i := 0; i < n; i++ {
				s := jsonString(r)
				b.WriteString(s[1 : len(s)-1])
			}
			return r.Pick("", "[") + "\"" + b.String() + "\"" + r.Pick("", "]")
		case 4: // a long number
			b.WriteString(r.Pick("", "-"))
			for _, pre := range []string{"1", ".", r.Pick("e", "E+", "e-")} {
				if pre == "1" || r.P(60) {
					b.WriteString(pre)
					for i := 0; i < n; i++ {
						b.WriteByte(byte('0' + r.N(10)))
					}
				}
			}
			return "[" + b.String() + "]"
		}
		for i := 0; i < n; i++ {
			b.WriteString(r.Pick(" ", "\n", "\t", "\r"))
		}
		ws := b.String()
		return ws + "[" + ws + "1" + ws + ",{" + ws + "}]" + ws
	case "mxt":
		nl := r.Pick("\n", "\n", "\r\n")
		switch r.N(3) {
		case 0: // many chunks
			d := ""
			for i := 0; i < n/8; i++ {
				if i > 0 {
					d += nl
				}
				d += "// " + mxtWord(r) + " -->"
				for j := r.N(3); j > 0; j-- {
					d += nl + mxtLine(r, "")
				}
			}
			return d
		case 1: // a long content
			salt := mxtWord(r)
			d := "// " + mxtWord(r) + " --> " + salt
			for i := 0; i < n/2; i++ {
				d += nl + mxtLine(r, salt)
			}
			return d + nl + "//" + salt + " x -->" + nl + "y"
		}
		// a long name, note and salt
		w, note := "", ""
		for i := 0; i < n/4; i++ {
			w += mxtWord(r)
			note += r.Pick("a", "-", "--", ">", " ")
		}
		w = strings.ReplaceAll(w, "-->", "--")
		note = strings.ReplaceAll(note, "-->", "--")
		return "// " + w + " " + note + "--> " + w + nl + "y" + nl + "//" + w + " x -->"
	}
	// lua
	for i := 0; i < n/8; i++ {
		b.WriteString(luaStat(r, 1) + "\n")
	}
	return b.String()
}

// deepJSON is a document that is nested thousands of levels deep.
func deepJSON(r *Rng) string {
	n := r.PickInt(r.In(700, 1300), r.In(2000, 3500), r.In(4000, 9500))
	beg := make([]string, 0, n)
	end := make([]string, n)
	kind := r.N(3)
	for i := 0; i < n; i++ {
		if kind == 0 || kind == 2 && r.P(50) {
			beg = append(beg, "["+jsonWS(r))
			end[n-1-i] = "]"
		} else {
			beg = append(beg, `{"a":`)
			end[n-1-i] = "}"
		}
	}
	return strings.Join(beg, "") + jsonValue(r, 0) + strings.Join(end, "")
}

// What other dialects allow, or what looks like it.
var dialects = map[string][]string{
	"json": {`\u{41}`, `\u{4}`, `\u{1F600}`, `\u{}`, `\u4`, `\u+041`, `\u-001`, `\u 041`, `\x41`, `\'`, `\v`, `\0`, `\a`, `\e`, `\101`, `\U0001F600`, `\u12`, `\u00g0`, "\\\n", "'a'", "`a`", "a", "+1", ".5", "1.", "01", "-01", "00", "--1", "- 1", "-", "1e", "1e+", "1E5.5", "e5", "1 000", "1_000", "1,000",
		"0x1F", "0b1", "0o7", "1n", "1f", "NaN", "nan", "Infinity", "-Infinity", "inf", "// c\n", "/* c */", "# c\n", "-- c\n", "TRUE", "True", "FALSE", "NULL", "Null", "nil", "undefined", "None", "yes",
		"\ufeff", "\u00a0", "\u2028", "\u2029", "\u0085", "\u3000", "\u200b", "\f", "\v", "\b", "\x00", "\x1f", "\x7f", "\r", "\t", "\n", "１", "٣", "Ａ", "−1", "＂", "“a”", ",", ",,", ";", "=", "=>", "::", "|", "()", "<>", "{,}", "[,]", "{:}", "{a:1}", "{1:1}", "{null:1}", `""`, `"a""b"`, `"a" "b"`, "[1 2]", `{"a" 1}`, `{"a":}`, `{"a":1,}`, "[1,]", "@", "$", "?"},
	"mxt": {"// a ->", "//a-->", "/// x -->", "// -->", "//  -->", "// x--> ", "// x -->y", "// x --> s t", "// x --> s \n", "//\tx -->", "// x\t-->", "\r", "\n\r", "\u2028", "\u0085", "\v", "\f", "\u00a0", "/", " //", "\n//", "\n///", "\n// ", "-->", "--", "->", " ", "\t", "\x00", "\ufeff"},
}

// dialect puts something of another dialect into a document.
func dialect(r *Rng, name, text string) string {
	l := dialects[name]
	x := l[r.N(len(l))]
	i := r.N(len(text) + 1)
	if q := strings.Count(text, `"`); q > 0 && r.P(40) {
		for k := r.N(q); k >= 0; k-- {
			i = strings.IndexByte(text[i%(len(text)+1):], '"') + i + 1
			if i <= 0 || i > len(text) {
				i = strings.IndexByte(text, '"') + 1
			}
		}
		return text[:i] + x + text[i:]
	}
	if r.P(50) {
		return text[:i] + x + text[i:]
	}
	// in the place of a scalar
	in := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '.' || c == '+' || c == '-'
	}
	a, b := i, i
	for a > 0 && in(text[a-1]) {
		a--
	}
	for b < len(text) && in(text[b]) {
		b++
	}
	return text[:a] + x + text[b:]
}

// gramDoc generates a text for a grammar, damaged or not.
func gramDoc(r *Rng, name string, dmg int) string {
	t := ""
	al := jsonAlpha
	switch name {
	case "json":
		t = jsonDoc(r)
	case "mxt":
		t, al = mxtDoc(r), mxtAlpha
	case "lua":
		t, al = luaDoc(r), luaAlpha
		if r.P(40) {
			t = luaChunk(r, r.PickInt(4, 8, 16), nil)
		}
	}
	if r.N(250) == 0 {
		t = hugeDoc(r, name)
	}
	if r.P(dmg) {
		t = damage(r, t, al, r.In(1, 2), nil)
	}
	return t
}
