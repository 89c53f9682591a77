package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// ---------------------------------------------------------------------------
// C21: the parts of JSON documents

// refJSON lists the parts of a valid JSON text in the order in which they end.
// Parts of no length and single digits are left out.
type refJSON struct {
	t string
	i int
	l []PickEv
}

func (p *refJSON) add(info string, from int) {
	if from < p.i {
		p.l = append(p.l, PickEv{info, from, p.i})
	}
}

func (p *refJSON) at(c byte) bool { return p.i < len(p.t) && p.t[p.i] == c }

func (p *refJSON) run(set string) {
	for p.i < len(p.t) && strings.IndexByte(set, p.t[p.i]) >= 0 {
		p.i++
	}
}

func (p *refJSON) ws() {
	m := p.i
	p.run(" \t\r\n")
	p.add("ws", m)
}

func (p *refJSON) chars() {
	p.i++
	all := p.i
	for !p.at('"') {
		m := p.i
		if p.at('\\') {
			p.i++
			e := p.i
			if p.at('u') {
				p.i++
				for k := 0; k < 4; k++ {
					p.i++
					p.add("hex", p.i-1)
				}
			} else {
				p.i++
			}
			p.add("escape", e)
		} else {
			_, n := utf8.DecodeRuneInString(p.t[p.i:])
			p.i += n
		}
		p.add("character", m)
	}
	p.add("characters", all)
	p.i++
}

func (p *refJSON) digits() {
	m := p.i
	p.run("0123456789")
	p.add("digits", m)
}

func (p *refJSON) number() {
	m := p.i
	if p.at('-') {
		p.i++
	}
	if p.at('0') {
		p.i++
	} else {
		p.i++
		p.add("onenine", p.i-1)
		p.digits()
	}
	p.add("integer", m)
	if f := p.i; p.at('.') {
		p.i++
		p.digits()
		p.add("fraction", f)
	}
	if e := p.i; p.at('e') || p.at('E') {
		p.i++
		if p.at('+') || p.at('-') {
			p.i++
			p.add("sign", p.i-1)
		}
		p.digits()
		p.add("exponent", e)
	}
	p.add("number", m)
}

func (p *refJSON) list(end byte, part, parts string, f func()) {
	p.i++
	m := p.i
	j := m
	for j < len(p.t) && strings.IndexByte(" \t\r\n", p.t[j]) >= 0 {
		j++
	}
	if p.t[j] == end {
		p.ws()
		p.i++
		return
	}
	for {
		e := p.i
		f()
		if part != "" {
			p.add(part, e)
		}
		if !p.at(',') {
			break
		}
		p.i++
	}
	p.add(parts, m)
	p.i++
}

func (p *refJSON) value() {
	m := p.i
	switch c := p.t[p.i]; {
	case c == '{':
		p.list('}', "member", "members", func() {
			p.ws()
			k := p.i
			p.chars()
			p.add("key", k)
			p.ws()
			p.i++
			p.element()
		})
		p.add("object", m)
	case c == '[':
		p.list(']', "", "elements", p.element)
		p.add("array", m)
	case c == '"':
		p.chars()
		p.add("string", m)
	case c == 't' || c == 'f':
		p.run("truefals")
		p.add("bool", m)
	case c == 'n':
		p.i += 4
		p.add("null", m)
	default:
		p.number()
	}
	p.add("value", m)
}

func (p *refJSON) element() {
	m := p.i
	p.ws()
	p.value()
	p.ws()
	p.add("element", m)
}

// jsonNames are the rules that are picked.
func jsonNames(r *Rng) string {
	switch r.N(3) {
	case 0:
		return ""
	case 1:
		return "key,object,array,string,number,bool,null"
	}
	l := []string{}
	for _, n := range []string{"value", "object", "members", "member", "key", "array", "elements", "element", "string", "characters",
		"character", "escape", "hex", "number", "integer", "fraction", "exponent", "onenine", "digits", "sign", "bool", "null", "ws"} {
		if r.P(30) {
			l = append(l, n)
		}
	}
	return strings.Join(append(l, "-"), ",")
}

func init() {
	register(&Prop{
		ID: "C21", Quick: 300000, Thorough: 6000000,
		Gen: func(r *Rng, th bool) *Scenario {
			sc := &Scenario{Kind: jsonNames(r), Sched: genSched(r)}
			n := 1
			if r.P(30) {
				n = 2
			}
			for ; n > 0; n-- {
				t := genDocs(r, "json", 3)
				for _, tr := range t.Tries {
					// most damaged documents have no parts, every other one is sound here
					if len(tr.Doc) > 0 && r.P(60) {
						tr.Input, tr.Doc, tr.Faults = BStr(gramDoc(r, "json", 0)), nil, nil
					}
				}
				sc.Tasks = append(sc.Tasks, t)
			}
			return sc
		},
		Run: func(sc *Scenario) *Outcome {
			o := newOutcome()
			o.Trivial = true
			build := func(int) *Inst {
				in := buildGram("json", GramOpt{Faults: true})
				g := in.gram.(*grammar.JSONReader)
				quiet(func() {
					for _, r := range g.Grammar() {
						if sc.Kind == "" || strings.Contains(","+sc.Kind+",", ","+r.Name+",") {
							in.basket.PickWith(r)
						}
					}
				})
				return in
			}
			before := func(i int, in *Inst, s *tok.Scanner) {
				s.Tracker = in.basket
				*in.basket = tok.Basket{}
			}
			return docTasks(sc, o, build, before, func(i int, in *Inst, tr *Try, s *tok.Scanner, res Res) string {
				if res.End != "" {
					return "ended in a " + res.End
				}
				got := []PickEv{}
				for _, p := range noZeros(basketSegs(in.basket)) {
					if p.Info != "digit" {
						got = append(got, p)
					}
				}
				if !res.ok() {
					o.probe("refused document", true)
					if len(got) > 0 {
						return fmt.Sprintf("refused, but %s is picked", segString(got))
					}
					return ""
				}
				text := string(tr.Input)[:res.Pos]
				if !json.Valid([]byte(text)) {
					return ""
				}
				p := &refJSON{t: text}
				p.element()
				want := []PickEv{}
				for _, x := range p.l {
					if sc.Kind == "" || strings.Contains(","+sc.Kind+",", ","+x.Info+",") {
						want = append(want, x)
					}
				}
				if len(want) > 1 {
					o.Trivial = false
				}
				o.probe("more than 100 parts", len(want) > 100)
				o.probe("parts of a damaged document", len(want) > 1 && len(tr.Doc) > 0)
				o.probe("parts of the start of a document", len(want) > 1 && res.Pos < len(tr.Input))
				o.max("parts", len(want))
				for k := 0; k < len(got) || k < len(want); k++ {
					switch {
					case k >= len(got):
						return fmt.Sprintf("part %d, %s, is not picked", k+1, segString(want[k:k+1]))
					case k >= len(want):
						return fmt.Sprintf("%s was picked, but there is no such part", segString(got[k:k+1]))
					case got[k] != want[k]:
						return fmt.Sprintf("the pick number %d is %s, the part is %s", k+1, segString(got[k:k+1]), segString(want[k:k+1]))
					}
				}
				return ""
			})
		},
		Rule: "A case is one or two tasks, each with a JSON grammar and a Basket for all or some of its rules under statement level preemption; each reads up to three documents one after the other, some of them torn, overwritten only in part, zeroed, concatenated, bit flipped, reordered or duplicated in parts, some of the attempts crash or are cancelled inside. " +
			"For every attempt that was not disturbed itself the picks have to be the parts that a reference parser finds in what was read, in the order of their ends; a refused document leaves no pick with a length. Non-trivial: at least two parts; distinct by hash of documents, faults, schedule and results.",
		Real: realLib, Stub: append([]string{"goroutine scheduler (replaced, one task at a time)", "storage of the documents (simulated, with torn, stale, lost and corrupted writes)"}, stubUser...),
	})
}
