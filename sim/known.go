package main

import "fmt"

// demos show on a fixed scenario that a known finding is still there.
var demos = map[string]func() (bool, string){
	knownZero: func() (bool, string) {
		// Any(Seq(Pick(Opt("x")), "y"), "z") on "z"
		root := &Node{ID: 1, K: "any", Kids: []*Node{
			{ID: 2, K: "seq", Kids: []*Node{
				{ID: 3, K: "pick", S: "p", Kids: []*Node{{ID: 4, K: "opt", Kids: []*Node{{ID: 5, K: "lit", S: "x"}}}}},
				{ID: 6, K: "lit", S: "y"},
			}},
			{ID: 7, K: "lit", S: "z"},
		}}
		return pickDemo(root, "z")
	},
	"picks-in-the-body-of-bodytail": func() (bool, string) {
		// BodyTail(Any(Seq(Pick("a"), "x"), Zom("a")), ";") on "aa;"
		root := &Node{ID: 1, K: "bodytail", Kids: []*Node{
			{ID: 2, K: "any", Kids: []*Node{
				{ID: 3, K: "seq", Kids: []*Node{
					{ID: 4, K: "pick", S: "p", Kids: []*Node{{ID: 5, K: "lit", S: "a"}}},
					{ID: 6, K: "lit", S: "x"},
				}},
				{ID: 7, K: "zom", Kids: []*Node{{ID: 8, K: "lit", S: "a"}}},
			}},
			{ID: 9, K: "lit", S: ";"},
		}}
		return pickDemo(root, "aa;")
	},
}

func pickDemo(root *Node, text string) (bool, string) {
	t := &Task{Root: root, Text: BStr(text)}
	in := t.build(BuildOpt{}, GramOpt{})
	s := newScanner(text, 0)
	s.Tracker = in.basket
	m := runModel(root, nil, text, 0, nil, nil, nil)
	newEnv(100000).soloRead(in, s, &Try{}, true)
	real, want := segString(basketSegs(in.basket)), segString(m.Picks)
	return real != want, fmt.Sprintf("%s on %q leaves %q, read was %q", root, text, real, want)
}
