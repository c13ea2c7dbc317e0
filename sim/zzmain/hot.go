package main

import (
	"fmt"

	quamina "quamina.net/go/quamina/v2"
)

// hot makes small programs in which everybody works on the same few states:
// many Xs on a few short patterns with fields, values and prefixes in common,
// all matched by one or two events. They are cheap, so that there can be many
// schedules of them.
func (b *builder) hot0() {
	p, r := b.p, b.RNG
	g := Group{Deletion: r.P(0.4)}
	if g.Deletion && quamina.ZZBridge && r.P(0.5) {
		g.Ratio = pick(r, []float64{0.2, 0.05})
		g.MinAct = int64(pick(r, []int{1, 3, 8}))
	}
	p.Groups = []Group{g}
	p.Patterns = p.Patterns[:1]
	p.Events = nil
	p.Fan, b.fans = false, [2]int{}
	p.Tasks = 2 + r.N(3)
	p.Fresh = p.Fresh && r.P(0.3)
	b.nx = 3 + r.N(14)
	w := b.word(3)
	if len(w) < 2 || !validUTF8(w) || w[0] == '*' || w[0] == '\\' {
		w = "ab"
	}
	rs := runes(w)
	num := r.P(0.15)
	val := func() Val {
		if num {
			return Val{K: "num", S: pick(r, []string{"1", "1.0", "1e0"})}
		}
		switch r.N(12) {
		case 0, 1:
			return Val{K: "pre", S: string(rs[:1+r.N(len(rs))])}
		case 2:
			return Val{K: "ab", L: []string{"zz", "y"}}
		case 3:
			return Val{K: "wc", S: string(rs[:1]) + "*"}
		case 4:
			if icOK(w) {
				return Val{K: "ic", S: b.flipCase(w)}
			}
		}
		return Val{K: "str", S: w}
	}
	// one value only: the library keeps that apart from automata
	plain := !num && r.P(0.4)
	field := func(path string) PField {
		if r.P(0.15) {
			return PField{Path: path, Ex: 1}
		}
		f := PField{Path: path, Vals: []Val{val()}}
		if plain {
			f.Vals = []Val{{K: "str", S: w}}
			return f
		}
		if r.P(0.2) && f.Vals[0].K != "ab" {
			f.Vals = append(f.Vals, Val{K: "str", S: b.word(2)})
		}
		return f
	}
	np := 1 + r.N(4)
	if plain {
		np = 1 + r.N(2)
	}
	for i := 0; i < np; i++ {
		q := Pattern{}
		switch r.N(5) {
		case 0, 1:
			q.Fields = []PField{field("a")}
		case 2:
			q.Fields = []PField{field("b")}
		case 3:
			q.Fields = []PField{field("a"), field("b")}
		case 4:
			q.Fields = []PField{field("a"), {Path: "n", Ex: 2}}
			if r.P(0.3) {
				q.Fields = []PField{{Path: "n", Ex: 2}}
			}
		}
		q.Text = b.patternText(&q)
		p.Patterns = append(p.Patterns, q)
	}
	leaf := func() *jnode {
		n := &jnode{kind: "str", s: w}
		if num {
			n = &jnode{kind: "num", s: "1"}
		}
		if r.P(0.15) {
			n = &jnode{kind: "arr", kids: []*jnode{{kind: "str", s: "u"}, n}}
		}
		return n
	}
	e := &jnode{kind: "obj", names: []string{"a", "b"}, kids: []*jnode{leaf(), leaf()}}
	p.Events = append(p.Events, b.eventOf(e))
	if r.P(0.5) {
		e = &jnode{kind: "obj", names: []string{"b"}, kids: []*jnode{leaf()}}
		p.Events = append(p.Events, b.eventOf(e))
	}
	hot := 1 + r.N(np)
	pi := func() int {
		if r.P(0.6) {
			return hot
		}
		return 1 + r.N(np)
	}
	nx := 0
	x := func() string { // mostly new ones
		if r.P(0.7) {
			nx++
			return fmt.Sprintf("x%d", nx%b.nx)
		}
		return b.x()
	}
	if r.P(0.4) {
		p.Setup = append(p.Setup, b.op(Op{Kind: "mode", Mode: r.N(2)}))
	}
	for i, n := 0, r.N(9); i < n; i++ {
		p.Setup = append(p.Setup, b.add(0, x(), pi()))
		if r.P(0.1) {
			p.Setup = append(p.Setup, b.match(0))
		}
	}
	adders := 1 + r.N(p.Tasks)
	for t := 0; t < p.Tasks; t++ {
		var l []Op
		for i, n := 0, 2+r.N(6); i < n; i++ {
			switch u := r.F(); {
			case t < adders && u < 0.5:
				l = append(l, b.add(0, x(), pi()))
			case t < adders && g.Deletion && u < 0.7:
				l = append(l, b.op(Op{Kind: "del", X: b.x(), H: r.N(4)}))
			case u < 0.74:
				l = append(l, b.op(Op{Kind: "copy", H: r.N(4)}))
			default:
				l = append(l, b.match(0))
			}
		}
		p.Conc = append(p.Conc, l)
	}
}
