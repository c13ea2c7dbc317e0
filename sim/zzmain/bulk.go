package main

import (
	"fmt"
	"strings"
)

// bulk makes programs in which one thing is much larger than elsewhere: the
// Xs of a pattern, the values of a field, the members, the length of a value,
// of an array, the depth, the number of calls or copies. Sizes are drawn so
// that powers of two are crossed.
func (b *builder) bulk() {
	p, r := b.p, b.RNG
	size := func(lo, hi int) int { // the logarithm is uniform
		n := lo
		for n < hi && r.P(0.88) {
			n += 1 + n/4
		}
		return min(hi, n+r.N(3)-1)
	}
	g := Group{Deletion: r.P(0.35)}
	p.Groups = []Group{g}
	p.Patterns = p.Patterns[:1]
	p.Events = nil
	p.Fan, b.fans = false, [2]int{}
	p.Tasks = 1 + r.N(2)
	var l []Op
	pat := func(fs ...PField) int {
		q := Pattern{Fields: fs}
		q.Text = b.patternText(&q)
		p.Patterns = append(p.Patterns, q)
		return len(p.Patterns) - 1
	}
	event := func(n *jnode) int {
		p.Events = append(p.Events, b.eventOf(n))
		return len(p.Events) - 1
	}
	str := func(s string) *jnode { return &jnode{kind: "str", s: s} }
	obj := func(kv ...any) *jnode {
		n := &jnode{kind: "obj"}
		for i := 0; i < len(kv); i += 2 {
			n.names = append(n.names, kv[i].(string))
			n.kids = append(n.kids, kv[i+1].(*jnode))
		}
		return n
	}
	add := func(x string, pi int) { l = append(l, b.add(0, x, pi)) }
	nth := func(i int) string {
		if i > 94 {
			return string(rune(0x80 + (i-94)*53)) // beyond ASCII
		}
		return string(rune(' ' + i))
	}
	xs := func(i int) string { return fmt.Sprintf("x%d", 1000+i) }
	match := func(e int) { l = append(l, b.op(Op{Kind: "match", E: e, Scrib: b.scrib(), H: b.N(4)})) }
	base := b.word(3)
	switch shape := r.N(14); shape {
	case 0: // many Xs on a few patterns
		n := size(20, 700)
		e := event(obj("a", str(base), "b", str("y")))
		k := 1 + r.N(3)
		var ps []int
		for i := 0; i < k; i++ {
			switch r.N(4) {
			case 0:
				ps = append(ps, pat(PField{Path: "a", Vals: []Val{{K: "str", S: base}}}))
			case 1:
				ps = append(ps, pat(PField{Path: "b", Ex: 1}))
			case 2:
				ps = append(ps, pat(PField{Path: "a", Ex: 1}, PField{Path: "b", Vals: []Val{{K: "pre", S: "y"}}}))
			default:
				ps = append(ps, pat(PField{Path: "c", Ex: 2}, PField{Path: "b", Vals: []Val{{K: "sh", S: "*"}}}))
			}
		}
		for i := 0; i < n; i++ {
			add(xs(i), ps[i%k])
			if r.P(0.01) {
				match(e)
			}
		}
	case 1, 2: // many values on one field, in as many patterns or in one
		n := size(20, 400)
		e := make([]int, 3)
		for i := range e {
			e[i] = event(obj("a", str(fmt.Sprintf("%s%d", base, r.N(n)))))
		}
		one := shape == 2
		f := PField{Path: "a"}
		// numbered by letters, so that many things can come next
		wide := r.P(0.4)
		if wide {
			for i := range e {
				e[i] = event(obj("a", str(base+nth(r.N(n)))))
			}
		}
		word := func(i int) Val {
			v := Val{K: "str", S: fmt.Sprintf("%s%d", base, i)}
			if wide {
				v.S = base + nth(i)
			}
			switch r.N(8) {
			case 0:
				v.K = "pre"
			case 1:
				if icOK(v.S) {
					v.K = "ic"
				}
			}
			return v
		}
		for i := 0; i < n; i++ {
			if one {
				f.Vals = append(f.Vals, word(i))
				continue
			}
			add(xs(i), pat(PField{Path: "a", Vals: []Val{word(i)}}))
		}
		if one {
			if r.P(0.3) {
				v := Val{K: "ab"}
				for _, w := range f.Vals {
					v.L = append(v.L, w.S)
				}
				f.Vals = []Val{v}
			}
			add(xs(0), pat(f))
			add(xs(1), pat(PField{Path: "a", Ex: 1}))
		}
	case 3: // many members, each with a pattern
		n := size(15, 300)
		o := &jnode{kind: "obj"}
		for i := 0; i < n; i++ {
			path := fmt.Sprintf("k%d", i)
			add(xs(i), pat(PField{Path: path, Vals: []Val{{K: "str", S: base}}}))
			if r.P(0.7) {
				o.names = append(o.names, path)
				o.kids = append(o.kids, str(base))
			}
		}
		for i := len(o.names) - 1; i > 0; i-- {
			j := r.N(i + 1)
			o.names[i], o.names[j] = o.names[j], o.names[i]
		}
		event(o)
		h := len(o.names) / 2
		event(&jnode{kind: "obj", names: o.names[:h], kids: o.kids[:h]})
	case 4: // many fields in a pattern
		n := size(6, 80)
		for k := 0; k < 2+r.N(3); k++ {
			o := &jnode{kind: "obj"}
			var fs []PField
			for i := 0; i < n; i++ {
				path := fmt.Sprintf("k%d", i)
				switch r.N(8) {
				case 0:
					fs = append(fs, PField{Path: path, Ex: 2})
					continue
				case 1:
					fs = append(fs, PField{Path: path, Ex: 1})
				case 2:
					continue
				default:
					fs = append(fs, PField{Path: path, Vals: []Val{{K: "str", S: base}}})
				}
				o.names = append(o.names, path)
				o.kids = append(o.kids, str(base))
			}
			add(xs(k), pat(fs...))
			event(o)
			if len(o.names) > 1 {
				j := r.N(len(o.names))
				event(&jnode{kind: "obj", names: append(append([]string{}, o.names[:j]...), o.names[j+1:]...), kids: o.kids[1:]})
			}
		}
	case 5, 6: // long values
		n := size(60, 6000) // bytes; merging recurses once for each
		var s []rune
		for len(string(s)) < n {
			s = append(s, runes(pick(r, b.letters))...)
		}
		if !validUTF8(string(s)) {
			break
		}
		ok := !strings.ContainsAny(string(s), "*\\")
		other := func() string {
			t := append([]rune{}, s...)
			switch r.N(4) {
			case 0:
				return string(t[:len(t)-1])
			case 1:
				return string(t) + "x"
			}
			j := r.N(len(t))
			if r.P(0.3) {
				j = len(t) - 1
			}
			t[j] = 'q'
			return string(t)
		}
		stars := 0
		for i := 0; i < 3+r.N(5); i++ {
			t := string(s)
			if r.P(0.3) {
				t = other()
			}
			v := Val{K: "str", S: t}
			rs := runes(t)
			switch k := r.N(6); {
			case k == 0:
				v = Val{K: "pre", S: string(rs[:len(rs)-r.N(3)])}
			case k == 1:
				v = Val{K: "ab", L: []string{t, other()}}
			case k == 2 && ok && stars < 2 && n < 2000:
				stars++
				v = Val{K: pick(r, []string{"wc", "sh"}), S: string(rs[:len(rs)/2]) + "*" + string(rs[len(rs)-r.N(len(rs)/2):])}
			case k == 3 && icOK(t) && n < 3000:
				v = Val{K: "ic", S: b.flipCase(t)}
			}
			add(xs(i), pat(PField{Path: "a", Vals: []Val{v}}))
		}
		for i := 0; i < 3; i++ {
			t := string(s)
			if i > 0 {
				t = other()
			}
			event(obj("a", str(t)))
		}
	case 7: // long arrays
		n := size(20, 900)
		leaves := &jnode{kind: "arr"}
		objs := &jnode{kind: "arr"}
		at, at2 := r.N(n), r.N(n)
		if r.P(0.1) { // positions that are equal in 16 bits
			n = 1<<16 + 1 + r.N(4)
			at = r.N(n - 1<<16)
			at2 = at + 1<<16
		} else if r.P(0.3) && n > 256 { // or in 8
			at = r.N(n - 256)
			at2 = at + 256
		}
		for i := 0; i < n; i++ {
			s := "u"
			if i == at {
				s = base
			}
			if i < 1000 || i == at {
				leaves.kids = append(leaves.kids, str(s))
			}
			o := obj("c", str("u"), "d", str("u"))
			if i == at {
				o.kids[0] = str(base)
			}
			if i == at2 {
				o.kids[1] = str("w")
			}
			objs.kids = append(objs.kids, o)
		}
		event(obj("a", leaves, "b", objs))
		add(xs(0), pat(PField{Path: "a", Vals: []Val{{K: "str", S: base}}}))
		add(xs(1), pat(PField{Path: "a", Vals: []Val{{K: "str", S: base}}}, PField{Path: "b\nc", Vals: []Val{{K: "str", S: base}}}))
		add(xs(2), pat(PField{Path: "b\nc", Vals: []Val{{K: "str", S: base}}}, PField{Path: "b\nd", Vals: []Val{{K: "str", S: "w"}}}))
		add(xs(3), pat(PField{Path: "b\nd", Vals: []Val{{K: "pre", S: "w"}}}))
		if n < 2000 {
			add(xs(4), pat(PField{Path: "b\nd", Ex: 2}))
		}
	case 8: // deep
		n := size(6, 120)
		path := ""
		leaf := str(base)
		cut := r.N(n)
		var shallow *jnode
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("k%d", i%3)
			if path != "" {
				path = "\n" + path
			}
			path = k + path
			leaf = obj(k, leaf)
			if r.P(0.2) {
				leaf.names = append(leaf.names, "z")
				leaf.kids = append(leaf.kids, str("z"))
			}
			if i < n-1 && r.P(0.1) {
				leaf = &jnode{kind: "arr", kids: []*jnode{leaf, str("s")}}
			}
			if i == cut && leaf.kind == "obj" {
				shallow = leaf
			}
		}
		event(leaf)
		if shallow != nil {
			event(shallow)
		}
		f := PField{Path: path, Vals: []Val{{K: "str", S: base}}}
		add(xs(0), pat(f))
		segs := strings.Split(path, "\n")
		for i := 1; i < 4; i++ {
			from := r.N(len(segs))
			add(xs(i), pat(PField{Path: strings.Join(segs[from:], "\n"), Vals: f.Vals}))
		}
		add(xs(9), pat(PField{Path: path + "\nq", Ex: 2}, PField{Path: segs[0] + "q", Ex: 2}))
	case 9: // many calls, on few patterns
		e := event(obj("a", str(base)))
		pi := pat(PField{Path: "a", Vals: []Val{{K: "str", S: base}}})
		pj := pat(PField{Path: "a", Vals: []Val{{K: "pre", S: base + "1"}, {K: "str", S: base}}})
		add(xs(0), pi)
		if g.Deletion && r.P(0.5) {
			for i, n := 0, size(20, 300); i < n; i++ {
				l = append(l, b.op(Op{Kind: "del", X: xs(1), H: b.N(4)}))
				add(xs(1), pick(r, []int{pi, pj}))
			}
		}
		l = append(l, b.op(Op{Kind: "match", E: e, N: size(50, 3000)}))
	case 10: // the same again, and copies
		event(obj("a", str(base)))
		pi := pat(PField{Path: "a", Vals: []Val{{K: "str", S: base}}})
		for i, n := 0, size(10, 200); i < n; i++ {
			switch r.N(4) {
			case 0:
				l = append(l, b.op(Op{Kind: "copy", H: b.N(4)}))
			case 1:
				add(xs(i%7), pat(PField{Path: fmt.Sprintf("o%d", i), Vals: []Val{{K: "str", S: base}}}))
			case 2:
				match(0)
			default:
				add(xs(i%7), pi)
			}
		}
	case 13: // patterns that differ after many common fields
		n := size(4, 60)
		fan, e := b.fan(2 + r.N(4))
		var common []PField
		text := "{"
		var fields []EField
		for i := 0; i < n; i++ {
			path := fmt.Sprintf("%02d", i)
			common = append(common, PField{Path: path, Vals: []Val{{K: "str", S: base}}})
			text += b.quote(path, 0) + ":" + b.quote(base, 0) + ","
			fields = append(fields, EField{Path: path, K: "str", S: base})
		}
		for i := range fan {
			add(xs(i), pat(append(append([]PField{}, common...), fan[i].Fields...)...))
		}
		fields = append(fields, e.Fields...)
		e.Text = text + strings.TrimLeft(e.Text, " \t\r\n")[1:]
		e.Fields = fields
		p.Events = append(p.Events, e)
	case 12: // two values with many arrays between them
		n := size(3, 300)
		if r.P(0.3) {
			n = 255
		} else if r.P(0.15) {
			n = 1<<16 - 1
		}
		fill := &jnode{kind: "arr"}
		for i := 0; i < n-1; i++ {
			fill.kids = append(fill.kids, &jnode{kind: "arr", kids: []*jnode{{kind: "num", s: "0"}}})
		}
		one := &jnode{kind: "arr", kids: []*jnode{str(base)}}
		two := &jnode{kind: "arr", kids: []*jnode{str("u"), str("u"), str("w")}}
		if r.P(0.5) {
			event(obj("a", one, "f", fill, "b", two))
		} else {
			event(obj("f", fill, "a", two, "b", one))
		}
		va, vb := []Val{{K: "str", S: base}}, []Val{{K: "str", S: "w"}}
		add(xs(0), pat(PField{Path: "a", Vals: va}, PField{Path: "b", Vals: vb}))
		add(xs(1), pat(PField{Path: "a", Vals: vb}, PField{Path: "b", Vals: va}))
		if n < 1000 { // the library tries every pair of matching elements
			add(xs(2), pat(PField{Path: "f", Vals: []Val{{K: "num", S: "0"}}}, PField{Path: "b", Ex: 1}))
		}
	case 11: // numbers with many digits, and many of them
		n := size(10, 150)
		for i := 0; i < n; i++ {
			s := b.number()
			if r.P(0.3) {
				s = fmt.Sprintf("%d%d", 1+r.N(9), r.N(1<<30))
				for r.P(0.6) {
					s += fmt.Sprint(r.N(1 << 30))
				}
				if r.P(0.5) {
					s += ".5"
				}
			}
			add(xs(i), pat(PField{Path: "a", Vals: []Val{{K: "num", S: s}}}))
			if i < 6 {
				t := s
				if r.P(0.5) {
					t = b.respell(s)
				}
				if r.P(0.3) {
					t = b.near(s)
				}
				event(obj("a", &jnode{kind: "num", s: t}))
			}
		}
	}
	if len(p.Events) == 0 {
		event(obj("a", str(base)))
	}
	if len(p.Patterns) == 1 {
		add(xs(0), pat(PField{Path: "a", Ex: 1}))
	}
	if r.P(0.3) {
		p.Setup = append(p.Setup, b.op(Op{Kind: "mode", Mode: r.N(2)}))
	}
	// the last part of it concurrently with matching
	k := len(l)
	if p.Tasks > 1 {
		k = len(l) - min(len(l), r.N(12))
	}
	p.Setup = append(p.Setup, l[:k]...)
	for i := range p.Events {
		if i < 4 {
			p.Setup = append(p.Setup, b.op(Op{Kind: "match", E: i, Scrib: b.scrib()}))
		}
	}
	if g.Deletion {
		// delete some, then look again
		n := size(1, 40)
		for i := 0; i < n; i++ {
			p.Final = append(p.Final, b.op(Op{Kind: "del", X: xs(r.N(max(1, len(p.Patterns)))), H: b.N(4)}))
		}
		p.Final = append(p.Final, b.op(Op{Kind: "match", E: 0, N: pick(r, []int{1, 1, 3, 30})}))
	}
	p.Conc = append(p.Conc, l[k:])
	if p.Tasks > 1 {
		var m []Op
		for i := 0; i < 1+r.N(5); i++ {
			m = append(m, b.op(Op{Kind: "match", E: r.N(len(p.Events)), Scrib: b.scrib(), H: b.N(4)}))
		}
		p.Conc = append(p.Conc, m)
	}
}
