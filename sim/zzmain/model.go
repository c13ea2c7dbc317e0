package main

import (
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// The reference model: what the documentation says a pattern matches, over
// structured patterns and events. It shares no code with quamina.

const (
	no = iota
	either
	yes
)

var reCache = map[string]*regexp.Regexp{}

func goRE(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		if len(reCache) > 5000 {
			reCache = map[string]*regexp.Regexp{}
		}
		r = regexp.MustCompile(`^(?s:` + s + `)$`)
		reCache[s] = r
	}
	return r
}

func globMatch(toks []int32, s []rune) bool { // -1 is *
	n := len(s)
	cur := make([]bool, n+1)
	cur[0] = true
	for _, t := range toks {
		nxt := make([]bool, n+1)
		if t == -1 {
			on := false
			for i := 0; i <= n; i++ {
				on = on || cur[i]
				nxt[i] = on
			}
		} else {
			for i := 0; i < n; i++ {
				if cur[i] && s[i] == t {
					nxt[i+1] = true
				}
			}
		}
		cur = nxt
	}
	return cur[n]
}

func foldEq(a, b string) bool {
	ra, rb := []rune(a), []rune(b)
	if len(ra) != len(rb) {
		return false
	}
	for i := range ra {
		x := ra[i]
		for x != rb[i] {
			if x = unicode.SimpleFold(x); x == ra[i] {
				return false
			}
		}
	}
	return true
}

func valMatch(v *Val, f *EField) int {
	b := func(x bool) int {
		if x {
			return yes
		}
		return no
	}
	switch v.K {
	case "str":
		return b(f.K == "str" && f.S == v.S)
	case "lit":
		return b(f.K == "lit" && f.S == v.S)
	case "num":
		if f.K != "num" {
			return no
		}
		x, e1 := strconv.ParseFloat(v.S, 64)
		y, e2 := strconv.ParseFloat(f.S, 64)
		if e1 != nil || e2 != nil {
			return either
		}
		return b(x == y)
	case "ab":
		if f.K != "str" {
			return either // PATTERNS.md speaks of string values only
		}
		for _, s := range v.L {
			if s == f.S {
				return no
			}
		}
		return yes
	case "pre":
		return b(f.K == "str" && strings.HasPrefix(f.S, v.S))
	case "sh":
		if f.K != "str" {
			return no
		}
		var t []int32
		for _, r := range v.S {
			if r == '*' {
				t = append(t, -1)
			} else {
				t = append(t, r)
			}
		}
		return b(globMatch(t, []rune(f.S)))
	case "wc":
		if f.K != "str" {
			return no
		}
		var t []int32
		esc := false
		for _, r := range v.S {
			switch {
			case esc:
				t = append(t, r)
				esc = false
			case r == '\\':
				esc = true
			case r == '*':
				t = append(t, -1)
			default:
				t = append(t, r)
			}
		}
		return b(globMatch(t, []rune(f.S)))
	case "ic":
		return b(f.K == "str" && foldEq(v.S, f.S))
	case "re":
		return b(f.K == "str" && goRE(v.G).MatchString(f.S))
	}
	panic("model: unknown value kind " + v.K)
}

func trailsOK(a, b *EField) bool {
	for _, x := range a.Trail {
		for _, y := range b.Trail {
			if x[0] == y[0] && x[1] != y[1] {
				return false
			}
		}
	}
	return true
}

// matches says whether the event matches the pattern: yes, no, or either when
// the documentation leaves it open.
func matches(p *Pattern, e *Event) int {
	if p.Bad || e.Bad != 0 {
		return either
	}
	var need []*PField
	for i := range p.Fields {
		f := &p.Fields[i]
		switch {
		case f.Ex == 2:
			for j := range e.Fields {
				if e.Fields[j].Path == f.Path {
					return no
				}
			}
		case f.Ex == 0 && len(f.Vals) == 0:
			if len(p.Fields) == 1 {
				return no
			}
			// an empty list next to other fields: not described
			return emptyList(p, e)
		default:
			need = append(need, f)
		}
	}
	chosen := make([]*EField, 0, len(need))
	best := no
	budget := 200000
	var rec func(i, lvl int)
	rec = func(i, lvl int) {
		budget--
		if best == yes || budget < 0 {
			return
		}
		if i == len(need) {
			if lvl > best {
				best = lvl
			}
			return
		}
		f := need[i]
		for j := range e.Fields {
			ef := &e.Fields[j]
			if ef.Path != f.Path {
				continue
			}
			m := no
			if f.Ex == 1 {
				m = yes
			} else {
				for k := range f.Vals {
					if r := valMatch(&f.Vals[k], ef); r > m {
						m = r
					}
				}
			}
			if m == no {
				continue
			}
			ok := true
			for _, c := range chosen {
				if !trailsOK(c, ef) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			l := lvl
			if m < l {
				l = m
			}
			chosen = append(chosen, ef)
			rec(i+1, l)
			chosen = chosen[:len(chosen)-1]
		}
	}
	rec(0, yes)
	if budget < 0 && best != yes {
		return either
	}
	return best
}

func emptyList(p *Pattern, e *Event) int {
	q := *p
	q.Fields = nil
	for _, f := range p.Fields {
		if f.Ex == 0 && len(f.Vals) == 0 {
			continue
		}
		q.Fields = append(q.Fields, f)
	}
	if len(q.Fields) == 0 {
		return no
	}
	if matches(&q, e) == no {
		return no
	}
	return either
}
