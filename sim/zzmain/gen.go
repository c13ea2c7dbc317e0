package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"quamina.net/go/quamina/v2/internal/zzsim"
)

// The generator: everything about a run follows from its seed.

type gen struct {
	*zzsim.RNG
	letters []string
	vocab   []string
	nums    []string
	paths   []string
	kinds   []string
	long    bool
	wide    bool    // events with more members and longer arrays
	pExtra  float64 // probability of trimmings in events
	pArr    float64
	pEsc    float64
	maxVals int
	maxFlds int
	stars   map[string]int
	props   bool // regexps with character properties
	pats    []Pattern
	evts    []Event
}

var letterPool = []string{"a", "b", "c", "d", "A", "B", "é", "É", "日", ",", "\"", "\\", "x", "*", " ", "𝄞", "z", "0", "1", "~", "/", "<", "ß", "Ω", "\u0001", "\u007f", "€", "{", "}", "[", "]", ":", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "?", ".", "\n", "\t", "\b", "\f", "\r", "(", ")", "|", "-", "^", "$", "+",
	"k", "K", "\u212a", "s", "S", "ſ", "σ", "ς", "Σ", "ι", "Ι", "\u0345", "\u1fbe", "μ", "Μ", "µ", "я", "Я", "ω", "\u2126", "i", "I", "ı", "İ", "ǆ", "ǅ", "𐐀", "𐐨", "Ꭰ", "ꭰ", "å", "\u212b", "т", "ᲅ"}
var numPool = []string{"0", "1", "-1", "1.5", "10", "100", "1e2", "35", "35.0", "3.5e1", "0.5", "5e-1", "2", "-3.25", "12345678", "1e6", "1000000", "0.1", "1e-1", "9007199254740991", "1.0", "300", "3.0e2", "-35", "1e0", "0", "-0", "0.0", "-0.0e5", "123456789012345678", "1e300", "1e-300", "5e-324", "1.7976931348623157e308", "4294967296", "-9007199254740993"}
var pathSeg = []string{"a", "b", "c", "aa", "z", "é", "ab", "B", "x y", "日本", "k\"q", "0", "b\\s", "", "a\ue00aa", "\ue00a", "b\ue00ac"} // U+E00A is written \\n

func pick[T any](g *zzsim.RNG, l []T) T { return l[g.N(len(l))] }

func newGen(r *zzsim.RNG, big bool) *gen {
	g := &gen{RNG: r}
	// letters
	nl := 2 + g.N(3)
	for i := 0; i < nl; i++ {
		if g.P(0.75) {
			g.letters = append(g.letters, pick(r, letterPool[:3]))
		} else {
			g.letters = append(g.letters, pick(r, letterPool))
		}
	}
	nv := 3 + g.N(6)
	if big {
		nv = 10 + g.N(60)
		g.letters = append(g.letters, pick(r, letterPool), pick(r, letterPool), pick(r, letterPool))
	}
	g.long = g.P(0.08)
	g.wide = g.P(0.04)
	for i := 0; i < nv; i++ {
		g.vocab = append(g.vocab, g.word(5))
	}
	if g.long {
		g.vocab = append(g.vocab, strings.Repeat(g.word(3)+"a", 10+g.N(60)))
	}
	nn := 2 + g.N(4)
	for i := 0; i < nn; i++ {
		if g.P(0.3) {
			g.nums = append(g.nums, g.number())
			continue
		}
		g.nums = append(g.nums, pick(r, numPool))
	}
	if big {
		for i := 0; i < 30; i++ {
			g.nums = append(g.nums, fmt.Sprint(g.N(1000)-200))
		}
	}
	np := 2 + g.N(5)
	if big {
		np += g.N(6)
	}
	nest := 0.0 // most members below one parent, so that arrays of objects matter
	if g.P(0.15) {
		nest = 0.8
	}
	for len(g.paths) < np {
		p := pick(r, pathSeg[:4])
		if g.P(0.3) {
			p = pick(r, pathSeg)
		}
		if len(g.paths) > 0 && g.P(0.35) {
			p = pick(r, g.paths)
			if strings.Count(p, "\n") < 3 {
				p += "\n" + pick(r, pathSeg[:5])
			}
		}
		if nest > 0 && g.P(nest) {
			p = "m\n" + pick(r, []string{"a", "b", "c", "n\na", "n\nb"})
		}
		dup := false
		for _, q := range g.paths {
			dup = dup || q == p
		}
		if dup {
			if g.P(0.3) {
				np--
			}
			continue
		}
		g.paths = append(g.paths, p)
	}
	all := []string{"str", "num", "lit", "ab", "pre", "sh", "wc", "ic", "re", "ex", "nex"}
	if g.P(0.25) {
		g.kinds = all
	} else {
		k := 1 + g.N(4)
		for i := 0; i < k; i++ {
			g.kinds = append(g.kinds, pick(r, all))
		}
		if g.P(0.6) {
			g.kinds = append(g.kinds, "str")
		}
	}
	g.pExtra = pick(r, []float64{0, 0.1, 0.3})
	g.pArr = pick(r, []float64{0, 0.1, 0.3, 0.5})
	g.pEsc = pick(r, []float64{0, 0, 0.05, 0.3})
	g.props = g.P(0.08)
	g.maxVals = 1 + g.N(3)
	g.maxFlds = 1 + g.N(3)
	if g.P(0.05) {
		g.maxFlds = 5
	}
	return g
}

func (g *gen) word(max int) string {
	s := ""
	n := g.N(max + 1)
	if n == 0 && g.P(0.7) {
		n = 1
	}
	for i := 0; i < n; i++ {
		s += pick(g.RNG, g.letters)
	}
	return s
}

func runes(s string) []rune { return []rune(s) }

func (g *gen) strVal() string {
	if g.P(0.85) {
		return pick(g.RNG, g.vocab)
	}
	return g.word(4)
}

func (g *gen) glob(esc bool) string {
	w := runes(g.strVal())
	var t []int32
	for _, r := range w {
		t = append(t, r)
	}
	n := 1 + g.N(2)
	if g.P(0.1) {
		n = 3
	}
	if g.P(0.04) {
		n = 0
	}
	for i := 0; i < n; i++ {
		// replace t[a:b] by a star
		a := g.N(len(t) + 1)
		b := a
		if g.P(0.5) && a < len(t) {
			b = a + g.N(len(t)-a+1)
		}
		nt := append([]int32{}, t[:a]...)
		nt = append(nt, -1)
		nt = append(nt, t[b:]...)
		t = nt
	}
	out := ""
	prev := false
	for _, x := range t {
		if x == -1 {
			if !prev {
				out += "*"
			}
			prev = true
			continue
		}
		if x == '*' {
			if !esc {
				// a plain star cannot be written in shellstyle
				if !prev {
					out += "*"
				}
				prev = true
				continue
			}
			out += "\\*"
		} else if x == '\\' && esc {
			out += "\\\\"
		} else {
			out += string(rune(x))
		}
		prev = false
	}
	return out
}

// number makes the text of a number which may never have been seen before.
func (g *gen) number() string {
	if g.P(0.2) {
		return g.respell(strconv.FormatFloat(math.Float64frombits(g.U64()&^(1<<62)), 'g', -1, 64))
	}
	s := ""
	if g.P(0.3) {
		s = "-"
	}
	s += strconv.Itoa(g.N(pick(g.RNG, []int{10, 1000, 1000000, 1000000000})))
	if g.P(0.4) {
		s += "." + fmt.Sprintf("%0*d", 1+g.N(4), g.N(1000))
	}
	if g.P(0.3) {
		s += pick(g.RNG, []string{"e", "E", "e+", "e-", "E-0", "e00"}) + strconv.Itoa(g.N(30))
	}
	return s
}

// respell writes a number in another way.
func (g *gen) respell(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsInf(f, 0) || math.IsNaN(f) {
		return "0"
	}
	t := strconv.FormatFloat(f, pick(g.RNG, []byte{'e', 'E', 'g', 'f'}), -1, 64)
	if strings.ContainsAny(t, "eE") {
		return t
	}
	switch g.N(4) {
	case 0:
		if strings.Contains(t, ".") {
			return t + "00"
		}
		return t + ".0"
	case 1:
		return t + "e0"
	}
	return t
}

// near makes a number close to the one given.
func (g *gen) near(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return s
	}
	switch g.N(4) {
	case 0:
		f = math.Nextafter(f, math.Inf(1))
	case 1:
		f = math.Nextafter(f, math.Inf(-1))
	case 2:
		f = -f
	case 3:
		f *= 10
	}
	return g.respell(strconv.FormatFloat(f, 'g', -1, 64))
}

func (g *gen) flipCase(s string) string {
	out := ""
	for _, r := range s {
		for g.P(0.5) {
			if x := unicode.SimpleFold(r); icOK(string(x)) && icOK(string(r)) {
				r = x
			}
		}
		out += string(r)
	}
	return out
}

// icOK leaves out what CaseFolding.txt has in lines marked S only.
func icOK(s string) bool {
	for _, r := range s {
		if r == 'ß' || r == 'ẞ' || r >= 0x1f80 && r < 0x2000 && r != 0x1fbe {
			return false
		}
	}
	return true
}

var propCats = []string{"Lu", "Ll", "Nd", "Zs", "Sc", "Po", "Ps", "Sm", "Cc"}

// reLit writes one character for quamina and for the model; class says
// whether it stands in a class.
func reLit(r rune, class bool) (string, string) {
	go1 := string(r)
	if r < 0x80 && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
		go1 = fmt.Sprintf("\\x%02x", r)
	}
	switch {
	case r == '\n':
		return "~n", go1
	case r == '\r':
		return "~r", go1
	case r == '\t':
		return "~t", go1
	case !class && strings.ContainsRune("()*+.?[]{|}~", r):
		return "~" + string(r), go1
	case class && strings.ContainsRune("[]~-^\\", r):
		return "~" + string(r), go1
	}
	return string(r), go1
}

func (g *gen) regexp() (string, string) {
	q, m := "", ""
	lit := func(r rune) (string, string) { return reLit(r, false) }
	w := runes(g.strVal())
	if len(w) == 0 && g.P(0.7) {
		w = runes("a")
	}
	if len(w) > 12 {
		w = w[:12]
	}
	for i := 0; i < len(w); i++ {
		var a, b string
		switch {
		case g.props && g.P(0.3):
			// a class of characters by property
			c := pick(g.RNG, propCats)
			for _, x := range propCats {
				if unicode.Is(unicode.Categories[x], w[i]) && g.P(0.8) {
					c = x
				}
			}
			a, b = "~p{"+c+"}", "\\p{"+c+"}"
			if g.P(0.3) {
				x, y := reLit(w[i], true)
				a, b = "["+a+x+"]", "["+b+y+"]"
			}
		case g.P(0.55):
			a, b = lit(w[i])
		case g.P(0.25):
			a, b = ".", "."
		case g.P(0.5):
			var l []rune
			for k := 0; k < 1+g.N(2); k++ {
				l = append(l, runes(pick(g.RNG, g.letters))[0])
			}
			l = append(l, w[i])
			if g.P(0.15) {
				a, b = g.without(l)
				break
			}
			a, b = "[", "["
			if g.P(0.1) {
				a, b = a+"-", b+"\\x2d"
			}
			for _, r := range l {
				x, y := reLit(r, true)
				a, b = a+x, b+y
				if g.P(0.1) {
					hi := r + rune(g.N(40))
					if hi > 0xffff || hi >= 0xd800 && hi < 0xe000 || hi > r && r < 0x30 {
						hi = r
					}
					x, y := reLit(hi, true)
					a, b = a+"-"+x, b+"-"+y
				}
			}
			if g.P(0.2) {
				a += "x-z"
				b += "x-z"
			}
			if g.P(0.05) {
				a, b = a+"-", b+"\\x2d"
			}
			a += "]"
			b += "]"
		default:
			// a group of alternatives
			x, y := lit(w[i])
			if i+1 < len(w) && g.P(0.5) {
				i++
				x2, y2 := lit(w[i])
				x += x2
				y += y2
			}
			a, b = "("+x, "(?:"+y
			for k := 0; k < 1+g.N(2); k++ {
				alt := runes(g.strVal())
				if len(alt) == 0 && g.P(0.8) {
					alt = runes("b")
				}
				if g.P(0.2) {
					alt = append(w[i:i+1:i+1], alt...) // begins like the first one
				}
				if len(alt) > 3 {
					alt = alt[:3]
				}
				a += "|"
				b += "|"
				for _, r := range alt {
					x, y := lit(r)
					a += x
					b += y
				}
			}
			a += ")"
			b += ")"
		}
		if g.P(0.2) {
			s := pick(g.RNG, []string{"?", "*", "+", "{1,2}", "{2}", "{0,1}", "{1,}", "{2,}", "{3,}", "{0,2}"})
			a += s
			b += s
		}
		q += a
		m += b
	}
	return q, m
}

// without makes a class of the characters of l by naming all others.
func (g *gen) without(l []rune) (string, string) {
	l = append([]rune{}, l...)
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	a, b := "[^", "[^"
	lo := rune(0)
	put := func(lo, hi rune) {
		if lo > hi {
			return
		}
		x, y := reLit(lo, true)
		a, b = a+x, b+y
		if lo == hi {
			return
		}
		x, y = reLit(hi, true)
		a, b = a+"-"+x, b+"-"+y
	}
	step := func(r rune, by rune) rune {
		r += by
		if r >= 0xd800 && r < 0xe000 {
			if by > 0 {
				r = 0xe000
			} else {
				r = 0xd7ff
			}
		}
		return r
	}
	for _, r := range l {
		if r >= lo {
			if r > 0 {
				put(lo, step(r, -1))
			}
			lo = step(r, 1)
		}
	}
	put(lo, 0x10ffff)
	if !slices.Contains(l, '-') {
		// the hyphen is in one of the ranges, and may be named again
		if g.P(0.2) {
			a, b = "[^-"+a[2:], b
		} else if g.P(0.3) {
			a += "-"
		}
	}
	return a + "]", b + "]"
}

// fan makes n patterns over the same two or three members which, mostly, all
// match one event, each with values of its own: every member takes the
// automaton to several states at once, on every level.
func (g *gen) fan(n int) ([]Pattern, Event) {
	seg := []string{"a", "b", "c"}
	if g.P(0.2) {
		seg = []string{"m\na", "m\nb", "m\nc", "n"}
	}
	paths := seg[:2+g.N(len(seg)-1)]
	word := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += pick(g.RNG, g.letters)
		}
		return s
	}
	root := map[string]string{}
	for _, p := range paths {
		root[p] = word(1 + g.N(5))
	}
	one := func(s string, k int, stars *int) Val {
		r := runes(s)
		a := g.N(len(r))
		z := a + 1 + g.N(len(r)-a)
		sub := string(r[a:z])
		glob := func() string { // a glob which matches s
			if strings.ContainsAny(s, "*\\") {
				return ""
			}
			switch g.N(4) {
			case 0:
				return "*" + sub + "*"
			case 1:
				return string(r[:a]) + "*"
			case 2:
				return "*" + string(r[a:])
			}
			return "*"
		}
		switch k {
		case 0:
			return Val{K: "pre", S: string(r[:1+g.N(len(r))])}
		case 1:
			if v := g.flipCase(s); icOK(v) {
				return Val{K: "ic", S: v}
			}
		case 2, 3, 4:
			if v := glob(); v != "" && *stars > 0 {
				*stars--
				return Val{K: pick(g.RNG, []string{"wc", "sh"}), S: v}
			}
		}
		return Val{K: "str", S: s}
	}
	top := 6
	var ps []Pattern
	for i := 0; i < n; i++ {
		var p Pattern
		for j, path := range paths {
			f := PField{Path: path}
			stars := 3
			lim := &stars
			if j == 0 {
				lim = &top
			}
			switch {
			case j > 0 && g.P(0.1):
				f.Ex = 1
			case j > 0 && g.P(0.05):
				f.Vals = []Val{{K: "ab", L: []string{"nope"}}}
			default:
				// in all combinations these lead to as many states
				for k := 1 + g.N(6-len(paths)); k > 0; k-- {
					v := one(root[path], g.N(6), lim)
					if g.P(0.08) {
						v = one(word(1+g.N(3)), g.N(6), lim)
					}
					f.Vals = append(f.Vals, v)
				}
			}
			p.Fields = append(p.Fields, f)
		}
		p.Text = g.patternText(&p)
		ps = append(ps, p)
	}
	n1 := &jnode{kind: "obj"}
	var m *jnode
	for _, path := range paths {
		leaf := &jnode{kind: "str", s: root[path]}
		if g.P(0.25) {
			leaf = &jnode{kind: "arr", kids: []*jnode{{kind: "str", s: root[path]}, {kind: "str", s: root[path] + word(1)}}}
		}
		if rest, in := strings.CutPrefix(path, "m\n"); in {
			if m == nil {
				m = &jnode{kind: "obj"}
				n1.names = append(n1.names, "m")
				n1.kids = append(n1.kids, m)
			}
			m.names = append(m.names, rest)
			m.kids = append(m.kids, leaf)
			continue
		}
		n1.names = append(n1.names, path)
		n1.kids = append(n1.kids, leaf)
	}
	if m != nil && g.P(0.4) {
		// an array of objects, the first of which is half of the other
		h := &jnode{kind: "obj", names: m.names[:1], kids: m.kids[:1]}
		for i := range n1.kids {
			if n1.kids[i] == m {
				n1.kids[i] = &jnode{kind: "arr", kids: []*jnode{h, m}}
			}
		}
	}
	return ps, g.eventOf(n1)
}

// kind picks a kind of value. The number of those with a "*" on one path is
// kept down, because the size of the automaton can grow exponentially with it.
func (g *gen) kind(path string) string {
	k := pick(g.RNG, g.kinds)
	if k == "sh" || k == "wc" || k == "re" {
		if g.stars == nil {
			g.stars = map[string]int{}
		}
		if g.stars[path] >= 7 {
			return "str"
		}
		g.stars[path]++
	}
	return k
}

// field makes the values of one pattern field.
func (g *gen) field(path string) PField {
	f := PField{Path: path}
	k := g.kind(path)
	switch k {
	case "ex":
		f.Ex = 1
		return f
	case "nex":
		f.Ex = 2
		return f
	case "ab":
		v := Val{K: "ab"}
		for i := 0; i < 1+g.N(3); i++ {
			v.L = append(v.L, g.strVal())
		}
		f.Vals = []Val{v}
		return f
	case "re":
		q, m := g.regexp()
		f.Vals = []Val{{K: "re", S: q, G: m}}
		return f
	}
	n := 1 + g.N(g.maxVals)
	if g.P(0.01) {
		n = 0
	}
	if g.P(0.01) {
		n = 12
	}
	for len(f.Vals) < n {
		v := Val{K: k}
		switch k {
		case "str":
			v.S = g.strVal()
		case "num":
			v.S = pick(g.RNG, g.nums)
		case "lit":
			v.S = pick(g.RNG, []string{"true", "false", "null"})
		case "pre":
			w := runes(g.strVal())
			v.S = string(w[:g.N(len(w)+1)])
			if v.S == "" && g.P(0.7) {
				v.S = g.letters[0]
			}
		case "sh":
			v.S = g.glob(false)
		case "wc":
			v.S = g.glob(true)
		case "ic":
			v.S = g.flipCase(g.strVal())
			if !icOK(v.S) || v.S == "" && g.P(0.7) {
				v.S = "aB"
			}
		}
		f.Vals = append(f.Vals, v)
		for {
			k = g.kind(path)
			if k != "ab" && k != "re" && k != "ex" && k != "nex" {
				break
			}
			if g.P(0.3) {
				k = "str"
				break
			}
		}
	}
	return f
}

func (g *gen) pattern() Pattern {
	var p Pattern
	n := 1 + g.N(g.maxFlds)
	if n > len(g.paths) {
		n = len(g.paths)
	}
	used := map[string]bool{}
	for len(p.Fields) < n {
		path := pick(g.RNG, g.paths)
		if used[path] {
			continue
		}
		clash := false
		for u := range used {
			if strings.HasPrefix(u, path+"\n") || strings.HasPrefix(path, u+"\n") {
				clash = true // one member cannot be both leaf and object in a pattern
			}
		}
		if clash {
			n--
			continue
		}
		used[path] = true
		p.Fields = append(p.Fields, g.field(path))
	}
	if len(p.Fields) == 0 {
		p.Fields = append(p.Fields, g.field(pick(g.RNG, g.paths)))
	}
	p.Text = g.patternText(&p)
	return p
}

// ---- JSON text

func (g *gen) quote(s string, pEsc float64) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			if g != nil && g.P(pEsc) {
				fmt.Fprintf(&b, "\\u%04x", r)
			} else {
				b.WriteByte('\\')
				b.WriteRune(r)
			}
		case r == '/' && g != nil && g.P(pEsc):
			b.WriteString("\\/")
		case strings.ContainsRune("\b\f\n\r\t", r) && (g == nil || g.P(0.6)):
			b.WriteString(map[rune]string{'\b': "\\b", '\f': "\\f", '\n': "\\n", '\r': "\\r", '\t': "\\t"}[r])
		case r == 0xe00a: // stands for a newline in a member name
			b.WriteString([]string{"\\n", "\\u000a"}[len(s)%2])
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		case g != nil && g.P(pEsc):
			if r >= 0x10000 {
				x := r - 0x10000
				fmt.Fprintf(&b, "\\u%04x\\u%04X", 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			} else {
				fmt.Fprintf(&b, "\\u%04X", r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type trie struct {
	name  string
	field *PField
	kids  []*trie
}

func (t *trie) insert(path []string, f *PField) {
	if len(path) == 0 {
		t.field = f
		return
	}
	for _, k := range t.kids {
		if k.name == path[0] {
			k.insert(path[1:], f)
			return
		}
	}
	k := &trie{name: path[0]}
	t.kids = append(t.kids, k)
	k.insert(path[1:], f)
}

func (g *gen) patternText(p *Pattern) string {
	root := &trie{}
	for i := range p.Fields {
		root.insert(strings.Split(p.Fields[i].Path, "\n"), &p.Fields[i])
	}
	var w func(t *trie) string
	w = func(t *trie) string {
		if t.field != nil {
			return g.fieldText(t.field)
		}
		s := "{"
		for i, k := range t.kids {
			if i > 0 {
				s += ","
			}
			s += g.sp() + g.quote(k.name, 0) + ":" + g.sp() + w(k)
		}
		return s + "}"
	}
	return w(root)
}

func (g *gen) sp() string {
	if g.P(0.05) {
		return pick(g.RNG, []string{" ", "\n", "\t", "  "})
	}
	return ""
}

func (g *gen) fieldText(f *PField) string {
	switch f.Ex {
	case 1:
		return `[{"exists":true}]`
	case 2:
		return `[{"exists":false}]`
	}
	s := "["
	for i, v := range f.Vals {
		if i > 0 {
			s += ","
		}
		s += g.sp()
		switch v.K {
		case "str":
			s += g.quote(v.S, g.pEsc)
		case "num", "lit":
			s += v.S
		case "ab":
			s += `{"anything-but":[`
			for j, x := range v.L {
				if j > 0 {
					s += ","
				}
				s += g.quote(x, 0)
			}
			s += "]}"
		default:
			name := map[string]string{"pre": "prefix", "sh": "shellstyle", "wc": "wildcard", "ic": "equals-ignore-case", "re": "regexp"}[v.K]
			s += `{"` + name + `":` + g.quote(v.S, 0) + "}"
		}
	}
	return s + "]"
}

// ---- events

type jnode struct {
	kind  string // obj arr str num lit
	s     string
	names []string
	kids  []*jnode
}

func (g *gen) leafFor(path string, target *Pattern) *jnode {
	var tf *PField
	if target != nil {
		for i := range target.Fields {
			if target.Fields[i].Path == path {
				tf = &target.Fields[i]
			}
		}
	}
	mk := func() *jnode {
		switch {
		case g.P(0.12):
			return &jnode{kind: "num", s: pick(g.RNG, g.nums)}
		case g.P(0.08):
			return &jnode{kind: "lit", s: pick(g.RNG, []string{"true", "false", "null"})}
		}
		s := pick(g.RNG, g.vocab)
		if g.P(0.3) {
			s += g.word(2)
		}
		if g.P(0.1) {
			s = g.word(2) + s
		}
		if g.P(0.1) {
			s = g.flipCase(s)
		}
		return &jnode{kind: "str", s: s}
	}
	if tf == nil || len(tf.Vals) == 0 || g.P(0.1) {
		return mk()
	}
	v := pick(g.RNG, tf.Vals)
	switch v.K {
	case "str", "num", "lit":
		n := &jnode{kind: v.K, s: v.S}
		if v.K == "num" {
			if g.P(0.3) {
				n.s = g.respell(v.S)
			} else if g.P(0.1) {
				n.s = g.near(v.S)
			}
			for i := 0; i < 4; i++ {
				o := pick(g.RNG, numPool)
				if valMatch(&v, &EField{K: "num", S: o}) == yes && g.P(0.5) {
					n.s = o
				}
			}
		}
		return n
	case "pre":
		return &jnode{kind: "str", s: v.S + g.word(2)}
	case "ic":
		return &jnode{kind: "str", s: g.flipCase(v.S)}
	case "sh", "wc":
		if g.P(0.6) {
			out := ""
			esc := false
			for _, r := range v.S {
				switch {
				case esc:
					out += string(r)
					esc = false
				case v.K == "wc" && r == '\\':
					esc = true
				case r == '*':
					out += g.word(2)
				default:
					out += string(r)
				}
			}
			return &jnode{kind: "str", s: out}
		}
	}
	for i := 0; i < 8; i++ {
		n := mk()
		if valMatch(&v, &EField{K: n.kind, S: n.s}) == yes {
			return n
		}
	}
	return mk()
}

func (g *gen) junk(depth int) *jnode {
	switch g.N(7) {
	case 0:
		return &jnode{kind: "num", s: pick(g.RNG, g.nums)}
	case 1:
		return &jnode{kind: "lit", s: "null"}
	case 2, 3:
		if depth > 0 {
			n := &jnode{kind: "obj"}
			for i := 0; i < g.N(3); i++ {
				nm := fmt.Sprint("u", i)
				if g.P(0.4) {
					nm = pick(g.RNG, pathSeg[:4]) + strings.Repeat("_", i)
				}
				n.names = append(n.names, nm)
				n.kids = append(n.kids, g.junk(depth-1))
			}
			return n
		}
	case 4:
		if depth > 0 {
			n := &jnode{kind: "arr"}
			for i := 0; i < g.N(4); i++ {
				n.kids = append(n.kids, g.junk(depth-1))
			}
			return n
		}
	}
	return &jnode{kind: "str", s: pick(g.RNG, []string{"}", "]", "\"", "\\", "{\"a\":[1", g.vocab[0], ""})}
}

func (g *gen) event(target *Pattern) Event {
	root := &trie{}
	for _, p := range g.paths {
		f := &PField{Path: p}
		root.insert(strings.Split(p, "\n"), f)
	}
	budget := 3 + g.N(8)
	if g.wide {
		budget += 50
	}
	want := map[string]bool{}
	avoid := map[string]bool{}
	if target != nil {
		for _, f := range target.Fields {
			if f.Ex == 2 {
				if g.P(0.8) {
					avoid[f.Path] = true
				}
				continue
			}
			want[f.Path] = true
		}
	}
	pInc := pick(g.RNG, []float64{0.2, 0.5, 0.8})
	// split: what the pattern wants is spread over the elements of arrays
	split := len(want) > 1 && g.P(0.15)
	// deep: in arrays inside arrays inside arrays
	deep := 0
	if split && g.P(0.3) {
		deep = 1 + g.N(6)
	}
	wrap := func(n *jnode) *jnode {
		for i := 0; i < deep; i++ {
			n = &jnode{kind: "arr", kids: []*jnode{n}}
			if g.P(0.1) {
				n.kids = append(n.kids, &jnode{kind: "num", s: "0"})
			}
		}
		return n
	}
	wanted := func(path string) bool {
		for w := range want {
			if w == path || strings.HasPrefix(w, path+"\n") {
				return true
			}
		}
		return false
	}
	var build func(t *trie, path string, depth int) *jnode
	var value func(t *trie, path string, depth int) *jnode
	build = func(t *trie, path string, depth int) *jnode {
		n := &jnode{kind: "obj"}
		add := func(name string, k *jnode) {
			if k == nil {
				return
			}
			for _, o := range n.names {
				if o == name {
					return
				}
			}
			n.names = append(n.names, name)
			n.kids = append(n.kids, k)
		}
		for _, k := range t.kids {
			p := k.name
			if depth > 0 {
				p = path + "\n" + k.name
			}
			if avoid[p] && k.field != nil && len(k.kids) == 0 {
				continue
			}
			pWant := 0.95
			if split && depth > 0 {
				pWant = 0.6
			}
			if !(wanted(p) && g.P(pWant)) && !g.P(pInc) {
				continue
			}
			if budget <= 0 && !wanted(p) {
				continue
			}
			add(k.name, value(k, p, depth))
		}
		for g.P(g.pExtra) {
			add(pick(g.RNG, []string{"u1", "zz", "A", "~", "u2"}), g.junk(2))
		}
		// random order
		for i := len(n.names) - 1; i > 0; i-- {
			j := g.N(i + 1)
			n.names[i], n.names[j] = n.names[j], n.names[i]
			n.kids[i], n.kids[j] = n.kids[j], n.kids[i]
		}
		return n
	}
	value = func(t *trie, path string, depth int) *jnode {
		budget--
		isLeaf := t.field != nil
		if isLeaf && len(t.kids) > 0 {
			deeper := false
			for w := range want {
				deeper = deeper || strings.HasPrefix(w, path+"\n")
			}
			if deeper {
				isLeaf = g.P(0.1)
			} else if want[path] {
				isLeaf = g.P(0.9)
			} else {
				isLeaf = g.P(0.5)
			}
		}
		if pa := g.pArr; depth < 4 && (g.P(pa) || split && len(t.kids) > 0 && g.P(0.8)) {
			a := &jnode{kind: "arr"}
			n := g.N(4)
			if g.wide && g.P(0.5) {
				n = 4 + g.N(20)
			}
			if split {
				n = 2 + g.N(2)
			}
			if n == 0 && want[path] {
				n = 1
			}
			for i := 0; i < n && budget > -6; i++ {
				if g.P(0.08) {
					a.kids = append(a.kids, g.junk(1))
					continue
				}
				if g.P(0.1) {
					// a nested array
					b := &jnode{kind: "arr"}
					for j := 0; j < g.N(3); j++ {
						if isLeaf {
							b.kids = append(b.kids, g.leafFor(path, target))
						} else {
							b.kids = append(b.kids, build(t, path, depth+1))
						}
					}
					a.kids = append(a.kids, b)
					budget--
					continue
				}
				leaf := isLeaf
				if t.field != nil && len(t.kids) > 0 && g.P(0.3) {
					leaf = !leaf
				}
				if leaf {
					a.kids = append(a.kids, wrap(g.leafFor(path, target)))
					budget--
				} else {
					a.kids = append(a.kids, wrap(build(t, path, depth+1)))
				}
			}
			return a
		}
		if isLeaf && !g.P(0.04) {
			return g.leafFor(path, target)
		}
		if !isLeaf && g.P(0.04) {
			return g.leafFor(path, target)
		}
		return build(t, path, depth+1)
	}
	n := build(root, "", 0)
	return g.eventOf(n)
}

func (g *gen) eventOf(n *jnode) Event {
	var e Event
	arrays := int32(0)
	var walk func(n *jnode, path string, top bool, trail [][2]int32)
	walk = func(n *jnode, path string, top bool, trail [][2]int32) {
		switch n.kind {
		case "obj":
			for i, k := range n.kids {
				p := n.names[i]
				if !top {
					p = path + "\n" + p
				}
				walk(k, p, false, trail)
			}
		case "arr":
			id := arrays
			arrays++
			for i, k := range n.kids {
				t := append(append([][2]int32{}, trail...), [2]int32{id, int32(i)})
				walk(k, path, false, t)
			}
		default:
			e.Fields = append(e.Fields, EField{Path: path, K: n.kind, S: n.s, Trail: trail})
		}
	}
	walk(n, "", true, nil)
	ws := g.P(0.2)
	sp := func() string {
		if ws && g.P(0.4) {
			return pick(g.RNG, []string{" ", "\n", "\t", "\r\n ", "   "})
		}
		return ""
	}
	var b strings.Builder
	var text func(n *jnode)
	text = func(n *jnode) {
		switch n.kind {
		case "obj":
			b.WriteString("{" + sp())
			for i, k := range n.kids {
				if i > 0 {
					b.WriteString("," + sp())
				}
				b.WriteString(g.quote(n.names[i], g.pEsc) + sp() + ":" + sp())
				text(k)
				b.WriteString(sp())
			}
			b.WriteString("}")
		case "arr":
			b.WriteString("[" + sp())
			for i, k := range n.kids {
				if i > 0 {
					b.WriteString("," + sp())
				}
				text(k)
				b.WriteString(sp())
			}
			b.WriteString("]")
		case "str":
			b.WriteString(g.quote(n.s, g.pEsc))
		default:
			b.WriteString(n.s)
		}
	}
	b.WriteString(sp())
	text(n)
	b.WriteString(sp())
	e.Text = b.String()
	return e
}

// damage makes a broken version of an event.
func (g *gen) damage(e Event) Event {
	t := e.Text
	end := strings.LastIndexByte(t, '}')
	if g.P(0.5) && end > 0 {
		return Event{Text: t[:g.N(end+1)], Bad: 2}
	}
	b := []byte(t)
	switch g.N(8) {
	case 0:
		for i := 0; i < 1+g.N(3); i++ {
			b[g.N(len(b))] = byte(g.N(256))
		}
	case 1:
		i := g.N(len(b))
		b = append(b[:i:i], b[i+1:]...)
	case 2:
		i := g.N(len(b) + 1)
		c := pick(g.RNG, []string{"{", "}", "[", "]", "\"", "\\", ",", ":", "\\u12", "\\ud800", "1e", "-", "tru", "nul", "\xff", "\x00"})
		b = append(append(append([]byte{}, b[:i]...), c...), b[i:]...)
	case 3:
		b = []byte(pick(g.RNG, []string{"", "null", "[]", "\"x\"", "1", " ", "{", "[{\"a\":1}]", "\x00", "\xff\xfe", "<a/>"}))
	case 4:
		i, j := g.N(len(b)), g.N(len(b))
		b[i], b[j] = b[j], b[i]
	case 5:
		b = append(b, pick(g.RNG, []string{"x", "}", "{}", "]", ",", "\x00"})...)
	case 7:
		// a number with something wrong inside
		var at []int
		for i, c := range b {
			if c >= '0' && c <= '9' {
				at = append(at, i+1)
			}
		}
		if len(at) > 0 {
			i := pick(g.RNG, at)
			c := pick(g.RNG, []string{"x", "e", "ex", "e5x", ".", ".x", "+", "e+", "e-x", "_", "-", ".5.", "é"})
			b = append(append(append([]byte{}, b[:i]...), c...), b[i:]...)
		}
	case 6:
		// a string that does not end properly
		i := strings.LastIndexByte(t, '"')
		if i > 0 {
			b = b[:i]
		}
	}
	return Event{Text: string(b), Bad: 1}
}

// badPattern makes a text that is certainly not a valid pattern.
func (g *gen) badPattern() Pattern {
	good := g.pattern()
	t := good.Text
	p0 := g.quote(pick(g.RNG, g.paths[:1]), 0)
	if i := strings.IndexByte(g.paths[0], '\n'); i >= 0 {
		p0 = g.quote(g.paths[0][:i], 0)
	}
	last := pick(g.RNG, []string{
		`5`, `"x"`, `[[1]]`, `[{"exists":1}]`, `[{"exists":true},1]`, `[1,{"exists":false}]`, `[{"nope":1}]`,
		`[{"prefix":1}]`, `[{"shellstyle":7}]`, `[{"shellstyle":"a**b"}]`, `[{"wildcard":"a\\b"}]`, `[{"wildcard":"**"}]`,
		`[{"anything-but":"a"}]`, `[{"anything-but":[1]}]`, `[{"anything-but":[]}]`, `["x",{"anything-but":["a"]}]`, `[{"regexp":"a("}]`, `[{"regexp":"[a"}]`,
		`[{"regexp":"a)"}]`, `[{"regexp":"*a"}]`, `[{"regexp":"a**"}]`, `[{"regexp":"a{}"}]`, `[{"regexp":"a{2,1}"}]`, `[{"regexp":"a{1,x}"}]`, `[{"regexp":"a{1"}]`, `[{"regexp":"a{1,"}]`, `[{"regexp":"a{1;2}"}]`,
		`[{"regexp":"[]"}]`, `[{"regexp":"[b-a]"}]`, `[{"regexp":"[a-~w]"}]`, `[{"regexp":"[~w]"}]`, `[{"regexp":"[a-["}]`, `[{"regexp":"[a-"}]`, `[{"regexp":"a]"}]`, `[{"regexp":"~w"}]`, `[{"regexp":"~"}]`, `[{"regexp":"~y"}]`, `[{"regexp":"~p{Xx}"}]`, `[{"regexp":"~p{Lx}"}]`, `[{"regexp":"~P{L"}]`, `[{"regexp":"~p"}]`, `[{"regexp":"a{99999999999}"}]`, `[{"regexp":"a{1,99999999999}"}]`,
		`[{}]`, `[{"exists":true`, `[{"exists":false,"a":1}]`, `[{"prefix":"a"`, `[{"shellstyle":"a","b":1}]`, `[{"shellstyle":"a"`, `[{"shellstyle":"x**"}]`, `[{"wildcard":"a\\"}]`, `[{"wildcard":"a\\\\\\"}]`, `[{"wildcard":3}]`, `[{"wildcard":"a"`, `[{"anything-but":["a"`, `[{"anything-but":{"a":1}}]`, `[{"anything-but":["a",{}]}]`, `[{"anything-but":[["a"]]}]`, `[[]]`, `[{"exists"`, `[{`,
		`[{"regexp":5}]`, `[{"equals-ignore-case":1}]`, `[{"prefix":"a","x":1}]`, `true`, `null`, `[1`, `[1,`, `[tru]`, `{`,
	})
	switch g.N(4) {
	case 0: // cut the text off
		end := strings.LastIndexByte(t, '}')
		return Pattern{Text: t[:g.N(end+1)], Bad: true}
	case 1: // not an object
		return Pattern{Text: pick(g.RNG, []string{"", "[]", "1", "\"a\"", "nope", "{]", "}"}), Bad: true}
	case 2: // a good start, then an error in the last member
		q := g.pattern()
		end := strings.LastIndexByte(q.Text, '}')
		return Pattern{Text: q.Text[:end] + `,"zzq":` + last + "}", Bad: true}
	}
	return Pattern{Text: "{" + p0 + ":" + last + "}", Bad: true}
}

// ---- strategies

func genStrat(g *zzsim.RNG, tasks int) zzsim.Strategy {
	if tasks <= 1 {
		return zzsim.Strategy{Kind: "serial"}
	}
	var s zzsim.Strategy
	switch x := g.F(); {
	case x < 0.3:
		s = zzsim.Strategy{Kind: "random", GapLog: 2 + g.N(12)}
	case x < 0.55:
		s = zzsim.Strategy{Kind: "newsite", GapLog: 6 + g.N(12), PNew: pick(g, []float64{0.02, 0.1, 0.3, 0.6})}
	case x < 0.75:
		s = zzsim.Strategy{Kind: "target", GapLog: 8 + g.N(10), PNew: pick(g, []float64{0.3, 0.8}), Mod: pick(g, []uint64{7, 20, 60, 200})}
	case x < 0.85:
		s = zzsim.Strategy{Kind: "victim", Mod: pick(g, []uint64{30, 100, 250, 600})}
	case x < 0.96:
		s = zzsim.Strategy{Kind: "pct", Changes: 1 + g.N(6), EstLog: 8 + g.N(10)}
	default:
		s = zzsim.Strategy{Kind: "serial"}
	}
	if s.Kind != "pct" && s.Kind != "victim" && s.Kind != "serial" {
		s.PStall = pick(g, []float64{0, 0, 0.1, 0.5})
	}
	return s
}

func sortedPaths(p []string) []string {
	q := append([]string{}, p...)
	sort.Strings(q)
	return q
}

func validUTF8(s string) bool { return utf8.ValidString(s) }
