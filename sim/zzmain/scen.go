package main

import (
	"fmt"

	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

// builder makes one program.
type builder struct {
	*gen
	p    *Program
	id   int
	live []string // Xs mentioned so far
	nx   int
	base int
	fans [2]int // where the patterns of a fan begin, and how many
	hot  int    // a pattern that most Xs share, if not 0
	hotE []int  // the events that it matches
	race bool
}

func (b *builder) op(o Op) Op {
	b.id++
	o.ID = b.id
	return o
}

func (b *builder) x() string { return fmt.Sprintf("x%d", b.N(b.nx)) }

// sub gives each group its own range of Xs when apart is set.
func (b *builder) xOf(g int, apart bool) string {
	if apart {
		return fmt.Sprintf("x%d", 100*g+b.N(b.nx))
	}
	return b.x()
}

func (b *builder) goodP() int {
	if b.hot > 0 && b.P(0.7) {
		return b.hot
	}
	if b.fans[1] > 0 && b.P(0.6) {
		return b.fans[0] + b.N(b.fans[1])
	}
	for {
		i := b.N(len(b.p.Patterns))
		if !b.p.Patterns[i].Bad && i >= b.base {
			return i
		}
	}
}

func (b *builder) badP() int {
	var l []int
	for i := range b.p.Patterns {
		if b.p.Patterns[i].Bad {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return b.goodP()
	}
	return pick(b.RNG, l)
}

func (b *builder) evt(bad bool) int {
	if len(b.hotE) > 0 && !bad && b.P(0.7) {
		return b.hotE[b.N(len(b.hotE))]
	}
	for k := 0; k < 200; k++ {
		i := b.N(len(b.p.Events))
		if (b.p.Events[i].Bad != 0) == bad {
			return i
		}
	}
	return 0
}

func (b *builder) scrib() int {
	s := 0
	if b.P(0.5) {
		s |= 4
		if b.P(0.5) {
			s |= 8
		}
	}
	if b.P(0.3) {
		s |= 2
	}
	if b.P(0.25) {
		s |= 1
	}
	return s
}

func (b *builder) match(g int) Op {
	return b.op(Op{Kind: "match", G: g, E: b.evt(false), Scrib: b.scrib(), H: b.N(4)})
}

func genProgram(seed uint64, scen string) *Program {
	rng := zzsim.NewRNG(seed)
	p := &Program{Scen: scen, Seed: seed}
	big := rng.P(0.04)
	if scen == "purge" || scen == "stall" || scen == "bulk" || scen == "hot" {
		big = false
	}
	race := len(scen) > 5 && scen[:5] == "race-"
	kind := scen
	if race {
		kind = scen[5:]
		big = rng.P(0.02)
	}
	p.Big = big
	g := newGen(rng, big)
	b := &builder{gen: g, p: p, race: race}
	p.MapMode = rng.N(3)
	p.Jump = rng.P(0.3)
	p.Evict = rng.P(0.4)
	p.XKind = pick(rng, []int{0, 0, 0, 1, 2, 3, 4, 4, 5})
	b.nx = 2 + rng.N(8)
	np := 3 + rng.N(8)
	ne := 3 + rng.N(6)
	if big {
		np = 20 + rng.N(60)
		ne = 6 + rng.N(8)
		b.nx = 30
	}
	// pattern 0 is the sentinel
	p.Patterns = append(p.Patterns, Pattern{Fields: []PField{{Path: "zz_never", Vals: []Val{{K: "str", S: "never"}}}}, Text: `{"zz_never":["never"]}`})
	b.base = 1
	for i := 0; i < np; i++ {
		p.Patterns = append(p.Patterns, g.pattern())
	}
	for i := 0; i < ne; i++ {
		var t *Pattern
		if rng.P(0.8) {
			t = &p.Patterns[1+rng.N(np)]
		}
		p.Events = append(p.Events, g.event(t))
	}
	if p.Fan = rng.P(0.12); p.Fan {
		ps, e := g.fan(2 + rng.N(7))
		b.fans = [2]int{len(p.Patterns), len(ps)}
		p.Patterns = append(p.Patterns, ps...)
		p.Events = append(p.Events, e)
		p.Events[rng.N(len(p.Events))] = e
	}
	p.Tasks = 2 + rng.N(3)
	p.Probe = true
	p.Fresh = true
	if race {
		p.Fresh = false
	}
	b.fill(kind)
	p.Strat = genStrat(rng, len(p.Conc))
	if kind == "hot" && rng.P(0.6) {
		p.Strat = zzsim.Strategy{Kind: "victim", Mod: pick(rng, []uint64{30, 60, 120, 250})}
	}
	return p
}

func (b *builder) add(g int, x string, pi int) Op {
	return b.op(Op{Kind: "add", G: g, X: x, P: pi, H: b.N(4)})
}

func (b *builder) fill(kind string) {
	p, r := b.p, b.RNG
	sentinel := func(g int) {
		p.Setup = append(p.Setup, b.add(g, "x99", 0))
		p.Sentinel = true
	}
	nconc := func() int {
		if p.Big {
			return 8 + r.N(20)
		}
		return 2 + r.N(7)
	}
	mode := func(g int) Op { return b.op(Op{Kind: "mode", G: g, Mode: r.N(2), H: r.N(4)}) }
	cp := func(g int) Op { return b.op(Op{Kind: "copy", G: g, H: r.N(4)}) }
	del := func(g int, x string) Op { return b.op(Op{Kind: "del", G: g, X: x, H: r.N(4)}) }
	setupAdds := func(g, n int) {
		if r.P(0.5) {
			p.Setup = append(p.Setup, mode(g))
		}
		for i := 0; i < n; i++ {
			p.Setup = append(p.Setup, b.add(g, b.x(), b.goodP()))
			if r.P(0.15) {
				p.Setup = append(p.Setup, b.match(g))
			}
			if r.P(0.1) {
				p.Setup = append(p.Setup, mode(g))
			}
		}
	}
	lowTrigger := func(g *Group) {
		if quamina.ZZBridge && r.P(0.8) {
			g.Ratio = pick(r, []float64{0.2, 0.2, 0.05, 0.5})
			g.MinAct = int64(pick(r, []int{1, 5, 20}))
		}
	}
	if r.P(0.12) && (kind == "adds" || kind == "churn" || kind == "own" || kind == "stall" || kind == "del") {
		// many Xs on one pattern
		b.nx = max(b.nx, 12)
		if b.hot = b.goodP(); b.hot > 0 {
			for i := range p.Events {
				if matches(&p.Patterns[b.hot], &p.Events[i]) == yes {
					b.hotE = append(b.hotE, i)
				}
			}
			for i, n := 0, r.N(7); i < n; i++ {
				p.Setup = append(p.Setup, b.add(0, fmt.Sprintf("x%d", i), b.hot))
			}
		}
	}
	switch kind {
	case "adds":
		p.Groups = []Group{{MediaOpt: r.P(0.2)}}
		if r.P(0.15) {
			p.Groups[0].Flat = true
		}
		if r.P(0.3) {
			sentinel(0)
		}
		setupAdds(0, r.N(4))
		adders := 1 + r.N(p.Tasks)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, nconc(); i < n; i++ {
				switch x := r.F(); {
				case t < adders && x < 0.6:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.68:
					l = append(l, cp(0))
				case x < 0.75:
					l = append(l, mode(0))
				case x < 0.78:
					l = append(l, del(0, b.x())) // must fail
				default:
					l = append(l, b.match(0))
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "seq":
		p.Tasks = 1
		g := Group{Deletion: r.P(0.3)}
		if g.Deletion && r.P(0.6) {
			lowTrigger(&g)
		}
		p.Groups = []Group{g}
		n := 6 + r.N(25)
		if p.Big {
			n = 100
		}
		for i := 0; i < n; i++ {
			switch x := r.F(); {
			case x < 0.45:
				p.Setup = append(p.Setup, b.add(0, b.x(), b.goodP()))
			case x < 0.5:
				p.Setup = append(p.Setup, cp(0))
			case x < 0.57:
				p.Setup = append(p.Setup, mode(0))
			case x < 0.63 && g.Deletion || x < 0.59:
				p.Setup = append(p.Setup, del(0, b.x()))
			default:
				p.Setup = append(p.Setup, b.match(0))
			}
		}
	case "del", "churn":
		g := Group{Deletion: true}
		lowTrigger(&g)
		p.Groups = []Group{g}
		if r.P(0.2) {
			sentinel(0)
		}
		setupAdds(0, 1+r.N(6))
		for i := r.N(3); i > 0; i-- {
			p.Setup = append(p.Setup, del(0, b.x()))
			if r.P(0.5) {
				p.Setup = append(p.Setup, b.match(0))
			}
		}
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			roleAdd, roleDel := r.P(0.5), r.P(0.6)
			for i, n := 0, nconc(); i < n; i++ {
				switch x := r.F(); {
				case x < 0.3 && roleAdd:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.55 && roleDel:
					xx := b.x()
					l = append(l, del(0, xx))
					if r.P(0.4) {
						l = append(l, b.match(0))
					}
					if r.P(0.35) {
						l = append(l, b.add(0, xx, b.goodP()))
					}
				case x < 0.6:
					l = append(l, cp(0))
				case x < 0.64:
					l = append(l, mode(0))
				default:
					m := b.match(0)
					if kind == "churn" && r.P(0.4) {
						m.N = 2 + r.N(10)
					}
					l = append(l, m)
				}
			}
			p.Conc = append(p.Conc, l)
		}
		for i := r.N(4); i > 0; i-- {
			if r.P(0.5) {
				p.Final = append(p.Final, del(0, b.x()))
			} else {
				p.Final = append(p.Final, b.add(0, b.x(), b.goodP()))
			}
		}
	case "policy":
		// rebuilds by the default policy, through the public interface only
		p.Groups = []Group{{Deletion: true}}
		b.crowd(24)
		e := len(p.Events) - 1
		first := len(p.Patterns) - 24
		for i := 0; i < 24; i++ {
			p.Setup = append(p.Setup, b.add(0, fmt.Sprintf("x%d", 200+i), first+i))
		}
		k := 8 + r.N(12)
		for i := 0; i < k; i++ {
			p.Setup = append(p.Setup, del(0, fmt.Sprintf("x%d", 200+i)))
		}
		// just short of the threshold, so that the rebuild falls into the concurrent phase
		p.Setup = append(p.Setup, b.op(Op{Kind: "match", E: e, N: 40 - r.N(3)}))
		p.Tasks = 2 + r.N(2)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 2+r.N(5); i < n; i++ {
				switch x := r.F(); {
				case x < 0.3:
					l = append(l, b.add(0, fmt.Sprintf("x%d", 200+r.N(30)), first+r.N(24)))
				case x < 0.5:
					l = append(l, del(0, fmt.Sprintf("x%d", 200+r.N(24))))
				default:
					l = append(l, b.op(Op{Kind: "match", E: e, N: 1 + r.N(3), H: r.N(3)}))
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "purge":
		p.Tasks = 1 + r.N(2)
		g := Group{Deletion: true}
		if quamina.ZZBridge && r.P(0.6) {
			g.Ratio = 0.2
			g.MinAct = int64(pick(r, []int{20, 60, 150}))
		}
		p.Groups = []Group{g}
		setupAdds(0, r.N(4))
		n := 60
		b.crowd(n)
		p.PurgeEvent = len(p.Events) - 1
		p.PurgeFirst = len(p.Patterns) - n
		p.PurgeLast = len(p.Patterns) - 1
		p.PurgeRounds = 2 + r.N(3)
		p.PurgeAll = r.P(0.4)
		p.PurgeTraffic = 12
		if g.Ratio == 0 {
			p.PurgeTraffic = 60
		}
		p.Purge = true
		p.Fresh = false
		p.Probe = false
		// a pattern that stays and keeps being reported
		p.Setup = append(p.Setup, b.add(0, "x98", p.PurgeFirst))
		if p.Tasks > 1 {
			for t := 0; t < p.Tasks; t++ {
				var l []Op
				for i, n := 0, 2+r.N(5); i < n; i++ {
					switch x := r.F(); {
					case x < 0.3:
						l = append(l, b.add(0, b.x(), b.goodP()))
					case x < 0.5:
						l = append(l, del(0, b.x()))
					default:
						l = append(l, b.match(0))
					}
				}
				p.Conc = append(p.Conc, l)
			}
		} else if r.P(0.5) {
			p.Setup = append(p.Setup, cp(0))
		}
	case "multi":
		n := 2
		for i := 0; i < n; i++ {
			g := Group{Deletion: r.P(0.3), Flat: r.P(0.1)}
			if g.Deletion {
				lowTrigger(&g)
			}
			p.Groups = append(p.Groups, g)
			if r.P(0.2) {
				sentinel(i)
			}
			for k := r.N(4); k > 0; k-- {
				p.Setup = append(p.Setup, b.add(i, b.xOf(i, true), b.goodP()))
			}
		}
		p.Tasks = 2 + r.N(3)
		shared := r.P(0.3)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, nconc(); i < n; i++ {
				gi := t % 2
				if shared {
					gi = r.N(2)
				}
				switch x := r.F(); {
				case x < 0.45:
					l = append(l, b.add(gi, b.xOf(gi, true), b.goodP()))
				case x < 0.5:
					l = append(l, mode(gi))
				case x < 0.55:
					l = append(l, cp(gi))
				case x < 0.65 && p.Groups[gi].Deletion:
					l = append(l, del(gi, b.xOf(gi, true)))
				case x < 0.72 && !b.race:
					// an error on one instance must not show on the other
					if r.P(0.5) {
						l = append(l, b.add(gi, b.xOf(gi, true), b.badPat()))
					} else {
						l = append(l, b.op(Op{Kind: "match", G: gi, E: b.badEvt()}))
					}
				default:
					l = append(l, b.match(gi))
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "badadd":
		g := Group{Deletion: r.P(0.25)}
		p.Groups = []Group{g}
		for i := 0; i < 3+r.N(4); i++ {
			p.Patterns = append(p.Patterns, b.badPattern())
		}
		setupAdds(0, r.N(4))
		bx := func() string {
			if r.P(0.5) {
				return b.x()
			}
			return "x77"
		}
		if r.P(0.4) {
			p.Setup = append(p.Setup, b.add(0, bx(), b.badP()))
		}
		p.Tasks = 1 + r.N(3)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, nconc(); i < n; i++ {
				switch x := r.F(); {
				case x < 0.35:
					pi := b.badP()
					l = append(l, b.add(0, bx(), pi))
					for r.P(0.3) { // again
						l = append(l, b.add(0, bx(), pi))
					}
				case x < 0.6:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.65:
					l = append(l, mode(0))
				case x < 0.7 && !g.Deletion:
					l = append(l, del(0, b.x()))
				default:
					l = append(l, b.match(0))
				}
			}
			p.Conc = append(p.Conc, l)
		}
		p.Final = append(p.Final, b.add(0, bx(), b.badP()), b.add(0, b.x(), b.goodP()))
	case "badev":
		g := Group{Deletion: r.P(0.25)}
		p.Groups = []Group{g}
		if r.P(0.6) {
			sentinel(0)
		}
		n := len(p.Events)
		for i := 0; i < 4+r.N(5); i++ {
			p.Events = append(p.Events, b.damage(p.Events[r.N(n)]))
		}
		setupAdds(0, 1+r.N(4))
		p.Tasks = 1 + r.N(3)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 3+nconc(); i < n; i++ {
				switch x := r.F(); {
				case x < 0.45:
					l = append(l, b.op(Op{Kind: "match", E: b.evt(true), Scrib: b.scrib() &^ 1, H: r.N(3)}))
				case x < 0.55:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.6:
					l = append(l, cp(0))
				default:
					l = append(l, b.match(0))
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "flat":
		p.Groups = []Group{{Flat: true, Deletion: r.P(0.25)}}
		if r.P(0.2) {
			p.Groups = append(p.Groups, Group{Flat: r.P(0.7)})
		}
		for i := 0; i < r.N(3); i++ {
			p.Events = append(p.Events, b.damage(p.Events[0]))
		}
		for gi := range p.Groups {
			setupAdds(gi, 1+r.N(4))
		}
		if r.P(0.4) {
			p.Setup = append(p.Setup, cp(0))
		}
		p.Tasks = 1 + r.N(4)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 3+nconc(); i < n; i++ {
				gi := r.N(len(p.Groups))
				switch x := r.F(); {
				case x < 0.25:
					m := b.match(gi)
					m.Fault = pick(r, []string{"flat-err", "flat-part", "flat-panic"})
					m.Scrib &^= 1
					if !p.Groups[gi].Flat {
						m.Fault = ""
					}
					l = append(l, m)
				case x < 0.35:
					l = append(l, b.add(gi, b.x(), b.goodP()))
				case x < 0.5:
					l = append(l, cp(gi))
				case x < 0.55:
					l = append(l, b.op(Op{Kind: "match", G: gi, E: r.N(len(p.Events)), H: r.N(3)}))
				default:
					l = append(l, b.match(gi))
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "store":
		g := Group{Deletion: true, Store: true}
		if r.P(0.7) {
			g.Ratio = pick(r, []float64{0.2, 0.05})
			g.MinAct = int64(pick(r, []int{1, 5, 20}))
		}
		p.Groups = []Group{g}
		p.Tasks = 1 + r.N(3)
		setupAdds(0, r.N(4))
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 3+nconc(); i < n; i++ {
				faulty := r.P(0.35)
				var o Op
				switch x := r.F(); {
				case x < 0.35:
					o = b.add(0, b.x(), b.goodP())
					if faulty {
						o.Fault = pick(r, []string{"store-add-before", "store-add-after"})
					}
				case x < 0.55:
					o = del(0, b.x())
					if faulty {
						o.Fault = pick(r, []string{"store-del-before", "store-del-after", "store-iter"})
					}
				default:
					o = b.match(0)
					if faulty {
						o.Fault = pick(r, []string{"store-contains", "store-contains", "store-iter"})
						o.FaultN = r.N(3)
						o.Scrib &^= 1
					}
				}
				l = append(l, o)
			}
			p.Conc = append(p.Conc, l)
		}
		for i := r.N(3); i > 0; i-- {
			p.Final = append(p.Final, b.match(0))
		}
	case "stall":
		// one task stops for good in the middle of an operation; the others must get through
		g := Group{Deletion: r.P(0.25)}
		if g.Deletion {
			lowTrigger(&g)
		}
		p.Groups = []Group{g}
		setupAdds(0, r.N(5))
		p.Tasks = 2 + r.N(3)
		held := r.P(0.7)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 2+r.N(5); i < n; i++ {
				if t == 0 {
					o := b.add(0, b.x(), b.goodP())
					if !held && r.P(0.4) {
						o = b.match(0)
					}
					l = append(l, o)
					continue
				}
				switch x := r.F(); {
				case x < 0.25 && !held:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.32 && !held && g.Deletion:
					l = append(l, del(0, b.x()))
				case x < 0.4:
					l = append(l, cp(0))
				default:
					l = append(l, b.match(0))
				}
			}
			if t == 0 {
				k := r.N(len(l))
				l[k].Freeze = uint64(1 + r.N(1<<uint(2+r.N(13))))
				l[k].Held = held
			}
			p.Conc = append(p.Conc, l)
		}
	case "own":
		g := Group{Deletion: r.P(0.4)}
		if g.Deletion && r.P(0.5) {
			lowTrigger(&g)
		}
		p.Groups = []Group{g}
		setupAdds(0, 2+r.N(6))
		p.Tasks = 1 + r.N(3)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 4+nconc(); i < n; i++ {
				switch x := r.F(); {
				case x < 0.15:
					l = append(l, b.add(0, b.x(), b.goodP()))
				case x < 0.22 && g.Deletion:
					l = append(l, del(0, b.x()))
				case x < 0.28:
					l = append(l, cp(0))
				default:
					m := b.match(0)
					m.Scrib = r.N(16)
					l = append(l, m)
				}
			}
			p.Conc = append(p.Conc, l)
		}
	case "hot":
		b.hot0()
	case "bulk":
		b.bulk()
	case "ro":
		g := Group{Deletion: r.P(0.2)}
		p.Groups = []Group{g}
		p.Twin = true
		setupAdds(0, 1+r.N(6))
		stats := func() Op { return b.op(Op{Kind: "stats", H: r.N(4)}) }
		p.Setup = append(p.Setup, stats())
		for e := range p.Events {
			p.Setup = append(p.Setup, b.op(Op{Kind: "match", E: e}))
		}
		p.Setup = append(p.Setup, stats())
		p.Tasks = 1 + r.N(4)
		for t := 0; t < p.Tasks; t++ {
			var l []Op
			for i, n := 0, 3+nconc(); i < n; i++ {
				switch x := r.F(); {
				case x < 0.25:
					l = append(l, stats())
				case x < 0.45:
					l = append(l, cp(0))
				case x < 0.5:
					l = append(l, mode(0))
				default:
					m := b.match(0)
					m.Scrib = r.N(16)
					l = append(l, m)
				}
			}
			p.Conc = append(p.Conc, l)
		}
		if r.P(0.5) {
			p.Final = append(p.Final, b.op(Op{Kind: "mode", Mode: r.N(2)}), b.add(0, b.x(), b.goodP()), stats())
			for i := r.N(4); i > 0; i-- {
				p.Final = append(p.Final, b.match(0), stats(), b.add(0, b.x(), b.goodP()), stats())
			}
		}
	default:
		panic("unknown scenario " + kind)
	}
}

func (b *builder) badPat() int {
	b.p.Patterns = append(b.p.Patterns, b.badPattern())
	return len(b.p.Patterns) - 1
}

func (b *builder) badEvt() int {
	b.p.Events = append(b.p.Events, b.damage(b.p.Events[b.N(3)]))
	return len(b.p.Events) - 1
}

// crowd adds n patterns that all match one event, on values of their own.
func (b *builder) crowd(n int) {
	ev := Event{}
	text := "{"
	for i := 0; i < n; i++ {
		path := fmt.Sprintf("q%02d", i)
		v := fmt.Sprintf("v%d%s", i, b.vocab[0])
		if i > 0 {
			text += ","
		}
		text += b.quote(path, 0) + ":" + b.quote(v, 0)
		ev.Fields = append(ev.Fields, EField{Path: path, K: "str", S: v})
		f := PField{Path: path}
		switch b.N(4) {
		case 0:
			f.Vals = []Val{{K: "pre", S: fmt.Sprintf("v%d", i)}}
		case 1:
			f.Vals = []Val{{K: "str", S: "other"}, {K: "str", S: v}}
		default:
			f.Vals = []Val{{K: "str", S: v}}
		}
		p := Pattern{Fields: []PField{f}}
		p.Text = b.patternText(&p)
		b.p.Patterns = append(b.p.Patterns, p)
	}
	ev.Text = text + "}"
	b.p.Events = append(b.p.Events, ev)
}
