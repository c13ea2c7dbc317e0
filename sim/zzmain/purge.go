package main

import (
	"fmt"

	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

// sizeRange gives the smallest and largest number of states that an instance
// holding just the given patterns has, over a few orders of adding them.
func (r *runner) sizeRange(live []*reg) (lo, hi float64) {
	rng := zzsim.NewRNG(5)
	for k := 0; k < 4; k++ {
		order := append([]*reg(nil), live...)
		switch k {
		case 1:
			for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
				order[i], order[j] = order[j], order[i]
			}
		case 2, 3:
			for i := len(order) - 1; i > 0; i-- {
				j := rng.N(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		}
		q, _ := quamina.New(quamina.WithPatternDeletion(true))
		for _, x := range order {
			if x.rec.Mode == 1 {
				_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
			} else {
				_ = q.SetMatcherBuildMode(quamina.BuiltForComfort)
			}
			_ = q.AddPattern(xval(r.p.XKind, x.x), r.p.Patterns[x.p].Text)
		}
		s := q.GetMatcherStats()["states"]
		if k == 0 || s < lo {
			lo = s
		}
		if k == 0 || s > hi {
			hi = s
		}
	}
	return
}

// purge drives rounds of adding, matching, deleting and matching on a quiet
// instance, and checks that the deleted patterns are gone from it as soon as
// the documented policy says so.
func (r *runner) purge(gi int) {
	g := &r.p.Groups[gi]
	rng := zzsim.NewRNG(zzsim.Mix(r.p.Seed, 4242, uint64(gi)))
	minAct := 1000.0
	ratio := 0.2
	if g.Ratio > 0 && quamina.ZZBridge {
		minAct = float64(g.MinAct)
		ratio = g.Ratio
	}
	var hs []*handle
	for t := range r.hs {
		hs = append(hs, r.hs[t][gi]...)
	}
	id := 3 << 20
	do := func(op Op) *Rec {
		if zzsim.Stamp() > runBudget {
			return &Rec{Err: "cut"}
		}
		id++
		op.ID = id
		op.G = gi
		h := hs[rng.N(len(hs))]
		save := r.hs[0][gi]
		r.hs[0][gi] = []*handle{h}
		r.doOp(0, &op, 0)
		r.hs[0][gi] = save
		l := r.recs[0]
		return l[len(l)-1]
	}
	e := r.p.PurgeEvent
	// what earlier traffic may have reported
	E := 0.0
	for t := range r.recs {
		for _, rec := range r.recs[t] {
			if rec.Op.G == gi && rec.Op.Kind == "match" {
				E += float64(len(rec.Res))
			}
		}
	}
	first := r.p.PurgeFirst
	next := 0
	var doomed []string
	for round := 0; round < r.p.PurgeRounds; round++ {
		k := 3 + rng.N(5)
		var xs []string
		for i := 0; i < k; i++ {
			x := fmt.Sprintf("x%d", 500+next)
			next++
			if first+next >= r.p.PurgeLast {
				next = 0
			}
			if a := do(Op{Kind: "add", X: x, P: first + next}); a.Err != "" || a.Panic != "" {
				return
			}
			xs = append(xs, x)
		}
		for n := rng.N(r.p.PurgeTraffic + 1); n > 0; n-- {
			m := do(Op{Kind: "match", E: e})
			if m.Err != "" || m.Panic != "" {
				return
			}
			E += float64(len(m.Res))
		}
		size0 := hs[0].q.GetMatcherStats()["states"]
		keep := rng.N(2)
		if r.p.PurgeAll && rng.P(0.5) {
			// nothing stays
			keep = 0
			for _, o := range r.histories() {
				if o.g != gi {
					continue
				}
				live, _ := o.settled()
				for _, l := range live {
					if !has(xs, l.x) && !has(doomed, l.x) {
						doomed = append(doomed, l.x)
					}
				}
			}
			for _, x := range doomed {
				if d := do(Op{Kind: "del", X: x}); d.Err != "" || d.Panic != "" {
					return
				}
			}
		}
		for _, x := range xs[keep:] {
			if d := do(Op{Kind: "del", X: x}); d.Err != "" || d.Panic != "" {
				return
			}
		}
		var h *hist
		for _, o := range r.histories() {
			if o.g == gi {
				h = o
			}
		}
		live, unsure := h.settled()
		if len(unsure) > 0 {
			return
		}
		_, hi := r.sizeRange(live)
		gone := func() bool { return hs[rng.N(len(hs))].q.GetMatcherStats()["states"] <= hi*1.02 }
		if size0 <= hi*1.05+3 {
			r.seen["purge-unclear"]++
			continue
		}
		F := 0.0
		f := float64(len(xs) - keep)
		calls := 0
		since := 0.0 // reports certainly made since the last rebuild
		for !gone() {
			if calls > 4000 {
				r.seen["purge-toolong"]++
				return
			}
			if E > 0 && F > ratio*E*1.02+2*f && since+F > minAct*1.02+2*f {
				r.bad("not-purged", id, fmt.Sprintf("round %d: %d of %d patterns were deleted and %d later calls, in which %.0f reports were filtered and at most %.0f made since the last rebuild, have not removed them: the instance has %v states, one with just the live patterns at most %v", round, len(xs)-keep, len(xs), calls, F, E, hs[0].q.GetMatcherStats()["states"], hi), "C10")
				return
			}
			m := do(Op{Kind: "match", E: e})
			if m.Err != "" || m.Panic != "" {
				return
			}
			calls++
			E += float64(len(m.Res))
			since += float64(len(m.Res))
			F += f
		}
		r.seen["purged"]++
		r.seen["purge-calls"] += calls
		E = 0
	}
}
