package main

// The oracles say which property a wrong result breaks from what had happened
// before it. Where that does not tell, the same program is run again, in the
// same schedule, without the suspected cause: when nothing goes wrong then, the
// cause is confirmed and the property is added to the violations.

// trying says that the current run is such a second one.
var trying bool

func hasProp(l []Violation, prop string) bool {
	for i := range l {
		if l[i].has(prop) {
			return true
		}
	}
	return false
}

type suspect struct {
	prop   string
	remove func(p *Program, op Op) (Op, bool)
}

var suspects = []suspect{
	{"C13", func(p *Program, op Op) (Op, bool) {
		// the caller hands over fresh memory and does not touch it again
		op.Scrib = 0
		return op, true
	}},
	{"C18", func(p *Program, op Op) (Op, bool) {
		return op, op.Kind != "stats" && op.Kind != "copy"
	}},
}

var causal = map[string]bool{"missing": true, "extra": true, "changed": true, "vanished": true, "came-back": true, "fresh": true, "duplicate": true, "match-error": true, "panic": true}

func (s *suspect) without(p *Program) (*Program, bool) {
	q := *p
	changed := false
	do := func(ops []Op) []Op {
		l := make([]Op, 0, len(ops))
		for _, op := range ops {
			n, keep := s.remove(p, op)
			if !keep {
				changed = true
				continue
			}
			if n != op {
				changed = true
			}
			l = append(l, n)
		}
		return l
	}
	q.Setup, q.Final = do(p.Setup), do(p.Final)
	q.Conc = nil
	for _, l := range p.Conc {
		q.Conc = append(q.Conc, do(l))
	}
	return &q, changed
}

// causes adds the properties of confirmed causes to the violations of a run.
// only restricts it to one property, unless it is empty.
func causes(p *Program, res *result, only string) {
	any := false
	for i := range res.viol {
		any = any || causal[res.viol[i].Kind]
	}
	if !any {
		return
	}
	for i := range suspects {
		s := &suspects[i]
		if only != "" && s.prop != only {
			continue
		}
		q, changed := s.without(p)
		if !changed {
			continue
		}
		trying = true
		r2 := execute(q, res.dec, true)
		trying = false
		if r2.err != nil {
			continue
		}
		clean := true
		for j := range r2.viol {
			clean = clean && !causal[r2.viol[j].Kind]
		}
		if !clean {
			continue
		}
		for j := range res.viol {
			v := &res.viol[j]
			if causal[v.Kind] && !v.has(s.prop) {
				v.Props = append(v.Props, s.prop)
			}
		}
	}
}
