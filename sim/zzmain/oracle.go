package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

const inf = math.MaxUint64

// reg is one AddPattern call.
type reg struct {
	x        string
	p        int
	rec      *Rec
	inv, end uint64
	failed   bool // an error was returned and nothing excuses partial effect
	maybe    bool // an error was returned after an injected storage fault
	order    int
}

type delOp struct {
	x        string
	rec      *Rec
	inv, end uint64
	maybe    bool
}

// hist is the recorded history of one instance.
type hist struct {
	g       int
	all     []*Rec // by invocation
	regs    []*reg
	dels    []*delOp
	byX     map[string][]*reg
	delX    map[string][]*delOp
	matches []*Rec
	stats   []*Rec
	muts    []*Rec // adds and deletes
}

func (r *runner) modelOf(p, e int) int {
	k := p*len(r.p.Events) + e
	if r.mcache == nil {
		r.mcache = make([]int8, len(r.p.Patterns)*len(r.p.Events))
	}
	if r.mcache[k] == 0 {
		r.mcache[k] = int8(1 + matches(&r.p.Patterns[p], &r.p.Events[e]))
	}
	return int(r.mcache[k]) - 1
}

func (r *runner) histories() []*hist {
	var hs []*hist
	for g := range r.p.Groups {
		h := &hist{g: g, byX: map[string][]*reg{}, delX: map[string][]*delOp{}}
		for t := range r.recs {
			for _, rec := range r.recs[t] {
				if rec.Op.G == g {
					h.all = append(h.all, rec)
				}
			}
		}
		sort.SliceStable(h.all, func(i, j int) bool { return h.all[i].Inv < h.all[j].Inv })
		for _, rec := range h.all {
			end := rec.Resp
			if !rec.Done {
				end = inf
			}
			switch rec.Op.Kind {
			case "add":
				x := &reg{x: rec.Op.X, p: rec.Op.P, rec: rec, inv: rec.Inv, end: end, order: len(h.regs)}
				if rec.Err != "" || rec.Panic != "" {
					if rec.FaultHit || rec.Panic != "" {
						// it may take effect at any later time, or never
						x.maybe = true
					} else {
						x.failed = true
					}
				}
				h.regs = append(h.regs, x)
				h.byX[x.x] = append(h.byX[x.x], x)
				h.muts = append(h.muts, rec)
			case "del":
				if !r.p.Groups[g].Deletion && rec.Err != "" {
					break // refused, and so without any effect
				}
				d := &delOp{x: rec.Op.X, rec: rec, inv: rec.Inv, end: end}
				if rec.Err != "" || rec.Panic != "" {
					d.maybe = true
				}
				h.dels = append(h.dels, d)
				h.delX[d.x] = append(h.delX[d.x], d)
				h.muts = append(h.muts, rec)
			case "match":
				h.matches = append(h.matches, rec)
			case "stats":
				h.stats = append(h.stats, rec)
			}
		}
		hs = append(hs, h)
	}
	return hs
}

// definite says whether the pattern was certainly live all through [inv, resp].
func (h *hist) definite(x *reg, inv, resp uint64) bool {
	if x.failed || x.maybe || x.end >= inv {
		return false
	}
	for _, d := range h.delX[x.x] {
		if d.inv < resp && d.end > x.inv {
			return false
		}
	}
	return true
}

// possible says whether the pattern may have been live at some time in [inv, resp].
func (h *hist) possible(x *reg, inv, resp uint64) bool {
	if x.failed || x.inv >= resp {
		return false
	}
	for _, d := range h.delX[x.x] {
		if !d.maybe && d.inv > x.end && d.end < inv {
			return false
		}
	}
	return true
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func uniq(l []string) []string {
	var out []string
	for _, x := range l {
		if !has(out, x) {
			out = append(out, x)
		}
	}
	return out
}

func setKey(l []string) string {
	m := append([]string(nil), l...)
	sort.Strings(m)
	return strings.Join(m, " ")
}

// context describes what else had happened on the instance before a step.
type context struct {
	badAdd, badEvent, flatFault, storeFault, del, addInProgress, multi bool
}

func (r *runner) contextAt(h *hist, inv, resp uint64) context {
	var c context
	c.multi = len(r.p.Groups) > 1
	for _, rec := range h.all {
		if rec.Inv >= resp {
			break
		}
		switch rec.Op.Kind {
		case "add":
			if rec.Err != "" && !rec.FaultHit {
				c.badAdd = true
			}
			if !rec.Done || rec.Resp > inv {
				c.addInProgress = true
			}
		case "del":
			c.del = true
		case "match":
			if r.p.Events[rec.Op.E].Bad != 0 {
				c.badEvent = true
			}
			if rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "flat") {
				c.flatFault = true
			}
		}
		if rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "store") {
			c.storeFault = true
		}
	}
	return c
}

func (r *runner) extraProps(h *hist, c context) []string {
	var p []string
	g := &r.p.Groups[h.g]
	if c.badAdd {
		p = append(p, "C05")
	}
	if c.badEvent || c.flatFault {
		p = append(p, "C14")
	}
	if c.flatFault && g.Flat {
		p = append(p, "C19")
	}
	if c.storeFault {
		p = append(p, "C17")
	}
	if c.multi {
		p = append(p, "C11")
	}
	return p
}

// soloOK says whether a fresh instance that holds just the given patterns
// reports the event as the model says it should.
func (r *runner) solo(h *hist, regs []*reg, e int, del bool) ([]string, bool) {
	var res []string
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		var q *quamina.Quamina
		if del {
			q, _ = quamina.New(quamina.WithPatternDeletion(true))
		} else {
			q, _ = quamina.New()
		}
		for _, x := range regs {
			if q.AddPattern(x.x, r.p.Patterns[x.p].Text) != nil {
				ok = false
			}
		}
		xs, err := q.MatchesForEvent([]byte(r.p.Events[e].Text))
		if err != nil {
			ok = false
		}
		for _, x := range xs {
			res = append(res, xname(r.p.XKind, x))
		}
	}()
	return res, ok
}

func (r *runner) describeReg(x *reg) string {
	return fmt.Sprintf("AddPattern(%s, %s) [op %d]", x.x, r.p.Patterns[x.p].Text, x.rec.Op.ID)
}

func (r *runner) judge() {
	hs := r.histories()
	r.hists = hs
	for _, h := range hs {
		r.judgeOps(h)
		r.judgeMatches(h)
		r.judgeFlicker(h)
		r.judgeReadOnly(h)
		if r.phase == 2 {
			r.judgeAmbiguous(h)
			if r.p.Fresh {
				r.judgeFresh(h)
			}
			if r.p.Twin {
				r.judgeTwin(h)
			}
		}
	}
	r.judgeOwnership()
	r.judgeVerdicts(hs)
	for _, w := range zzsim.Waiters {
		r.judgeWaiter(w[0], w[1])
	}
}

// judgeVerdicts: a text that was rejected is not accepted later.
func (r *runner) judgeVerdicts(hs []*hist) {
	type verdict struct{ g, p int }
	rejected := map[verdict]*Rec{}
	each := func(fn func(*Rec)) {
		for _, h := range hs {
			for _, rec := range h.all {
				if rec.Op.Kind == "add" && rec.Done && rec.Panic == "" && !rec.FaultHit {
					fn(rec)
				}
			}
		}
	}
	each(func(rec *Rec) {
		k := verdict{rec.Op.G, rec.Op.P}
		if rec.Err != "" && (rejected[k] == nil || rec.Resp < rejected[k].Resp) {
			rejected[k] = rec
		}
	})
	each(func(rec *Rec) {
		if rec.Err != "" {
			return
		}
		for g := range r.p.Groups {
			if e := rejected[verdict{g, rec.Op.P}]; e != nil && e.Resp < rec.Inv {
				prop := "C05"
				if g != rec.Op.G {
					prop = "C11"
				}
				r.bad("accepted-later", rec.Op.ID, fmt.Sprintf("AddPattern of %s succeeded after AddPattern of the same text had failed (op %d): %s", r.p.Patterns[rec.Op.P].Text, e.Op.ID, e.Err), prop)
				return
			}
		}
	})
}

func (r *runner) judgeWaiter(task, op int) {
	if task >= len(r.recs) {
		return // a goroutine of the library
	}
	for _, rec := range r.recs[task] {
		if rec.Op.ID != op {
			continue
		}
		g := &r.p.Groups[rec.Op.G]
		var frozen *Op
		for t := range r.recs {
			for _, o := range r.recs[t] {
				if o.Op.Freeze > 0 {
					frozen = o.Op
				}
			}
		}
		if frozen == nil {
			return
		}
		where := zzsim.SiteName(zzsim.FrozenSite())
		if frozen.G != rec.Op.G {
			if frozen.Held {
				r.bad("blocked", op, fmt.Sprintf("%s on one instance waits for a %s stopped at %s on another instance", rec.Op.Kind, frozen.Kind, where), "C11", "C15")
				return
			}
		}
		if frozen.Held {
			if !g.Deletion && rec.Op.Kind == "match" && frozen.Kind == "add" {
				r.bad("blocked", op, fmt.Sprintf("MatchesForEvent waits for an AddPattern of another copy stopped at %s", where), "C15")
			}
			return
		}
		r.bad("blocked", op, fmt.Sprintf("%s waits for a %s of another caller stopped at %s, outside the library's locks", rec.Op.Kind, frozen.Kind, where), "C15")
		return
	}
}

// sentinel says whether the pattern that keeps the flattener from stopping early was live.
func (r *runner) sentinel(h *hist, m *Rec) bool {
	for _, x := range h.regs {
		if x.p == 0 && h.definite(x, m.Inv, m.Resp) {
			return true
		}
	}
	return false
}

func (r *runner) judgeOps(h *hist) {
	g := &r.p.Groups[h.g]
	for _, rec := range h.all {
		op := rec.Op
		c := r.contextAt(h, rec.Inv, rec.Resp)
		if rec.Misuse != "" {
			props := []string{"C19"}
			if op.Kind == "stats" {
				props = []string{"C18"}
			}
			r.bad("misuse", op.ID, rec.Misuse, props...)
		}
		if rec.Panic != "" {
			if rec.Panic == panicFlat && op.Fault == "flat-panic" {
				continue
			}
			props := r.extraProps(h, c)
			switch op.Kind {
			case "match":
				if r.p.Events[op.E].Bad != 0 {
					props = append(props, "C14")
				} else {
					props = append(props, "C01")
				}
			case "add":
				if r.p.Patterns[op.P].Bad {
					props = append(props, "C05")
				} else {
					props = append(props, "C03")
				}
			case "stats", "copy":
				props = append(props, "C18")
			case "del":
				props = append(props, "C06")
			}
			if g.Deletion {
				props = append(props, "C09")
			}
			if strings.Contains(rec.Panic, panicFlat) || strings.Contains(rec.Panic, "zz:") {
				props = append(props, "C19")
			}
			props = append(props, "C15")
			r.bad("panic", op.ID, fmt.Sprintf("%s panicked: %s at %s", op.Kind, rec.Panic, rec.Stack), uniq(props)...)
			continue
		}
		if !rec.Done {
			continue
		}
		switch op.Kind {
		case "add":
			if rec.Err != "" && !rec.FaultHit && !r.p.Patterns[op.P].Bad {
				props := r.extraProps(h, c)
				if len(props) == 0 || rec.Phase == 1 {
					props = append(props, "C03")
				}
				r.bad("add-error", op.ID, fmt.Sprintf("AddPattern of the valid pattern %s failed: %s", r.p.Patterns[op.P].Text, rec.Err), props...)
			}
			if rec.FaultHit && rec.Err == "" && strings.HasPrefix(op.Fault, "store-add") {
				r.bad("swallowed", op.ID, "AddPattern returned no error although the storage's Add failed", "C17")
			}
		case "del":
			if g.Deletion && rec.Err != "" && !rec.FaultHit {
				r.bad("del-error", op.ID, "DeletePatterns failed: "+rec.Err, append(r.extraProps(h, c), "C06")...)
			}
			if !g.Deletion && rec.Err == "" {
				r.bad("del-accepted", op.ID, "DeletePatterns returned no error on an instance without pattern deletion", "C06")
			}
			if rec.FaultHit && rec.Err == "" && strings.HasPrefix(op.Fault, "store-del") {
				r.bad("swallowed", op.ID, "DeletePatterns returned no error although the storage's Delete failed", "C17")
			}
		case "match":
			if rec.BufBad {
				r.bad("event-changed", op.ID, "the event bytes were modified", "C13")
			}
			if rec.Err != "" && len(rec.Res) > 0 {
				r.bad("error-and-matches", op.ID, fmt.Sprintf("matches %v were returned with error %q", rec.Res, rec.Err), "C14")
			}
			if rec.FaultHit && rec.Err == "" {
				switch {
				case strings.HasPrefix(op.Fault, "flat"):
					r.bad("swallowed", op.ID, fmt.Sprintf("the flattener failed but MatchesForEvent returned no error and %v", rec.Res), "C14", "C19")
				}
			}
			if rec.FaultHit && strings.HasPrefix(op.Fault, "flat") && rec.Err != "" && rec.Err != errFlat.Error() && !strings.Contains(rec.Err, errFlat.Error()) {
				r.bad("wrong-error", op.ID, fmt.Sprintf("the flattener's error came back as %q", rec.Err), "C14", "C19")
			}
			if g.Flat && !rec.FaultHit && strings.Contains(rec.Err, "zz:") {
				r.bad("foreign-error", op.ID, "an error of another copy's flattener was returned", "C19", "C14")
			}
			if r.p.Events[op.E].Bad == 2 && !g.Flat && rec.Err == "" && r.p.Sentinel && r.sentinel(h, rec) {
				r.bad("no-error", op.ID, fmt.Sprintf("the truncated event %q was accepted without error", r.p.Events[op.E].Text), "C14")
			}
		}
	}
}

func (r *runner) judgeMatches(h *hist) {
	g := &r.p.Groups[h.g]
	for _, m := range h.matches {
		if !m.Done || m.Panic != "" || m.FaultHit && m.Err != "" {
			continue
		}
		ev := &r.p.Events[m.Op.E]
		if m.Err != "" && (ev.Bad != 0) {
			continue
		}
		var required []*reg
		reqX := map[string]bool{}
		for _, x := range h.regs {
			if x.inv > m.Inv {
				break
			}
			if ev.Bad == 0 && !reqX[x.x] && h.definite(x, m.Inv, m.Resp) && r.modelOf(x.p, m.Op.E) == yes {
				reqX[x.x] = true
				required = append(required, x)
			}
		}
		var c context
		haveC := false
		ctx := func() context {
			if !haveC {
				c = r.contextAt(h, m.Inv, m.Resp)
				haveC = true
			}
			return c
		}
		if m.Err != "" {
			props := r.extraProps(h, ctx())
			props = append(props, "C01")
			if g.Deletion {
				props = append(props, "C09")
			}
			r.bad("match-error", m.Op.ID, fmt.Sprintf("MatchesForEvent of the valid event %s failed: %s", ev.Text, m.Err), uniq(props)...)
			continue
		}
		got := map[string]bool{}
		for _, x := range m.Res {
			if got[x] {
				r.bad("duplicate", m.Op.ID, fmt.Sprintf("%s is reported more than once for %s: %v", x, ev.Text, m.Res), "C02")
				break
			}
			got[x] = true
		}
		if len(required) > 0 {
			r.seen["required"]++
		}
		for _, x := range required {
			if got[x.x] {
				continue
			}
			c := ctx()
			props := []string{"C01"}
			ex := r.extraProps(h, c)
			if len(ex) > 0 || len(h.dels) > 0 {
				// would the pattern have been reported without the rest?
				live := r.liveRegs(h, m)
				if res, ok := r.solo(h, live, m.Op.E, false); ok && has(res, x.x) {
					props = append(props, ex...)
				}
			}
			if r.addRace(h, x) {
				props = append(props, "C03")
			}
			if g.Deletion {
				for _, d := range h.dels {
					if d.x != x.x && d.inv < m.Resp {
						props = append(props, "C08")
						break
					}
				}
				for _, d := range h.dels {
					if d.inv < m.Resp {
						props = append(props, "C09")
						break
					}
				}
				for _, d := range h.delX[x.x] {
					if d.inv < m.Resp {
						props = append(props, "C07")
						break
					}
				}
			}
			if m.FaultHit {
				props = append(props, "C17")
			}
			r.bad("missing", m.Op.ID, fmt.Sprintf("%s was not reported for %s, which matches %s; reported %v", x.x, ev.Text, r.describeReg(x), m.Res), uniq(props)...)
		}
		for _, x := range uniq(m.Res) {
			if reqX[x] {
				continue
			}
			allowed, anyLive, deadMatch, failedReg, deadReg := false, false, false, false, false
			for _, rg := range h.byX[x] {
				lvl := either
				if ev.Bad == 0 {
					lvl = r.modelOf(rg.p, m.Op.E)
				}
				pos := h.possible(rg, m.Inv, m.Resp)
				if pos {
					anyLive = true
					if lvl >= either {
						allowed = true
						break
					}
				}
				if rg.failed {
					failedReg = true
				} else if !pos && rg.inv < m.Resp {
					deadReg = true
					if lvl >= either {
						deadMatch = true
					}
				}
			}
			if allowed {
				continue
			}
			c := ctx()
			var props []string
			switch {
			case x == junkX:
				props = []string{"C13", "C02"}
			case deadReg && !anyLive:
				props = []string{"C06", "C09"}
			case deadMatch && anyLive:
				props = []string{"C07", "C09"}
			default:
				props = []string{"C02"}
			}
			if failedReg {
				props = append(props, "C05")
			}
			for _, o := range r.hists {
				if o.g == h.g {
					continue
				}
				for _, rg := range o.byX[x] {
					if rg.inv < m.Resp && r.modelOf(rg.p, m.Op.E) >= either {
						props = append(props, "C11")
					}
				}
			}
			ex := r.extraProps(h, c)
			if len(ex) > 0 {
				if res, ok := r.solo(h, r.liveRegs(h, m), m.Op.E, false); ok && !has(res, x) {
					props = append(props, ex...)
				}
			}
			if m.FaultHit {
				props = append(props, "C17")
			}
			if len(h.byX[x]) > 0 && r.addRace(h, h.byX[x][0]) && !c.addInProgress {
				props = append(props, "C03")
			}
			why := "no pattern added under it matches"
			if deadMatch {
				why = "its only matching patterns had been deleted"
			}
			if ev.Bad != 0 {
				why = "none of its patterns can have been live"
			}
			r.bad("extra", m.Op.ID, fmt.Sprintf("%s was reported for %s although %s (patterns of %s: %s); reported %v", x, ev.Text, why, x, r.patsOf(h, x), m.Res), uniq(props)...)
		}
	}
}

func (r *runner) patsOf(h *hist, x string) string {
	var l []string
	for _, rg := range h.byX[x] {
		l = append(l, r.p.Patterns[rg.p].Text)
	}
	return strings.Join(l, " ; ")
}

// liveRegs lists the patterns that are live for certain at match m.
func (r *runner) liveRegs(h *hist, m *Rec) []*reg {
	var l []*reg
	for _, x := range h.regs {
		if h.definite(x, m.Inv, m.Resp) {
			l = append(l, x)
		}
	}
	return l
}

// addRace says whether the AddPattern call overlapped another one.
func (r *runner) addRace(h *hist, x *reg) bool {
	for _, y := range h.regs {
		if y != x && y.rec.Task != x.rec.Task && y.inv < x.end && x.inv < y.end {
			return true
		}
	}
	// or it was made in a phase in which others were adding
	if x.rec.Phase == 1 {
		for _, y := range h.regs {
			if y.rec.Phase == 1 && y.rec.Task != x.rec.Task {
				return true
			}
		}
	}
	return false
}

func (h *hist) quiet(inv, resp uint64) bool {
	for _, m := range h.muts {
		end := m.Resp
		if !m.Done {
			end = inf
		}
		if m.Inv < resp && end > inv {
			return false
		}
	}
	return true
}

// judgeFlicker checks that what one caller has seen, later callers see too.
func (r *runner) judgeFlicker(h *hist) {
	g := &r.p.Groups[h.g]
	byE := map[int][]*Rec{}
	for _, m := range h.matches {
		if m.Done && m.Panic == "" && m.Err == "" && r.p.Events[m.Op.E].Bad == 0 {
			byE[m.Op.E] = append(byE[m.Op.E], m)
		}
	}
	keys := make([]int, 0, len(byE))
	for e := range byE {
		keys = append(keys, e)
	}
	sort.Ints(keys)
	for _, e := range keys {
		ms := byE[e]
		if len(ms) > 400 {
			ms = ms[:400]
		}
		reported := 0
		for i, a := range ms {
			for _, b := range ms[i+1:] {
				if b.Inv < a.Resp || reported > 3 {
					continue
				}
				for _, x := range uniq(a.Res) {
					if has(b.Res, x) {
						continue
					}
					sure := false
					for _, rg := range h.byX[x] {
						sure = sure || r.modelOf(rg.p, e) == yes && rg.inv < a.Resp
					}
					if !sure {
						continue
					}
					why := false
					for _, d := range h.delX[x] {
						if d.inv < b.Resp && (d.end > a.Inv || d.maybe) {
							why = true
						}
					}
					if why {
						continue
					}
					props := []string{"C16"}
					if r.anyMaybe(h, x) {
						props = append(props, "C17")
					}
					if g.Deletion && len(h.dels) > 0 {
						props = append(props, "C09")
					}
					reported++
					r.bad("vanished", b.Op.ID, fmt.Sprintf("%s was reported for %s by op %d of task %d but not by the later op %d of task %d, and no deletion of it had begun", x, r.p.Events[e].Text, a.Op.ID, a.Task, b.Op.ID, b.Task), props...)
				}
				for _, x := range uniq(b.Res) {
					if has(a.Res, x) {
						continue
					}
					sure := false
					why := false
					for _, rg := range h.byX[x] {
						lv := r.modelOf(rg.p, e)
						if lv == either && rg.inv < b.Resp {
							why = true
						}
						if lv == yes {
							sure = true
							if rg.inv < b.Resp && (rg.end > a.Inv || rg.maybe) && !rg.failed {
								why = true
							}
						}
					}
					if !sure || why {
						continue
					}
					props := []string{"C16"}
					if len(h.delX[x]) > 0 {
						props = append(props, "C06")
					}
					if r.anyMaybe(h, x) {
						props = append(props, "C17")
					}
					reported++
					r.bad("came-back", b.Op.ID, fmt.Sprintf("%s was not reported for %s by op %d of task %d but was by the later op %d of task %d, and no AddPattern of it had been under way", x, r.p.Events[e].Text, a.Op.ID, a.Task, b.Op.ID, b.Task), props...)
				}
			}
		}
	}
}

func (r *runner) anyMaybe(h *hist, x string) bool {
	for _, rg := range h.byX[x] {
		if rg.maybe {
			return true
		}
	}
	for _, d := range h.delX[x] {
		if d.maybe {
			return true
		}
	}
	return false
}

// judgeReadOnly: between two equal questions with no add or delete in
// between, nothing may change.
func (r *runner) judgeReadOnly(h *hist) {
	last := map[int]*Rec{}
	n := 0
	for _, m := range h.matches {
		if !m.Done || m.Panic != "" || m.FaultHit || m.Op.Fault != "" || n > 5 {
			continue
		}
		if r.p.Events[m.Op.E].Bad != 0 && r.p.Groups[h.g].Deletion {
			// A rebuild may drop the paths of deleted patterns, and reading
			// an event stops once every used path was seen: how much of a
			// damaged event is looked at may then change.
			continue
		}
		a := last[m.Op.E]
		if a == nil || a.Resp >= m.Inv {
			if a == nil {
				last[m.Op.E] = m
			}
			continue
		}
		if h.quiet(a.Inv, m.Resp) {
			r.seen["reread"]++
			if setKey(r.sureOnly(h, a.Res)) != setKey(r.sureOnly(h, m.Res)) || (a.Err == "") != (m.Err == "") {
				n++
				r.bad("changed", m.Op.ID, fmt.Sprintf("%s gave %v %q in op %d and %v %q in op %d with no add or delete in between", r.p.Events[m.Op.E].Text, a.Res, a.Err, a.Op.ID, m.Res, m.Err, m.Op.ID), append(r.extraProps(h, r.contextAt(h, m.Inv, m.Resp)), "C18", "C16")...)
			}
		}
		last[m.Op.E] = m
	}
	if r.p.Groups[h.g].Deletion {
		return
	}
	var ls *Rec
	for _, s := range h.stats {
		if !s.Done || s.Panic != "" {
			continue
		}
		if ls != nil && h.quiet(ls.Inv, s.Resp) {
			r.seen["restat"]++
			for k, v := range ls.Stats {
				if s.Stats[k] != v {
					r.bad("stats-changed", s.Op.ID, fmt.Sprintf("GetMatcherStats figure %q was %v on copy %d and %v on copy %d with no AddPattern in between", k, v, ls.Handle, s.Stats[k], s.Handle), "C18")
					break
				}
			}
		}
		ls = s
	}
}

// judgeOwnership: results handed out must still read as they did.
func (r *runner) judgeOwnership() {
	for t := range r.recs {
		for _, rec := range r.recs[t] {
			if rec.Raw == nil {
				continue
			}
			for i := range rec.Raw {
				if rec.Raw[i] != rec.Copy[i] {
					r.bad("result-changed", rec.Op.ID, fmt.Sprintf("entry %d of the list returned to op %d of task %d for %s was %v and later became %v", i, rec.Op.ID, t, r.p.Events[rec.Op.E].Text, rec.Copy[i], rec.Raw[i]), "C13")
					return
				}
			}
			r.seen["retained"]++
		}
	}
}

// sureOnly leaves out what failed calls may still change.
func (r *runner) sureOnly(h *hist, l []string) []string {
	var out []string
	for _, x := range l {
		if !r.anyMaybe(h, x) {
			out = append(out, x)
		}
	}
	return out
}

// judgeAmbiguous: after a storage fault, what the quiet instance reports must
// be explained by each failed call taking effect once and completely, at any
// time after it began, or never.
func (r *runner) judgeAmbiguous(h *hist) {
	xs := make([]string, 0, len(h.byX))
	for x := range h.byX {
		xs = append(xs, x)
	}
	sort.Strings(xs)
	for _, x := range xs {
		if !r.anyMaybe(h, x) {
			continue
		}
		var muts []*Rec
		for _, m := range h.muts {
			if m.Op.X == x {
				muts = append(muts, m)
			}
		}
		amb := 0
		overlap := false
		for i, m := range muts {
			if m.Panic != "" || !m.Done {
				overlap = true
			}
			if m.Err != "" && m.FaultHit {
				amb++
			}
			if i > 0 && muts[i-1].Resp > m.Inv {
				overlap = true
			}
		}
		if overlap || amb == 0 || amb > 6 || len(muts) > 60 {
			continue
		}
		r.seen["ambiguous"]++
		// every state the calls may have led to: which patterns are live and
		// which failed calls have not taken effect yet, if they ever will
		type state struct{ live, pending uint64 }
		states := map[state]bool{{}: true}
		fire := func() {
			for more := true; more; {
				more = false
				for s := range states {
					for i, m := range muts {
						if s.pending>>i&1 == 0 {
							continue
						}
						n := state{s.live | 1<<i, s.pending &^ (1 << i)}
						if m.Op.Kind == "del" {
							// of what was added before it
							n.live = s.live &^ (1<<i - 1)
						}
						if !states[n] {
							states[n] = true
							more = true
						}
					}
				}
			}
		}
		i := 0
		for _, m := range h.all {
			if m.Op.X == x && (m.Op.Kind == "add" || m.Op.Kind == "del") {
				next := map[state]bool{}
				for s := range states {
					n := s
					switch {
					case m.Err != "" && !m.FaultHit:
					case m.Err != "":
						n.pending |= 1 << i
					case m.Op.Kind == "add":
						n.live |= 1 << i
					default:
						n.live = 0
						for k := 0; k < i; k++ {
							if muts[k].Op.Kind == "add" {
								n.pending &^= 1 << k
							}
						}
					}
					next[n] = true
				}
				states = next
				fire()
				i++
				continue
			}
			if m.Op.Kind != "match" || !m.Op.Probe || !m.Done || m.Err != "" || m.Panic != "" || r.p.Events[m.Op.E].Bad != 0 {
				continue
			}
			for s := range states {
				lvl := no
				for k, a := range muts {
					if s.live>>k&1 == 1 {
						if l := r.modelOf(a.Op.P, m.Op.E); l > lvl {
							lvl = l
						}
					}
				}
				if lvl == yes && !has(m.Res, x) || lvl == no && has(m.Res, x) {
					delete(states, s)
				}
			}
			fire()
		}
		explained := len(states) > 0
		if !explained {
			r.bad("half-applied", muts[len(muts)-1].Op.ID, fmt.Sprintf("no choice of effect for the failed calls on %s explains what is reported once the storage works again", x), "C17")
		}
	}
}

// settled lists the patterns certainly live at the end, and the Xs whose state is not certain.
func (h *hist) settled() (live []*reg, unsure map[string]bool) {
	unsure = map[string]bool{}
	for _, x := range h.regs {
		if x.failed {
			continue
		}
		switch {
		case h.definite(x, inf-1, inf):
			live = append(live, x)
		case h.possible(x, inf-1, inf):
			unsure[x.x] = true
		}
	}
	return
}

// judgeFresh compares the quiet instance with new instances that were given
// just the live patterns, in other orders and build modes.
func (r *runner) judgeFresh(h *hist) {
	live, unsure := h.settled()
	rng := zzsim.NewRNG(zzsim.Mix(r.p.Seed, 7171))
	type variant struct {
		name string
		mode int // 0 comfort, 1 speed, 2 mixed
		dup  bool
	}
	vs := []variant{{"the same order", 0, false}, {"another order, built for speed", 1, false}, {"another order, mixed build modes, some patterns twice", 2, true}}
	if r.p.Big {
		vs = vs[2:]
	}
	nbad := 0
	for vi, v := range vs {
		order := make([]*reg, len(live))
		copy(order, live)
		if vi > 0 || r.p.Big {
			for i := len(order) - 1; i > 0; i-- {
				j := rng.N(i + 1)
				order[i], order[j] = order[j], order[i]
			}
		}
		var q *quamina.Quamina
		failed := ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					failed = fmt.Sprint("panic: ", e, " at ", shortStack())
				}
			}()
			q, _ = quamina.New()
			for _, x := range order {
				m := quamina.BuiltForComfort
				if v.mode == 1 || v.mode == 2 && rng.P(0.5) {
					m = quamina.BuiltForSpeed
				}
				_ = q.SetMatcherBuildMode(m)
				if err := q.AddPattern(x.x, r.p.Patterns[x.p].Text); err != nil {
					failed = "AddPattern: " + err.Error()
				}
				if v.dup && rng.P(0.3) {
					if err := q.AddPattern(x.x, r.p.Patterns[x.p].Text); err != nil {
						failed = "AddPattern: " + err.Error()
					}
				}
			}
		}()
		if failed != "" {
			r.bad("fresh", -1, "a new instance could not be given the live patterns in "+v.name+": "+failed, "C04")
			return
		}
		got := map[int]string{}
		raw := map[int][]string{}
		for _, m := range h.matches {
			if !m.Op.Probe || !m.Done || m.Err != "" || m.Panic != "" || r.p.Events[m.Op.E].Bad != 0 || nbad > 3 {
				continue
			}
			e := m.Op.E
			if _, ok := got[e]; !ok {
				var l []string
				func() {
					defer func() {
						if x := recover(); x != nil {
							l = []string{fmt.Sprint("panic: ", x)}
						}
					}()
					xs, err := q.MatchesForEvent([]byte(r.p.Events[e].Text))
					if err != nil {
						l = []string{"error: " + err.Error()}
					}
					for _, x := range xs {
						if !unsure[xname(r.p.XKind, x)] {
							l = append(l, xname(r.p.XKind, x))
						}
					}
				}()
				got[e] = setKey(uniq(l))
				raw[e] = l
			}
			var l []string
			for _, x := range uniq(m.Res) {
				if !unsure[x] {
					l = append(l, x)
				}
			}
			r.seen["fresh"]++
			if setKey(l) != got[e] {
				nbad++
				props := []string{"C04"}
				if r.p.Groups[h.g].Deletion && len(h.dels) > 0 {
					props = append(props, "C08")
				}
				r.bad("fresh", m.Op.ID, fmt.Sprintf("for %s this instance reports [%s] and a new instance with the same live patterns, added in %s, reports [%s]", r.p.Events[e].Text, setKey(l), v.name, got[e]), props...)
			}
		}
	}
}

// judgeTwin compares the statistics with those of an instance that was only
// ever given the same AddPattern calls in the same order.
func (r *runner) judgeTwin(h *hist) {
	if r.p.Groups[h.g].Deletion {
		return
	}
	var last *Rec
	for _, s := range h.stats {
		if s.Done && s.Panic == "" {
			last = s
		}
	}
	if last == nil {
		return
	}
	var end uint64
	for _, x := range h.regs {
		if x.inv < end || x.end > last.Inv || x.rec.Panic != "" || x.rec.Mode < 0 && x.rec.Mode != -1 {
			return // overlapping adds: the order is not known
		}
		end = x.end
	}
	defer func() {
		if e := recover(); e != nil {
			r.bad("twin", last.Op.ID, fmt.Sprint("replaying the AddPattern calls on a new instance panicked: ", e), "C18")
		}
	}()
	q, _ := quamina.New()
	for _, x := range h.regs {
		if x.rec.Mode == -1 {
			return // build mode of that copy not documented
		}
		m := quamina.BuiltForComfort
		if x.rec.Mode == 1 {
			m = quamina.BuiltForSpeed
		}
		_ = q.SetMatcherBuildMode(m)
		_ = q.AddPattern(xval(r.p.XKind, x.x), r.p.Patterns[x.p].Text)
	}
	st := q.GetMatcherStats()
	r.seen["twin"]++
	for k, v := range last.Stats {
		if st[k] != v {
			r.bad("twin", last.Op.ID, fmt.Sprintf("GetMatcherStats figure %q is %v, and %v on an instance that was only given the same AddPattern calls", k, v, st[k]), "C18")
			return
		}
	}
}
