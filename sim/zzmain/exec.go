package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"strings"

	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

// handle is one Quamina copy owned by one task.
type handle struct {
	id   int
	g    int
	q    *quamina.Quamina
	buf  []byte // reusable event buffer
	mode int    // build mode set on this copy; -1 not known
}

// runner executes one program.
type runner struct {
	p       *Program
	stores  []*simStore
	hs      [][][]*handle // task, group
	recs    [][]*Rec      // per task, so that tasks share nothing
	nextH   []int
	cur     []*Rec // operation under way, per task
	curH    []*handle
	newFlat [][]*simFlat
	flats   [][]*simFlat
	faults  []map[string]int
	seen    map[string]int
	cut     []bool // tasks that were ended because the run had become too long
	phase   int
	viol    []Violation
	mcache  []int8
	hists   []*hist
}

func (r *runner) bad(kind string, op int, detail string, props ...string) {
	if len(r.viol) < 60 {
		r.viol = append(r.viol, Violation{Props: props, Kind: kind, Op: op, Detail: detail})
	}
}

var errFlat = errors.New("zz: the flattener failed")
var errStore = errors.New("zz: the storage failed")

const panicFlat = "zz: the flattener panicked"
const junkX = "zz-junk"

type structX struct {
	A string
	N int
}
type intX int

// twins all look the same; only their identity tells them apart.
var twins = func() []*structX {
	var l []*structX
	for i := 0; i < 8192; i++ {
		l = append(l, &structX{"x", 0})
	}
	return l
}()

var twinIndex = func() map[*structX]int {
	m := map[*structX]int{}
	for i, p := range twins {
		m[p] = i
	}
	return m
}()

// xval turns the name of an X into the value handed to quamina.
func xval(kind int, name string) quamina.X {
	switch kind {
	case 1:
		n := 0
		fmt.Sscanf(name, "x%d", &n)
		return intX(n)
	case 2:
		return structX{name, len(name)}
	case 3:
		if len(name) > 1 && name[1]%2 == 0 {
			return structX{name, 0}
		}
	case 4:
		// different Xs that print alike
		n := 0
		fmt.Sscanf(name, "x%d", &n)
		v := n / 7
		switch n % 7 {
		case 0:
			return fmt.Sprint(v)
		case 1:
			return v
		case 2:
			return int64(v)
		case 3:
			return float64(v)
		case 4:
			if v < 256 {
				return uint8(v)
			}
			return structX{"wide", v}
		case 5:
			return intX(v)
		}
		if v == 0 {
			return nil
		}
		return structX{"same", v}
	case 5:
		n := 0
		fmt.Sscanf(name, "x%d", &n)
		if n < len(twins) {
			zzsim.Note(twins[n])
			return twins[n]
		}
	}
	return name
}

func xname(kind int, x quamina.X) string {
	switch kind {
	case 4:
		xn := func(v, t int) string { return fmt.Sprintf("x%d", v*7+t) }
		switch v := x.(type) {
		case string:
			n := 0
			if _, err := fmt.Sscanf(v, "%d", &n); err == nil && fmt.Sprint(n) == v {
				return xn(n, 0)
			}
		case int:
			return xn(v, 1)
		case int64:
			return xn(int(v), 2)
		case float64:
			return xn(int(v), 3)
		case uint8:
			return xn(int(v), 4)
		case intX:
			return xn(int(v), 5)
		case nil:
			return xn(0, 6)
		case structX:
			if v.A == "wide" {
				return xn(v.N, 4)
			}
			return xn(v.N, 6)
		}
	case 5:
		if v, ok := x.(*structX); ok {
			if i, ok := twinIndex[v]; ok {
				return fmt.Sprintf("x%d", i)
			}
		}
	}
	switch v := x.(type) {
	case string:
		return v
	case intX:
		return fmt.Sprintf("x%d", int(v))
	case structX:
		return v.A
	}
	return fmt.Sprintf("?%v", x)
}

// simFlat is a user-supplied flattener. It knows the events of the program.
type simFlat struct {
	r     *runner
	owner int // handle id, or -1 while not known
	inUse bool
	buf   []quamina.Field
	calls int
}

func (f *simFlat) Copy() quamina.Flattener {
	t := zzsim.Cur().ID
	n := &simFlat{r: f.r, owner: -1}
	if h := f.r.curH[t]; h == nil || h.id != f.owner {
		f.r.note(t, fmt.Sprintf("the flattener of copy %d was copied by another copy", f.owner))
	}
	f.r.newFlat[t] = append(f.r.newFlat[t], n)
	zzsim.Y(0)
	return n
}

func (f *simFlat) Flatten(event []byte, tr quamina.SegmentsTreeTracker) ([]quamina.Field, error) {
	t := zzsim.Cur().ID
	rec, h := f.r.cur[t], f.r.curH[t]
	f.calls++
	if f.inUse {
		f.r.note(t, "one flattener object was called by two callers at once")
	}
	if rec == nil || h == nil || rec.Op.Kind != "match" {
		f.r.note(t, "a flattener was called outside any match")
		return nil, nil
	}
	if f.owner != h.id {
		f.r.note(t, fmt.Sprintf("the flattener of copy %d was called on behalf of copy %d", f.owner, h.id))
	}
	ev := &f.r.p.Events[rec.Op.E]
	if string(event) != rec.Sent {
		f.r.note(t, "the flattener was given bytes that are not the event's")
	}
	f.inUse = true
	defer func() { f.inUse = false }()
	zzsim.Y(0)
	hit := func() {
		rec.FaultHit = true
		f.r.faults[t][rec.Op.Fault]++
	}
	switch rec.Op.Fault {
	case "flat-err":
		hit()
		return nil, errFlat
	case "flat-panic":
		hit()
		panic(panicFlat)
	}
	if ev.Bad != 0 {
		rec.FaultHit = true
		return nil, errFlat
	}
	f.buf = f.buf[:0]
	for i := range ev.Fields {
		zzsim.Y(0)
		ef := &ev.Fields[i]
		if rec.Op.Fault == "flat-part" && i >= len(ev.Fields)/2 {
			hit()
			return f.buf, errFlat
		}
		segs := strings.Split(ef.Path, "\n")
		for j := range segs {
			segs[j] = strings.ReplaceAll(segs[j], "\ue00a", "\n")
		}
		node := tr
		var path []byte
		for j, s := range segs {
			if !node.IsSegmentUsed([]byte(s)) {
				break
			}
			if j == len(segs)-1 {
				path = node.PathForSegment([]byte(s))
				break
			}
			nx, ok := node.Get([]byte(s))
			if !ok {
				break
			}
			node = nx
		}
		if path == nil {
			continue
		}
		fl := quamina.Field{Path: path, IsNumber: ef.K == "num"}
		if ef.K == "str" {
			fl.Val = []byte("\"" + ef.S + "\"")
		} else {
			fl.Val = []byte(ef.S)
		}
		for _, tp := range ef.Trail {
			fl.ArrayTrail = append(fl.ArrayTrail, arrayPos(tp))
		}
		f.buf = append(f.buf, fl)
	}
	if rec.Op.Fault == "flat-part" {
		hit()
		return f.buf, errFlat
	}
	return f.buf, nil
}

func (r *runner) note(t int, s string) {
	if rec := r.cur[t]; rec != nil && rec.Misuse == "" {
		rec.Misuse = s
	}
}

// simStore is simulated pattern storage that fails on demand. It is itself
// correct: between failures it holds exactly what it acknowledged.
type simStore struct {
	r    *runner
	mu   zzsim.Mutex
	ents []storeEnt
}

type storeEnt struct {
	x    quamina.X
	pat  string
	mode quamina.MatcherBuildMode
}

func (s *simStore) fault(kind string) bool {
	if s.r.p == nil || s.r.phase < 0 {
		return false
	}
	t := zzsim.Cur().ID
	rec := s.r.cur[t]
	if rec == nil || rec.Op.Fault != kind {
		return false
	}
	if rec.Op.FaultN > 0 && rec.FaultSeen < rec.Op.FaultN {
		rec.FaultSeen++
		return false
	}
	rec.FaultHit = true
	s.r.faults[t][kind]++
	return true
}

func (s *simStore) Add(x quamina.X, pattern string, mode quamina.MatcherBuildMode) error {
	zzsim.Y(0)
	if s.fault("store-add-before") {
		return errStore
	}
	s.mu.Lock()
	n := make([]storeEnt, len(s.ents), len(s.ents)+1)
	copy(n, s.ents)
	s.ents = append(n, storeEnt{x, pattern, mode})
	s.mu.Unlock()
	zzsim.Y(0)
	if s.fault("store-add-after") {
		return errStore
	}
	return nil
}

func (s *simStore) Delete(x quamina.X) (int, error) {
	zzsim.Y(0)
	if s.fault("store-del-before") {
		return 0, errStore
	}
	s.mu.Lock()
	var n []storeEnt
	cnt := 0
	for _, e := range s.ents {
		if e.x == x {
			cnt++
		} else {
			n = append(n, e)
		}
	}
	s.ents = n
	s.mu.Unlock()
	zzsim.Y(0)
	if s.fault("store-del-after") {
		return 0, errStore
	}
	return cnt, nil
}

func (s *simStore) Contains(x quamina.X) (bool, error) {
	zzsim.Y(0)
	if s.fault("store-contains") {
		return false, errStore
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, e := range s.ents {
		if e.x == x {
			return true, nil
		}
	}
	return false, nil
}

func (s *simStore) Iterate(f func(x quamina.X, pattern string, mode quamina.MatcherBuildMode) error) error {
	zzsim.Y(0)
	s.mu.Lock()
	snap := s.ents
	s.mu.Unlock()
	for i, e := range snap {
		if i >= len(snap)/2 && s.fault("store-iter") {
			return errStore
		}
		if err := f(e.x, e.pat, e.mode); err != nil {
			return err
		}
	}
	if len(snap) == 0 && s.fault("store-iter") {
		return errStore
	}
	return nil
}

func newRunner(p *Program) *runner {
	n := p.Tasks
	if n < 1 {
		n = 1
	}
	r := &runner{p: p, stores: make([]*simStore, len(p.Groups)), seen: map[string]int{}}
	r.hs = make([][][]*handle, n)
	for i := range r.hs {
		r.hs[i] = make([][]*handle, len(p.Groups))
	}
	r.recs = make([][]*Rec, n)
	r.nextH = make([]int, 64)
	r.cut = make([]bool, 64)
	r.cur = make([]*Rec, 64)
	r.curH = make([]*handle, 64)
	r.newFlat = make([][]*simFlat, 64)
	r.flats = make([][]*simFlat, 64)
	r.faults = make([]map[string]int, 64)
	for i := range r.faults {
		r.faults[i] = map[string]int{}
	}
	return r
}

// handleID numbers copies without shared counters: task * 1000 + n.
func (r *runner) handleID(task int) int {
	r.nextH[task]++
	return task*1000 + r.nextH[task]
}

func (r *runner) makeRoot(gi int) error {
	g := &r.p.Groups[gi]
	var opts []quamina.Option
	id := r.handleID(0)
	if g.Flat {
		f := &simFlat{r: r, owner: id}
		r.flats[0] = append(r.flats[0], f)
		opts = append(opts, quamina.WithFlattener(f))
	} else if g.MediaOpt {
		opts = append(opts, quamina.WithMediaType("application/json"))
	}
	var q *quamina.Quamina
	var err error
	switch {
	case g.Deletion && (g.Store || g.Ratio > 0):
		var st quamina.LivePatternsState
		if g.Store {
			r.stores[gi] = &simStore{r: r}
			st = r.stores[gi]
		}
		q, err = quamina.ZZDeletionInstance(st, g.Ratio, g.MinAct, opts...)
	case g.Deletion:
		q, err = quamina.New(append(opts, quamina.WithPatternDeletion(true))...)
	default:
		q, err = quamina.New(opts...)
	}
	if err != nil {
		return err
	}
	r.hs[0][gi] = append(r.hs[0][gi], &handle{id: id, g: gi, q: q, mode: 0})
	return nil
}

// copyOf makes a copy of h for task owner, on behalf of task t.
func (r *runner) copyOf(t int, h *handle, rec *Rec) *handle {
	r.newFlat[t] = nil
	id := r.handleID(t)
	r.curH[t] = h
	q := h.q.Copy()
	r.curH[t] = nil
	n := &handle{id: id, g: h.g, q: q, mode: -1}
	if r.p.Groups[h.g].Flat {
		fs := r.newFlat[t]
		if len(fs) != 1 {
			if rec != nil && rec.Misuse == "" {
				rec.Misuse = fmt.Sprintf("Copy obtained %d flatteners from the user's Copy method, not one", len(fs))
			}
		}
		for _, f := range fs {
			f.owner = id
		}
		r.flats[t] = append(r.flats[t], fs...)
	}
	return n
}

func (r *runner) doOp(t int, op *Op, idx int) {
	n := 1
	if op.N > 1 {
		n = op.N
	}
	if zzsim.Stamp() > runBudget {
		r.cut[t] = true
		return
	}
	zzsim.StartOp(op.ID)
	if op.Freeze > 0 {
		zzsim.FreezeAfter(op.Freeze, op.Held)
	}
	for i := 0; i < n; i++ {
		rec := &Rec{Op: op, Task: t, Phase: r.phase, Mode: -1}
		r.recs[t] = append(r.recs[t], rec)
		hs := r.hs[t][op.G]
		h := hs[op.H%len(hs)]
		rec.Handle = h.id
		r.cur[t] = rec
		rec.Inv = zzsim.Stamp()
		r.perform(t, op, rec, h)
		rec.Resp = zzsim.Stamp()
		rec.Steps = zzsim.OpSteps()
		rec.Done = true
		r.cur[t] = nil
		r.curH[t] = nil
		if rec.Panic != "" && rec.Panic != panicFlat {
			break
		}
	}
	if op.Freeze > 0 {
		zzsim.FreezeCancel()
	}
	zzsim.EndOp()
}

func (r *runner) perform(t int, op *Op, rec *Rec, h *handle) {
	defer func() {
		if e := recover(); e != nil {
			rec.Panic = fmt.Sprint(e)
			if rec.Panic != panicFlat {
				rec.Stack = shortStack()
			}
		}
	}()
	p := r.p
	switch op.Kind {
	case "add":
		rec.Mode = h.mode
		r.curH[t] = h
		if err := h.q.AddPattern(xval(p.XKind, op.X), p.Patterns[op.P].Text); err != nil {
			rec.Err = err.Error()
		}
	case "del":
		r.curH[t] = h
		if err := h.q.DeletePatterns(xval(p.XKind, op.X)); err != nil {
			rec.Err = err.Error()
		}
	case "mode":
		m := quamina.BuiltForComfort
		if op.Mode == 1 {
			m = quamina.BuiltForSpeed
		}
		if err := h.q.SetMatcherBuildMode(m); err != nil {
			rec.Err = err.Error()
		}
		h.mode = op.Mode
	case "stats":
		rec.Stats = h.q.GetMatcherStats()
		m := h.q.GetMatcherBuildMode()
		if h.mode >= 0 && (m == quamina.BuiltForSpeed) != (h.mode == 1) {
			rec.Misuse = fmt.Sprintf("GetMatcherBuildMode says %v after SetMatcherBuildMode(%d)", m, h.mode)
		}
	case "copy":
		n := r.copyOf(t, h, rec)
		r.hs[t][op.G] = append(r.hs[t][op.G], n)
	case "match":
		r.match(t, op, rec, h)
	}
}

func (r *runner) match(t int, op *Op, rec *Rec, h *handle) {
	ev := &r.p.Events[op.E]
	rec.Sent = ev.Text
	if op.Scrib&8 != 0 && ev.Bad == 0 {
		// of the same length as others
		rec.Sent += strings.Repeat(" ", 255-(len(ev.Text)+255)%256)
	}
	var buf []byte
	if op.Scrib&4 != 0 {
		h.buf = append(h.buf[:0], rec.Sent...)
		buf = h.buf
	} else {
		buf = []byte(rec.Sent)
	}
	r.curH[t] = h
	xs, err := h.q.MatchesForEvent(buf)
	r.curH[t] = nil
	if string(buf) != rec.Sent {
		rec.BufBad = true
	}
	if op.Scrib&2 != 0 {
		for i := range buf {
			buf[i] = "x\"{}\\"[i%5]
		}
	}
	if err != nil {
		rec.Err = err.Error()
	}
	rec.Res = make([]string, 0, len(xs))
	for _, x := range xs {
		rec.Res = append(rec.Res, xname(r.p.XKind, x))
	}
	if op.Scrib&1 != 0 {
		xs = xs[:cap(xs)]
		for i := range xs {
			xs[i] = junkX
		}
	}
	rec.Raw = xs
	rec.Copy = append([]quamina.X(nil), xs...)
}

func shortStack() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	var out []string
	seen := false
	for i := 0; i < len(lines) && len(out) < 12; i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") {
			seen = true
		}
		if seen && strings.HasPrefix(l, "quamina.net/") && !strings.Contains(l, "zzmain") && !strings.Contains(l, "zzsim") {
			if j := strings.IndexByte(l, '('); j > 0 {
				k := strings.LastIndexByte(l, '(')
				l = l[:k]
			}
			out = append(out, strings.TrimPrefix(l, "quamina.net/go/quamina/v2"))
		}
	}
	return strings.Join(out, " < ")
}

// run executes the program under the simulator. The caller has called
// zzsim.Begin.
func (r *runner) run() error {
	p := r.p
	r.phase = 0
	var err error
	zzsim.Phase([]func(*zzsim.Task){func(*zzsim.Task) {
		zzsim.StartOp(-2)
		for gi := range p.Groups {
			if err = r.makeRoot(gi); err != nil {
				return
			}
		}
		for i := range p.Setup {
			r.doOp(0, &p.Setup[i], i)
		}
		zzsim.StartOp(-3)
		for gi := range p.Groups {
			for t := 1; t < p.Tasks; t++ {
				hs := r.hs[0][gi]
				h := r.copyOf(0, hs[0], nil)
				r.hs[t][gi] = append(r.hs[t][gi], h)
			}
		}
	}})
	if err != nil {
		return err
	}
	if len(p.Conc) > 0 {
		r.phase = 1
		var fns []func(*zzsim.Task)
		for t := range p.Conc {
			t := t
			fns = append(fns, func(*zzsim.Task) {
				for i := range p.Conc[t] {
					r.doOp(t, &p.Conc[t][i], i)
				}
			})
		}
		zzsim.Phase(fns)
	}
	r.phase = 2
	zzsim.Phase([]func(*zzsim.Task){func(*zzsim.Task) {
		for i := range p.Final {
			r.doOp(0, &p.Final[i], i)
		}
		if p.Probe {
			r.probe()
		}
		for gi := range p.Groups {
			if p.Purge && p.Groups[gi].Deletion {
				r.purge(gi)
			}
		}
	}})
	return nil
}

// probe matches every event on a root copy, on one copy of each task and on a brand-new copy.
func (r *runner) probe() {
	id := 1 << 20
	for gi := range r.p.Groups {
		var hs []*handle
		for t := range r.hs {
			l := r.hs[t][gi]
			if len(l) > 0 {
				hs = append(hs, l[len(l)-1])
			}
		}
		zzsim.StartOp(-4)
		hs = append(hs, r.copyOf(0, r.hs[0][gi][0], nil))
		for _, h := range hs {
			save := r.hs[0][gi]
			r.hs[0][gi] = []*handle{h}
			for e := range r.p.Events {
				id++
				r.doOp(0, &Op{ID: id, Kind: "match", G: gi, E: e, Probe: true}, 0)
			}
			if r.p.Twin {
				id++
				r.doOp(0, &Op{ID: id, Kind: "stats", G: gi, Probe: true}, 0)
			}
			r.hs[0][gi] = save
		}
	}
}

// arrayPos leaves the types of the library's fields to the library.
func arrayPos(tp [2]int32) quamina.ArrayPos {
	var a quamina.ArrayPos
	setNum(&a.Array, tp[0])
	setNum(&a.Pos, tp[1])
	return a
}

func setNum[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint](p *T, n int32) {
	*p = T(n)
}
