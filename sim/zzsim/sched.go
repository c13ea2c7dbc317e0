// Package zzsim is the deterministic simulator that instrumented code runs
// under: it owns task scheduling, locks, pools, the clock, random numbers,
// map order and pointer order. It reaches the module only through
// `go build -overlay`.
package zzsim

import (
	"fmt"
	"reflect"
	"unsafe"
)

type SiteInfo struct{ Pos, Func string }

// Sites is filled in by the generated site table. Site 0 is "op-start".
var Sites []SiteInfo

// reached has the sites that any run in this process has come to.
var reached = make([]bool, 1<<18)

// Reached lists the sites that any run in this process has come to.
func Reached() []int {
	var l []int
	for i, r := range reached {
		if r {
			l = append(l, i)
		}
	}
	return l
}

const (
	SiteOpStart = 0
	SiteBlock   = -1
	SiteDone    = -2
)

const (
	stReady = iota
	stBlocked
	stSleeping
	stDone
)

type siteCnt struct{ gen, n uint32 }

// Task is one simulated thread.
type Task struct {
	ID      int
	daemon  bool
	fn      func(*Task)
	wake    chan struct{}
	state   uint8
	on      unsafe.Pointer
	onWhat  string
	wakeAt  int64
	op      int32
	gen     uint32
	sites   []siteCnt
	blockN  uint32
	Steps   uint64 // steps of the current operation
	stall   uint64 // not eligible before this many operations have completed
	prio    int
	held    int // simulated locks held
	dec     []Decision
	started bool
	frozen  bool
}

// Decision says: when task T, in operation Op, reaches Site for the N-th time
// in that operation, task To runs next.
type Decision struct {
	T    int    `json:"t"`
	Op   int32  `json:"op"`
	Site int32  `json:"-"`
	Pos  string `json:"at"`
	N    uint32 `json:"n"`
	To   int    `json:"to"`
}

// Strategy says how a generated run schedules.
type Strategy struct {
	Kind    string  `json:"kind"` // random, newsite, pct, target, serial, replay
	GapLog  int     `json:"gaplog,omitempty"`
	PNew    float64 `json:"pnew,omitempty"`
	PStall  float64 `json:"pstall,omitempty"`
	Changes int     `json:"changes,omitempty"`
	EstLog  int     `json:"estlog,omitempty"`
	Mod     uint64  `json:"mod,omitempty"`
}

var (
	on         bool
	cur        *Task
	tasks      []*Task
	spawned    int  // goroutines started by the library in this run
	draining   bool // the clients have finished
	phases     uint32
	solo       *Task // see startSolo
	soloLimit  uint64
	now        uint64 // scheduling steps so far
	next       uint64 // step at which the slow path runs at the latest
	plan       uint64 // step of the next planned decision
	runStart   uint64 // step at which cur got the token
	limit      uint64
	strat      Strategy
	rng        *RNG
	targSeed   uint64
	pctLow     int
	pctPts     []uint64
	doneOps    uint64
	replayD    map[[2]int32][]Decision
	replay     bool
	log        []Decision
	logN       int
	schedH     uint64
	switches   uint64
	preempt    uint64
	phaseEnd   chan struct{}
	joinAddr   byte
	freezeT    *Task // C15: the task to freeze
	freezeAt   uint64
	freezeHeld bool
	// Waiters lists (task, op) pairs that were blocked when a stopped task had to be resumed.
	Waiters  [][2]int
	frozenAt int32 = -9
	Stats    Counters
)

// Counters are per-run measurements.
type Counters struct {
	Switches, Preemptions, Stalls, Blocks, PoolEvict, PoolReuse, ClockReads, ClockJumps, Freezes, Missed uint64
}

// AbortHook is called when a run cannot go on (deadlock, step limit). It must not return.
var AbortHook func(kind, detail string)

func abort(kind, detail string) {
	on = false
	AbortHook(kind, detail)
	select {}
}

// Config of one run.
type Config struct {
	Seed      uint64
	Strat     Strategy
	Replay    bool
	Decisions []Decision
	Limit     uint64 // steps of one operation
	MapMode   int
	ClockJump bool
	PoolEvict bool
}

const (
	daemonOp  = -1000 // the operations of the goroutines of the library begin here
	burstCap  = 400000
	heartbeat = 50000
)

var logBuf = make([]Decision, 1<<16)

// Begin resets the simulator for a run.
func Begin(c Config) {
	EndSolo()
	on = false
	resetPtrs()
	mapSeed = Mix(c.Seed, 77)
	mapMode = c.MapMode
	strat = c.Strat
	rng = NewRNG(Mix(c.Seed, 99))
	targSeed = Mix(c.Seed, 55)
	replay = c.Replay
	replayD = nil
	if replay {
		replayD = map[[2]int32][]Decision{}
		byPos := map[string]int32{}
		for i, s := range Sites {
			byPos[s.Pos] = int32(i)
		}
		for _, d := range c.Decisions {
			switch d.Pos {
			case "blocked":
				d.Site = SiteBlock
			case "done":
				d.Site = SiteDone
			default:
				s, ok := byPos[d.Pos]
				if !ok {
					s = -99
				}
				d.Site = s
			}
			k := decKey(d.T, d.Op)
			replayD[k] = append(replayD[k], d)
		}
	}
	limit = c.Limit
	now, next, runStart, doneOps = 0, 0, 0, 0
	log = logBuf
	logN = 0
	schedH = 0
	switches = 0
	Stats = Counters{}
	left := tasks
	tasks = nil
	for _, t := range left {
		// goroutines of the library which the initialisers have started
		if t.daemon && t.state != stDone {
			if replay {
				t.dec = lookupDec(0, t.op)
			}
			t.ID, t.stall, t.prio = len(tasks), 0, -len(tasks)
			tasks = append(tasks, t)
		}
	}
	draining, phases = false, 0
	cur = nil
	simTime = 0
	clockJump = c.ClockJump
	clockOff = 0
	poolEvict = c.PoolEvict
	auxRng = NewRNG(Mix(c.Seed, 1234))
	simRand.Seed(int64(Mix(c.Seed, 4321)))
	freezeT = nil
	frozenAt = -9
	Waiters = nil
	pctPts = nil
	if strat.Kind == "pct" {
		est := 1 << uint(strat.EstLog)
		for i := 0; i < strat.Changes; i++ {
			pctPts = append(pctPts, uint64(1+rng.N(est)))
		}
		for i := range pctPts {
			for j := i + 1; j < len(pctPts); j++ {
				if pctPts[j] < pctPts[i] {
					pctPts[i], pctPts[j] = pctPts[j], pctPts[i]
				}
			}
		}
	}
	pctLow = -1
	planNext()
}

// Decisions returns the choices made in the run that differ from the defaults.
func Decisions() []Decision {
	out := make([]Decision, logN)
	for i := 0; i < logN; i++ {
		d := log[i]
		d.Pos = SiteName(d.Site)
		out[i] = d
	}
	return out
}

func SiteName(s int32) string {
	switch {
	case s == SiteBlock:
		return "blocked"
	case s == SiteDone:
		return "done"
	case s >= 0 && int(s) < len(Sites):
		return Sites[s].Pos
	}
	return "?"
}

func Step() uint64        { return now }
func SchedHash() uint64   { return schedH }
func Switches() uint64    { return switches }
func SimNanos() int64     { return simTime + int64(now)*1000 }
func DecisionsFull() bool { return logN >= len(logBuf) }

//go:norace
func planNext() {
	if replay {
		plan, next = 0, 0
		return
	}
	switch strat.Kind {
	case "random":
		plan = now + uint64(rng.LogN(strat.GapLog))
	case "newsite", "target":
		plan = now + uint64(1+rng.N(1<<uint(strat.GapLog)))
	case "pct":
		plan = ^uint64(0)
		for _, p := range pctPts {
			if p > now {
				plan = p
				break
			}
		}
	default:
		plan = ^uint64(0)
	}
	setNext()
}

//go:norace
func setNext() {
	next = now + heartbeat
	if freezeT != nil {
		next = now // every step takes the slow path
		return
	}
	if plan < next {
		next = plan
	}
}

// Y is called before every statement of instrumented code.
//
//go:norace
func Y(site int32) {
	if !on {
		return
	}
	t := cur
	now++
	t.Steps++
	c := &t.sites[site]
	if c.gen != t.gen {
		c.gen = t.gen
		c.n = 1
		reached[site] = true
		slow(t, site, 1)
		return
	}
	c.n++
	if now >= next {
		slow(t, site, c.n)
	}
}

//go:norace
func slow(t *Task, site int32, n uint32) {
	if solo != nil {
		if now-runStart > burstCap {
			runStart = now
			if to := forced(t, site); to != nil {
				switchTo(t, to, site, n, false)
			}
		}
		if next = now + heartbeat; replay {
			next = now + burstCap
		}
		return
	}
	if t.Steps > limit {
		abort("steps", describe())
	}
	if freezeT == t && t.Steps >= freezeAt && (freezeHeld || t.held == 0) && !t.frozen {
		freeze(t, site)
		return
	}
	if replay {
		for i := range t.dec {
			d := &t.dec[i]
			if d.Site == site && d.N == n {
				to := d.To
				if to != t.ID && eligible(tasks[to]) {
					switchTo(t, tasks[to], site, n, true)
				} else if to != t.ID {
					Stats.Missed++
				}
				return
			}
		}
		return
	}
	due := now >= plan
	if !due {
		setNext()
	}
	if now-runStart > burstCap && strat.Kind != "pct" {
		// fairness
		if to := pick(t); to != nil {
			runStart = now
			switchTo(t, to, site, n, true)
		}
		return
	}
	switch strat.Kind {
	case "serial":
		if site == SiteOpStart && n == 1 {
			if to := pickAny(); to != nil && to != t {
				switchTo(t, to, site, n, true)
			}
		}
	case "victim":
		// one caller at a time is stopped somewhere in its operation, while
		// others complete some; where, is drawn for each operation afresh
		if n != 1 {
			return
		}
		if site == SiteOpStart {
			if to := pickAny(); to != nil && to != t {
				switchTo(t, to, site, n, true)
			}
			return
		}
		if Mix(targSeed, uint64(t.ID), uint64(t.op), uint64(site))%strat.Mod == 0 && nobodyStalled() {
			t.stall = doneOps + uint64(1+rng.N(4))
			Stats.Stalls++
			if to := pick(t); to != nil {
				switchTo(t, to, site, n, true)
			} else {
				t.stall = 0
			}
		}
	case "random":
		if due {
			planNext()
			maybeStall(t)
			if to := pick(t); to != nil {
				switchTo(t, to, site, n, true)
			}
		}
	case "newsite":
		hit := false
		if n == 1 {
			hit = rng.P(strat.PNew)
		}
		if due {
			planNext()
			hit = true
		}
		if hit {
			maybeStall(t)
			if to := pick(t); to != nil {
				switchTo(t, to, site, n, true)
			}
		}
	case "target":
		hit := false
		if Mix(targSeed, uint64(site))%strat.Mod == 0 {
			hit = rng.P(strat.PNew)
		}
		if due {
			planNext()
			hit = true
		}
		if hit {
			maybeStall(t)
			if to := pick(t); to != nil {
				switchTo(t, to, site, n, true)
			}
		}
	case "pct":
		if due {
			planNext()
			pctLow--
			t.prio = pctLow
			if to := best(); to != nil && to != t {
				switchTo(t, to, site, n, true)
			}
		} else if now-runStart > burstCap {
			pctLow--
			t.prio = pctLow
			runStart = now
			if to := best(); to != nil && to != t {
				switchTo(t, to, site, n, true)
			}
		}
	}
}

//go:norace
func nobodyStalled() bool {
	for _, t := range tasks {
		if t.state != stDone && t.stall > doneOps {
			return false
		}
	}
	return true
}

//go:norace
func maybeStall(t *Task) {
	if strat.PStall > 0 && rng.P(strat.PStall) {
		if rng.P(0.2) {
			t.stall = ^uint64(0)
		} else {
			t.stall = doneOps + uint64(1+rng.N(6))
		}
		Stats.Stalls++
	}
}

//go:norace
func eligible(t *Task) bool { return t.state == stReady && !t.frozen }

// pick returns another task to run, or nil.
//
//go:norace
func pick(not *Task) *Task {
	wakeSleepers()
	n := 0
	for _, t := range tasks {
		if t != not && eligible(t) && t.stall <= doneOps {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := rng.N(n)
	for _, t := range tasks {
		if t != not && eligible(t) && t.stall <= doneOps {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func pickAny() *Task { return pick(nil) }

//go:norace
func best() *Task {
	var b *Task
	wakeSleepers()
	for _, t := range tasks {
		if eligible(t) && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

//go:norace
func wakeSleepers() {
	for _, t := range tasks {
		if t.state == stSleeping && t.wakeAt <= simTime+int64(now)*1000 {
			t.state = stReady
		}
	}
}

//go:norace
func logDecision(t *Task, site int32, n uint32, to *Task) {
	if logN < len(log) {
		log[logN].T = t.ID
		log[logN].Op = t.op
		log[logN].Site = site
		log[logN].N = n
		log[logN].To = to.ID
		logN++
	}
}

// switchTo hands the token from t to to and waits to get it back.
//
//go:norace
func switchTo(t, to *Task, site int32, n uint32, decided bool) {
	if to == t {
		return
	}
	if decided {
		logDecision(t, site, n, to)
		Stats.Preemptions++
	}
	handoff(t, to, site)
	if t.state == stDone {
		return
	}
	park(t)
}

//go:norace
func handoff(t, to *Task, site int32) {
	switches++
	Stats.Switches++
	schedH = Mix(schedH, uint64(t.ID), uint64(int64(site)), uint64(to.ID), uint64(uint32(t.op)))
	runStart = now
	cur = to
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

//go:norace
func park(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
}

// forced chooses the next task when t cannot go on.
//
//go:norace
func forced(t *Task, site int32) *Task {
	for {
		wakeSleepers()
		var def *Task
		for _, u := range tasks {
			if eligible(u) && u != t {
				def = u
				break
			}
		}
		if def == nil && t.state == stReady && !t.frozen {
			return t
		}
		if def != nil && solo != nil {
			return def
		}
		if def != nil {
			if replay {
				for i := range t.dec {
					d := &t.dec[i]
					if d.Site == site && d.N == t.blockN {
						if d.To != t.ID && d.To < len(tasks) && eligible(tasks[d.To]) {
							logDecision(t, site, t.blockN, tasks[d.To])
							return tasks[d.To]
						}
						Stats.Missed++
					}
				}
				return def
			}
			var to *Task
			if strat.Kind == "pct" {
				to = best()
				if to == t {
					to = nil
				}
			} else {
				to = pick(t)
				if to == nil {
					// everybody is stalled: lift the stalls
					for _, u := range tasks {
						u.stall = 0
					}
					to = pick(t)
				}
			}
			if to == nil {
				to = def
			}
			if to != def {
				logDecision(t, site, t.blockN, to)
			}
			return to
		}
		if draining || frozenAny() {
			return nil
		}
		// nobody can run: advance the clock to the next sleeper
		var first *Task
		for _, u := range tasks {
			if u.state == stSleeping && (first == nil || u.wakeAt < first.wakeAt) {
				first = u
			}
		}
		if first == nil {
			return nil
		}
		if d := first.wakeAt - (simTime + int64(now)*1000); d > 0 {
			simTime += d
		}
	}
}

// block parks the current task until another one wakes it.
//
//go:norace
func block(p unsafe.Pointer, what string) {
	t := cur
	t.state = stBlocked
	t.on = p
	t.onWhat = what
	t.blockN++
	Stats.Blocks++
	if t.daemon {
		raceRelease(unsafe.Pointer(&joinAddr))
	}
	to := forced(t, SiteBlock)
	if to == nil {
		if frozenAny() {
			thaw()
			to = forced(t, SiteBlock)
		}
		if to == nil {
			if clientsDone() {
				endPhase()
				park(t)
				return
			}
			abort("deadlock", describe())
		}
	}
	if to == t {
		return
	}
	handoff(t, to, SiteBlock)
	park(t)
}

//go:norace
func unblock(p unsafe.Pointer) {
	for _, t := range tasks {
		if t.state == stBlocked && t.on == p {
			t.state = stReady
			t.on = nil
		}
	}
}

func describe() string {
	s := ""
	for _, t := range tasks {
		if t.state == stDone {
			continue
		}
		st := [...]string{"ready", "blocked", "sleeping", "done"}[t.state]
		s += fmt.Sprintf("task %d op %d %s", t.ID, t.op, st)
		if t.state == stBlocked {
			s += " on " + t.onWhat
		}
		if t.frozen {
			s += " (stopped)"
		}
		s += fmt.Sprintf(" after %d steps; ", t.Steps)
	}
	return s
}

// StartOp begins operation op of the current task.
//
//go:norace
func StartOp(op int) {
	t := cur
	t.op = int32(op)
	t.gen++
	t.blockN = 0
	t.Steps = 0
	t.dec = nil
	if replay {
		raceDisable()
		t.dec = lookupDec(t.ID, t.op)
		raceEnable()
	}
	Y(SiteOpStart)
}

//go:norace
func lookupDec(id int, op int32) []Decision {
	return replayD[decKey(id, op)]
}

// decKey: goroutines of the library have operation numbers of their own.
//
//go:norace
func decKey(id int, op int32) [2]int32 {
	if op <= daemonOp {
		id = 0
	}
	return [2]int32{int32(id), op}
}

// EndOp ends the current operation.
//
//go:norace
func EndOp() {
	doneOps++
}

// OpSteps returns the number of steps of the current operation so far.
//
//go:norace
func OpSteps() uint64 { return cur.Steps }

//go:norace
func Cur() *Task { return cur }

// Stamp returns the next event sequence number.
//
//go:norace
func Stamp() uint64 {
	now++
	return now
}

func newTask(id int, fn func(*Task)) *Task {
	return &Task{ID: id, fn: fn, wake: make(chan struct{}, 1), sites: make([]siteCnt, len(Sites)+1), op: -1}
}

// sitePool keeps the per-task site counters between runs.
var sitePool [][]siteCnt

// Phase runs the functions as tasks until all of them have finished.
func Phase(fns []func(*Task)) {
	EndSolo()
	phaseEnd = make(chan struct{}, 1)
	old := tasks
	tasks = tasks[:0:0]
	draining = false
	for i, fn := range fns {
		t := newTask(i, fn)
		tasks = append(tasks, t)
	}
	// goroutines of the library which are waiting for something
	for _, t := range old {
		if t.daemon && t.state != stDone {
			t.ID = len(tasks)
			tasks = append(tasks, t)
		}
	}
	if strat.Kind == "pct" {
		for _, t := range tasks[:len(fns)] {
			t.prio = 1 + rng.N(1<<20)
		}
	}
	planNext()
	for _, t := range tasks[:len(fns)] {
		t := t
		go runTask(t)
	}
	boot := &Task{ID: 99, op: -1, state: stBlocked, blockN: phases}
	phases++
	if replay {
		boot.dec = lookupDec(99, -1)
	}
	to := forced(boot, SiteDone)
	on = true
	cur = to
	runStart = now
	raceDisable()
	to.wake <- struct{}{}
	<-phaseEnd
	raceEnable()
	on = false
	raceAcquire(unsafe.Pointer(&joinAddr))
}

//go:norace
func runTask(t *Task) {
	park(t)
	t.started = true
	t.fn(t)
	raceRelease(unsafe.Pointer(&joinAddr))
	t.state = stDone
	finish(t)
}

// clientsDone says whether only goroutines of the library are left.
//
//go:norace
func clientsDone() bool {
	for _, u := range tasks {
		if !u.daemon && u.state != stDone {
			return false
		}
	}
	return true
}

//go:norace
func endPhase() {
	draining = false
	raceDisable()
	phaseEnd <- struct{}{}
	raceEnable()
}

//go:norace
func finish(t *Task) {
	all := true
	for _, u := range tasks {
		if !u.daemon && u.state != stDone && !u.frozen {
			all = false
		}
	}
	if all && frozenAny() {
		thaw()
		all = false
	}
	// goroutines of the library go on until they finish or wait
	draining = all
	t.blockN = 0
	to := forced(t, SiteDone)
	if to == nil && all {
		endPhase()
		return
	}
	if to == nil {
		if frozenAny() {
			thaw()
			to = forced(t, SiteDone)
		}
		if to == nil {
			abort("deadlock", describe())
		}
	}
	handoff(t, to, SiteDone)
}

// Go replaces the go statement in instrumented code.
//
//go:norace
func Go(fn func()) {
	if !on {
		startSolo()
	}
	spawn(fn)
}

// startSolo makes a task of the caller, which uses the library outside a
// phase (the oracle, the package initialisers): the library has started a
// goroutine. Tasks run in a fixed order until EndSolo.
//
//go:norace
func startSolo() {
	t := newTask(0, nil)
	ntasks := make([]*Task, 1, len(tasks)+1)
	ntasks[0] = t
	for _, u := range tasks {
		if u.daemon && u.state != stDone {
			u.ID = len(ntasks)
			ntasks = append(ntasks, u)
		}
	}
	tasks = ntasks
	solo, cur = t, t
	soloLimit, limit = limit, ^uint64(0)
	next = ^uint64(0)
	draining = false
	on = true
}

// EndSolo lets the goroutines of the library run until they finish or wait,
// and ends what startSolo has begun.
//
//go:norace
func EndSolo() {
	if solo == nil {
		return
	}
	for n := 0; n < 1000; n++ {
		var to *Task
		for _, u := range tasks {
			if u != solo && eligible(u) {
				to = u
				break
			}
		}
		if to == nil {
			break
		}
		handoff(solo, to, SiteBlock)
		park(solo)
	}
	on = false
	raceAcquire(unsafe.Pointer(&joinAddr))
	solo.state = stDone
	solo, cur = nil, nil
	limit = soloLimit
}

// GoCall is Go for a function with arguments, which have been evaluated.
func GoCall(f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := fv.Type()
		at := t.In(min(i, t.NumIn()-1))
		if t.IsVariadic() && i >= t.NumIn()-1 {
			at = at.Elem()
		}
		in[i] = argOf(a, at)
	}
	Go(func() { fv.Call(in) })
}

// GoSlice is GoCall for a call with "...".
func GoSlice(f any, args ...any) {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = argOf(a, fv.Type().In(i))
	}
	Go(func() { fv.CallSlice(in) })
}

func argOf(a any, t reflect.Type) reflect.Value {
	if a == nil {
		return reflect.Zero(t)
	}
	v := reflect.ValueOf(a)
	if !v.Type().AssignableTo(t) {
		v = v.Convert(t) // an untyped constant
	}
	return v
}

//go:norace
func spawn(fn func()) {
	if spawned++; spawned > 200000 {
		abort("tasks", "more than 200000 goroutines started")
	}
	t := &Task{fn: func(*Task) { fn() }, wake: make(chan struct{}, 1), daemon: true, op: int32(daemonOp - spawned)}
	if strat.Kind == "pct" {
		t.prio = 1 + rng.N(1<<20)
	}
	if replay {
		raceDisable()
		t.dec = lookupDec(0, t.op)
		raceEnable()
	}
	for i := range tasks {
		if u := tasks[i]; u.daemon && u.state == stDone {
			t.ID, t.sites, t.gen = i, u.sites, u.gen+1
			tasks[i] = t
			go runTask(t)
			return
		}
	}
	if len(tasks) >= 2000 {
		abort("tasks", "more than 2000 goroutines at once")
	}
	t.ID, t.sites = len(tasks), make([]siteCnt, len(Sites)+1)
	ntasks := make([]*Task, len(tasks)+1)
	for i := range tasks {
		ntasks[i] = tasks[i]
	}
	ntasks[len(tasks)] = t
	tasks = ntasks
	go runTask(t)
}

// FreezeAfter arranges that the current task is stopped for good, at the
// first point at or after n further steps of its current operation (if held is
// false: where it holds no lock), until nobody else can go on.
//
//go:norace
func FreezeAfter(n uint64, held bool) {
	freezeT = cur
	freezeHeld = held
	freezeAt = cur.Steps + n
	if p := now + n; p < next {
		next = p
	}
}

//go:norace
func FreezeCancel() { freezeT = nil }

// FrozenSite tells where the task was stopped, or -9.
//
//go:norace
func FrozenSite() int32 { return frozenAt }

//go:norace
func freeze(t *Task, site int32) {
	freezeT = nil
	t.frozen = true
	frozenAt = site
	Stats.Freezes++
	to := forced(t, site)
	if to == nil || to == t {
		t.frozen = false
		return
	}
	handoff(t, to, site)
	park(t)
}

//go:norace
func frozenAny() bool {
	for _, t := range tasks {
		if t.frozen {
			return true
		}
	}
	return false
}

//go:norace
func thaw() {
	for _, t := range tasks {
		if t.state == stBlocked {
			w := make([][2]int, len(Waiters)+1)
			for i := range Waiters {
				w[i] = Waiters[i]
			}
			w[len(Waiters)] = [2]int{t.ID, int(t.op)}
			Waiters = w
		}
		t.frozen = false
	}
}
