package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	quamina "quamina.net/go/quamina/v2"
	"quamina.net/go/quamina/v2/internal/zzsim"
)

const (
	stepLimit = 400_000_000 // no single operation needs so many steps
	runBudget = 40_000_000  // no more operations are begun after so many
)

var (
	curProgram *Program
	curRunner  *runner
	out        *bufio.Writer
	raceLog    string
)

// line is one record of a worker's output.
type line struct {
	T       string      `json:"t"` // v violation, s summary, d determinism
	Prop    string      `json:"prop,omitempty"`
	Scen    string      `json:"scen,omitempty"`
	Idx     int         `json:"idx"`
	Seed    uint64      `json:"seed,omitempty"`
	V       []Violation `json:"v,omitempty"`
	Replay  *Replay     `json:"replay,omitempty"`
	Sum     *summary    `json:"sum,omitempty"`
	Aborted bool        `json:"aborted,omitempty"`
	Hash    string      `json:"hash,omitempty"`
	Trace   []string    `json:"trace,omitempty"`
}

type summary struct {
	Runs     int                `json:"runs"`
	Steps    uint64             `json:"steps"`
	SimNanos int64              `json:"sim_nanos"`
	Ops      map[string]int     `json:"ops"`
	Faults   map[string]int     `json:"faults"`
	Seen     map[string]int     `json:"seen"`
	Scen     map[string]int     `json:"scen"`
	Strat    map[string]int     `json:"strat"`
	Counters zzsim.Counters     `json:"counters"`
	Hist     []uint64           `json:"hist"`
	Sched    []uint64           `json:"sched"`
	Reached  []int              `json:"reached"`
	WallMS   int64              `json:"wall_ms"`
	Nontriv  int                `json:"nontriv"`
	Det      int                `json:"det"`
	DetBad   int                `json:"det_bad"`
	Bridge   bool               `json:"bridge"`
	Next     map[string]int     `json:"-"`
	Timing   map[string]float64 `json:"-"`
}

type result struct {
	viol  []Violation
	steps uint64
	sched uint64
	hist  uint64
	r     *runner
	dec   []zzsim.Decision
	err   error
}

func execute(p *Program, dec []zzsim.Decision, replay bool) *result {
	zzsim.ResetAll()
	zzsim.Begin(zzsim.Config{Seed: p.Seed, Strat: p.Strat, Replay: replay, Decisions: dec, Limit: stepLimit, MapMode: p.MapMode, ClockJump: p.Jump, PoolEvict: p.Evict})
	zzsim.MarkRaces()
	r := newRunner(p)
	curProgram, curRunner = p, r
	err := r.run()
	res := &result{r: r, err: err}
	res.steps = zzsim.Step()
	res.sched = zzsim.SchedHash()
	res.dec = zzsim.Decisions()
	if err == nil {
		r.judge()
		zzsim.EndSolo()
		r.judgeRaces()
	}
	res.viol = r.viol
	res.hist = r.histHash()
	return res
}

// histHash identifies what the callers saw, in the order they saw it.
func (r *runner) histHash() uint64 {
	h := uint64(0)
	for t := range r.recs {
		for _, rec := range r.recs[t] {
			h = zzsim.Mix(h, uint64(rec.Op.ID), rec.Inv, rec.Resp, zzsim.HashString(strings.Join(rec.Res, "\x00")+rec.Err+rec.Panic+rec.Misuse))
			if rec.Stats != nil {
				h = zzsim.Mix(h, uint64(rec.Stats["states"]), uint64(rec.Stats["bytes"]))
			}
		}
	}
	return h
}

func (r *runner) judgeRaces() {
	if zzsim.NewRaces() == 0 {
		return
	}
	text := zzsim.RaceText()
	if text == "" {
		r.seen["harness-race"]++
		return
	}
	props := []string{"C12"}
	if len(r.p.Groups) > 1 {
		props = append(props, "C11")
	}
	r.bad("race", -1, "the race detector reported: "+text, props...)
}

// abortProps: a run that cannot go on.
func (r *runner) abortViol(kind, detail string) {
	props := []string{"C15"}
	if len(r.p.Groups) > 1 {
		props = append(props, "C11")
	}
	for i := range r.p.Groups {
		if r.p.Groups[i].Deletion {
			props = append(props, "C09")
		}
	}
	c := context{}
	for t := range r.recs {
		for _, rec := range r.recs[t] {
			if rec.Op.Kind == "match" && (r.p.Events[rec.Op.E].Bad != 0 || rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "flat")) {
				c.badEvent = true
			}
			if rec.Op.Kind == "add" && rec.Err != "" {
				c.badAdd = true
			}
			if rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "store") {
				c.storeFault = true
			}
		}
	}
	if c.badEvent {
		props = append(props, "C14", "C19")
	}
	if c.badAdd {
		props = append(props, "C05")
	}
	if c.storeFault {
		props = append(props, "C17")
	}
	r.viol = append([]Violation{{Props: uniq(props), Kind: kind, Op: -1, Detail: detail}}, r.viol...)
}

// mayExplode tells whether an operation that took very many steps may just have
// been building a very large automaton: that is what BuiltForSpeed is documented
// to risk. Adding does, and, with deletion, rebuilding.
func (r *runner) mayExplode() bool {
	speed := false
	for _, ops := range append([][]Op{r.p.Setup, r.p.Final}, r.p.Conc...) {
		for i := range ops {
			speed = speed || ops[i].Kind == "mode" && ops[i].Mode == 1
		}
	}
	if !speed {
		return false
	}
	c := zzsim.Cur()
	if c == nil || c.ID >= len(r.recs) || len(r.recs[c.ID]) == 0 {
		return true
	}
	l := r.recs[c.ID]
	op := l[len(l)-1].Op
	return op.Kind == "add" || r.p.Groups[op.G].Deletion
}

func emit(l *line) {
	b, err := json.Marshal(l)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(2)
	}
	out.Write(b)
	out.WriteByte('\n')
	out.Flush()
}

func mkReplay(p *Program, v Violation, dec []zzsim.Decision) *Replay {
	bin := "plain"
	if zzsim.RaceEnabled {
		bin = "race"
	}
	return &Replay{Binary: bin, Violation: v, Program: p, Decisions: dec}
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMaxStack(128 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzmain batch|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "batch":
		batch(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	case "gen":
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		b, _ := json.MarshalIndent(genProgram(seed, os.Args[2]), "", " ")
		fmt.Println(string(b))
	case "seedof":
		var master uint64
		var i int
		fmt.Sscan(os.Args[2], &master)
		fmt.Sscan(os.Args[4], &i)
		fmt.Println(seedOf(master, os.Args[3], i))
	case "sites":
		for i := range zzsim.Sites {
			fmt.Println(i, zzsim.SiteName(int32(i)))
		}
	default:
		os.Exit(2)
	}
}

// seedOf names the i-th run of a scenario under a master seed.
func seedOf(master uint64, scen string, i int) uint64 {
	return zzsim.Mix(master, zzsim.HashString(scen), uint64(i)) >> 1
}

func batch(args []string) {
	fs := flag.NewFlagSet("batch", flag.ExitOnError)
	master := fs.Uint64("seed", 1, "")
	scens := fs.String("scens", "adds", "comma list of scenario:runs")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	from := fs.Int("from", 0, "resume after this many runs of the flattened list")
	budget := fs.Float64("budget", 1e9, "seconds")
	outf := fs.String("out", "/dev/stdout", "")
	progress := fs.String("progress", "", "")
	det := fs.Int("det", 0, "re-run every n-th program and compare")
	maxv := fs.Int("maxv", 4, "stop after so many violating runs")
	prop := fs.String("prop", "", "report only violations of this property")
	fs.Parse(args)
	f, err := os.OpenFile(*outf, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out = bufio.NewWriter(f)
	var pf *os.File
	if *progress != "" {
		pf, err = os.Create(*progress)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	type item struct {
		scen string
		i    int
	}
	var items []item
	// interleave the scenarios so that a time limit hits them all alike
	type sc struct {
		name string
		n, i int
	}
	var l []*sc
	most := 0
	for _, s := range strings.Split(*scens, ",") {
		nm, cnt, _ := strings.Cut(s, ":")
		c := 100
		fmt.Sscan(cnt, &c)
		l = append(l, &sc{nm, c, 0})
		if c > most {
			most = c
		}
	}
	for step := 1; step <= most; step++ {
		for _, s := range l {
			for s.i < s.n*step/most {
				items = append(items, item{s.name, s.i})
				s.i++
			}
		}
	}
	sum := &summary{Ops: map[string]int{}, Faults: map[string]int{}, Seen: map[string]int{}, Scen: map[string]int{}, Strat: map[string]int{}, Bridge: quamina.ZZBridge}
	start := time.Now()
	histSeen, schedSeen := map[uint64]bool{}, map[uint64]bool{}
	nviol := 0
	finish := func() {
		sum.WallMS = time.Since(start).Milliseconds()
		for h := range histSeen {
			sum.Hist = append(sum.Hist, h)
		}
		for h := range schedSeen {
			sum.Sched = append(sum.Sched, h)
		}
		sum.Reached = zzsim.Reached()
		emit(&line{T: "s", Sum: sum})
	}
	var at item
	var atPos int
	zzsim.AbortHook = func(kind, detail string) {
		r := curRunner
		dec := zzsim.Decisions()
		if trying || kind == "steps" && r.mayExplode() {
			// a big automaton, not a hang: nothing can be said about this run
			sum.Seen["exploded"]++
			emit(&line{T: "v", Scen: at.scen, Idx: at.i, Seed: curProgram.Seed, Aborted: true})
			finish()
			os.Exit(3)
		}
		r.abortViol(kind, detail)
		func() {
			defer func() { recover() }()
			r.judge()
		}()
		v := r.viol
		emit(&line{T: "v", Scen: at.scen, Idx: at.i, Seed: curProgram.Seed, V: v, Replay: mkReplay(curProgram, v[0], dec), Aborted: true})
		finish()
		os.Exit(3)
	}
	for pos, it := range items {
		if pos%*shards != *shard || pos < *from {
			continue
		}
		if time.Since(start).Seconds() > *budget {
			sum.Seen["out-of-time"]++
			break
		}
		at, atPos = it, pos
		_ = atPos
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12d %-16s %-10d\n", pos, it.scen, it.i)), 0)
		}
		seed := seedOf(*master, it.scen, it.i)
		p := genProgram(seed, it.scen)
		res := execute(p, nil, false)
		if res.err != nil {
			fmt.Fprintln(os.Stderr, "cannot set up an instance:", res.err)
			os.Exit(4)
		}
		r := res.r
		sum.Runs++
		sum.Scen[it.scen]++
		sum.Strat[p.Strat.Kind]++
		sum.Steps += res.steps
		sum.SimNanos += zzsim.SimNanos()
		nontriv := r.nontrivial(*prop)
		if nontriv {
			sum.Nontriv++
			histSeen[res.hist] = true
			if sum.Nontriv <= 2 && *shard == 0 {
				emit(&line{T: "x", Scen: it.scen, Idx: it.i, Seed: seed, Trace: r.trace(40)})
			}
		}
		if len(p.Conc) > 1 {
			schedSeen[zzsim.Mix(res.sched, zzsim.HashString(it.scen))] = true
		}
		for t := range r.recs {
			for _, rec := range r.recs[t] {
				sum.Ops[rec.Op.Kind]++
				if rec.Op.Kind == "add" && rec.Err != "" {
					sum.Seen["failed-add"]++
				}
				if rec.Op.Kind == "match" && r.p.Events[rec.Op.E].Bad != 0 {
					sum.Faults["damaged-event"]++
				}
			}
		}
		for _, m := range r.faults {
			for k, v := range m {
				sum.Faults[k] += v
			}
		}
		for k, v := range r.seen {
			sum.Seen[k] += v
		}
		addCounters(&sum.Counters, &zzsim.Stats)
		if *det > 0 && sum.Runs%*det == 0 {
			sum.Det++
			p2 := genProgram(seed, it.scen)
			res2 := execute(p2, nil, false)
			if res2.hist != res.hist || res2.sched != res.sched || res2.steps != res.steps {
				sum.DetBad++
				if os.Getenv("ZZ_TRACE") != "" {
					a, b := r.trace(100000), res2.r.trace(100000)
					for i := range a {
						if i >= len(b) || a[i] != b[i] {
							fmt.Fprintf(os.Stderr, "%s\n%s\n", a[i], strings.Join(b[min(i, len(b)):min(i+1, len(b))], ""))
							break
						}
					}
				}
				emit(&line{T: "d", Scen: it.scen, Idx: it.i, Seed: seed, Hash: fmt.Sprintf("%x/%x/%d vs %x/%x/%d", res.hist, res.sched, res.steps, res2.hist, res2.sched, res2.steps)})
			}
		}
		if len(res.viol) > 0 {
			if *prop != "" && !hasProp(res.viol, *prop) {
				causes(p, res, *prop)
			}
			var v []Violation
			for _, x := range res.viol {
				if *prop == "" || x.has(*prop) {
					v = append(v, x)
				}
			}
			if len(v) > 0 {
				emit(&line{T: "v", Scen: it.scen, Idx: it.i, Seed: seed, V: v, Replay: mkReplay(p, v[0], res.dec)})
				nviol++
				if nviol >= *maxv {
					sum.Seen["stopped-early"]++
					break
				}
			} else {
				sum.Seen["other-property"]++
			}
		}
	}
	finish()
}

func addCounters(a, b *zzsim.Counters) {
	a.Switches += b.Switches
	a.Preemptions += b.Preemptions
	a.Stalls += b.Stalls
	a.Blocks += b.Blocks
	a.PoolEvict += b.PoolEvict
	a.PoolReuse += b.PoolReuse
	a.ClockReads += b.ClockReads
	a.ClockJumps += b.ClockJumps
	a.Freezes += b.Freezes
	a.Missed += b.Missed
}

// replayCmd runs a replay file and prints what happened, as one JSON line.
func replayCmd(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	outf := fs.String("out", "/dev/stdout", "")
	byseed := fs.Bool("generated", false, "ignore the recorded schedule and schedule from the seed")
	scen := fs.String("scen", "", "generate this scenario instead of reading a file")
	seed := fs.Uint64("seed", 0, "")
	fs.Parse(args)
	f, err := os.OpenFile(*outf, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out = bufio.NewWriter(f)
	var rp Replay
	if *scen != "" {
		rp.Program = genProgram(*seed, *scen)
		*byseed = true
	} else {
		b, err := os.ReadFile(fs.Arg(0))
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	zzsim.AbortHook = func(kind, detail string) {
		r := curRunner
		dec := zzsim.Decisions()
		if trying || kind == "steps" && r.mayExplode() {
			emit(&line{T: "r", Aborted: true})
			os.Exit(3)
		}
		r.abortViol(kind, detail)
		func() {
			defer func() { recover() }()
			r.judge()
		}()
		emit(&line{T: "r", V: r.viol, Aborted: true, Replay: mkReplay(curProgram, r.viol[0], dec), Trace: r.trace(400)})
		if os.Getenv("ZZ_TRACE") != "" {
			printTrace(r)
		}
		os.Exit(3)
	}
	res := execute(rp.Program, rp.Decisions, !*byseed)
	if res.err != nil {
		fmt.Fprintln(os.Stderr, res.err)
		os.Exit(4)
	}
	l := &line{T: "r", Hash: fmt.Sprintf("%x/%x/%d", res.hist, res.sched, res.steps)}
	if rp.Property != "" && !hasProp(res.viol, rp.Property) {
		causes(rp.Program, res, rp.Property)
	}
	l.V = res.viol
	l.Replay = &Replay{Program: rp.Program, Decisions: res.dec}
	l.Trace = res.r.trace(400)
	emit(l)
	if os.Getenv("ZZ_TRACE") != "" {
		printTrace(res.r)
	}
}

func printTrace(r *runner) {
	for _, l := range r.trace(1 << 30) {
		fmt.Println(l)
	}
}

// trace is the history in readable form, each instance's by itself.
func (r *runner) trace(max int) []string {
	var l []string
	for _, h := range r.histories() {
		for _, rec := range h.all {
			what := rec.Op.Kind
			switch rec.Op.Kind {
			case "add":
				what = fmt.Sprintf("AddPattern(%s, %s)", rec.Op.X, r.p.Patterns[rec.Op.P].Text)
			case "del":
				what = fmt.Sprintf("DeletePatterns(%s)", rec.Op.X)
			case "match":
				what = fmt.Sprintf("MatchesForEvent(%s) = %v", r.p.Events[rec.Op.E].Text, rec.Res)
			}
			if rec.Err != "" {
				what += " error: " + rec.Err
			}
			if rec.Panic != "" {
				what += " panic: " + rec.Panic
			}
			if rec.FaultHit {
				what += " [injected: " + rec.Op.Fault + "]"
			}
			if rec.Op.Freeze > 0 {
				what += fmt.Sprintf(" [caller stopped after %d steps]", rec.Op.Freeze)
			}
			end := fmt.Sprint(rec.Resp)
			if !rec.Done {
				end = "not finished"
			}
			l = append(l, fmt.Sprintf("instance %d task %d copy %d op %d [%d..%s] %s", rec.Op.G, rec.Task, rec.Handle, rec.Op.ID, rec.Inv, end, what))
			if len(l) >= max {
				return l
			}
		}
	}
	return l
}

// nontrivial says whether the run put the property to the test.
func (r *runner) nontrivial(prop string) bool {
	n := map[string]int{}
	for t := range r.recs {
		for _, rec := range r.recs[t] {
			n[rec.Op.Kind]++
			if rec.Op.Kind == "add" && rec.Err != "" && !rec.FaultHit {
				n["badadd"]++
			}
			if rec.Op.Kind == "match" && r.p.Events[rec.Op.E].Bad != 0 {
				n["badev"]++
			}
			if rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "flat") {
				n["badev"]++
			}
			if rec.FaultHit && strings.HasPrefix(rec.Op.Fault, "store") {
				n["store"]++
			}
		}
	}
	again := false
	for _, h := range r.hists {
		for x, ds := range h.delX {
			for _, rg := range h.byX[x] {
				again = again || rg.inv > ds[0].inv && rg.order > 0
			}
		}
	}
	conc := len(r.p.Conc) > 1
	req := r.seen["required"] > 0
	switch prop {
	case "C02":
		return n["add"] > 0 && n["match"] > 0
	case "C03":
		return conc && req
	case "C04":
		return r.seen["fresh"] > 0 && req
	case "C05":
		return n["badadd"] > 0 && req
	case "C06", "C08", "C09":
		return n["del"] > 0 && req
	case "C07":
		return again && req
	case "C10":
		return r.seen["purged"] > 0
	case "C11":
		return len(r.p.Groups) > 1 && req
	case "C12", "C15":
		return conc && n["match"] > 0
	case "C13":
		return r.seen["retained"] > 0
	case "C14":
		return n["badev"] > 0 && n["match"] > n["badev"]
	case "C16":
		return conc && req
	case "C17":
		return n["store"] > 0 && n["match"] > 0
	case "C18":
		return r.seen["reread"]+r.seen["restat"]+r.seen["twin"] > 0
	case "C19":
		for _, g := range r.p.Groups {
			if g.Flat {
				return n["match"] > 0
			}
		}
		return false
	}
	return req
}
