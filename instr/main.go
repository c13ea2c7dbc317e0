// instr reads the current sources of a Go module and writes instrumented
// copies plus a `go build -overlay` file. It never writes into the module.
//
//	instr -repo /repo -out DIR -sim /verif/sim
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	simName = "zzsim"
)

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type fileEdits struct {
	name  string
	src   []byte
	edits []edit
}

func (f *fileEdits) ins(off int, text string) {
	f.edits = append(f.edits, edit{off, off, text, len(f.edits)})
}
func (f *fileEdits) rep(off, end int, text string) {
	f.edits = append(f.edits, edit{off, end, text, len(f.edits)})
}

func (f *fileEdits) apply() []byte {
	es := f.edits
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		// insertions before replacements at the same offset
		ii, jj := es[i].end == es[i].off, es[j].end == es[j].off
		if ii != jj {
			return ii
		}
		return es[i].seq < es[j].seq
	})
	var out []byte
	pos := 0
	for _, e := range es {
		if e.off < pos {
			fatal("overlapping edits in %s at %d", f.name, e.off)
		}
		out = append(out, f.src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, f.src[pos:]...)
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

type site struct {
	Pos  string
	Func string
}

type loader struct {
	fset    *token.FileSet
	repo    string
	module  string
	std     types.Importer
	pkgs    map[string]*types.Package
	order   []*pkgInfo
	loading map[string]bool
}

type pkgInfo struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	srcs  [][]byte
	info  *types.Info
	pkg   *types.Package
}

func (l *loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path == l.module || strings.HasPrefix(path, l.module+"/") {
		return l.load(path)
	}
	return l.std.Import(path)
}

func (l *loader) load(path string) (*types.Package, error) {
	if p := l.pkgs[path]; p != nil {
		return p, nil
	}
	if l.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.loading[path] = true
	dir := filepath.Join(l.repo, strings.TrimPrefix(strings.TrimPrefix(path, l.module), "/"))
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	pi := &pkgInfo{path: path, dir: dir}
	for _, name := range bp.GoFiles {
		full := filepath.Join(dir, name)
		src, err := os.ReadFile(full)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(l.fset, full, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		pi.files = append(pi.files, f)
		pi.names = append(pi.names, full)
		pi.srcs = append(pi.srcs, src)
	}
	pi.info = &types.Info{Instances: map[*ast.Ident]types.Instance{},
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: l}
	pkg, err := conf.Check(path, l.fset, pi.files, pi.info)
	if err != nil {
		return nil, err
	}
	pi.pkg = pkg
	l.pkgs[path] = pkg
	l.order = append(l.order, pi)
	return pkg, nil
}

var (
	sites    []site
	warnings []string
	counts   = map[string]int{}
)

func warn(format string, args ...any) { warnings = append(warnings, fmt.Sprintf(format, args...)) }

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "Pool": true, "WaitGroup": true,
	"Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}
var timeNames = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}
var randNames = map[string]bool{"Intn": true, "Int": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true,
	"Uint32": true, "Uint64": true, "Float64": true, "Float32": true, "Perm": true, "Shuffle": true, "IntN": true, "N": false, "Int64N": true}

type instr struct {
	l     *loader
	p     *pkgInfo
	fe    *fileEdits
	fname string // current function
	file  *ast.File
	nkey  int
}

func (in *instr) off(p token.Pos) int { return in.l.fset.Position(p).Offset }
func (in *instr) text(n ast.Node) string {
	return string(in.fe.src[in.off(n.Pos()):in.off(n.End())])
}

func (in *instr) newSite(p token.Pos) int {
	pos := in.l.fset.Position(p)
	rel, _ := filepath.Rel(in.l.repo, pos.Filename)
	sites = append(sites, site{fmt.Sprintf("%s:%d:%d", rel, pos.Line, pos.Column), in.fname})
	return len(sites) // site 0 is reserved
}

func isPtrKey(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	}
	return false
}

func simpleExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.CompositeLit:
			ok = false
		}
		return ok
	})
	return ok
}

// notes returns the extra calls to be put before a statement.
func (in *instr) notes(s ast.Stmt) string {
	as, ok := s.(*ast.AssignStmt)
	if !ok {
		return ""
	}
	out := ""
	for _, lhs := range as.Lhs {
		ix, ok := lhs.(*ast.IndexExpr)
		if !ok {
			continue
		}
		tv, ok := in.p.info.Types[ix.X]
		if !ok {
			continue
		}
		m, ok := tv.Type.Underlying().(*types.Map)
		if !ok || !isPtrKey(m.Key()) {
			continue
		}
		if !simpleExpr(ix.Index) {
			warn("%s: map key not noted", in.l.fset.Position(ix.Pos()))
			continue
		}
		out += fmt.Sprintf("%s.Note(%s); ", simName, in.text(ix.Index))
		counts["noted map inserts"]++
	}
	return out
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		id := in.newSite(s.Pos())
		inner := s
		for {
			if ls, ok := inner.(*ast.LabeledStmt); ok {
				inner = ls.Stmt
				continue
			}
			break
		}
		in.fe.ins(in.off(s.Pos()), fmt.Sprintf("%s.Y(%d); %s", simName, id, in.notes(s)))
		counts["yield points"]++
	}
}

func (in *instr) pkgName(e ast.Expr) string {
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := in.p.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (in *instr) rangeMap(r *ast.RangeStmt) {
	tv, ok := in.p.info.Types[r.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		switch tv.Type.Underlying().(type) {
		case *types.Chan:
			in.rangeChan(r)
		}
		return
	}
	in.nkey++
	counts["map ranges"]++
	v := fmt.Sprintf("zzE%d", in.nkey)
	src := in.fe.src
	// for [k[, v] :=] range X {
	start := in.off(r.For) + len("for")
	end := in.off(r.X.Pos())
	_ = src
	in.fe.rep(start, end, fmt.Sprintf(" _, %s := range %s.Ents(", v, simName))
	in.fe.ins(in.off(r.X.End()), ")")
	body := fmt.Sprintf(" if !%s.Live() { continue }; ", v)
	asg := func(e ast.Expr, val string) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		body += fmt.Sprintf("%s %s %s.%s; ", string(src[in.off(e.Pos()):in.off(e.End())]), r.Tok.String(), v, val)
	}
	asg(r.Key, "K")
	asg(r.Value, "Val()")
	in.fe.ins(in.off(r.Body.Lbrace)+1, body)
}

// rangeChan turns a range over a channel into a loop of receives.
func (in *instr) rangeChan(r *ast.RangeStmt) {
	counts["channel operations"]++
	if !simpleExpr(r.X) {
		warn("%s: range over channel is not simulated", in.l.fset.Position(r.Pos()))
		return
	}
	in.nkey++
	v, ok := fmt.Sprintf("zzV%d", in.nkey), fmt.Sprintf("zzO%d", in.nkey)
	name := "_"
	body := ""
	if r.Key != nil {
		key := in.text(r.Key)
		if key != "_" {
			name = v
			body = fmt.Sprintf("%s %s %s; ", key, r.Tok.String(), v)
		}
	}
	in.fe.rep(in.off(r.For)+len("for"), in.off(r.Body.Lbrace)+1, fmt.Sprintf(" { %s, %s := %s.Recv2(%s); if !%s { break }; %s", name, ok, simName, in.text(r.X), ok, body))
}

// selectStmt makes a select wait in the simulator.
func (in *instr) selectStmt(x *ast.SelectStmt) {
	counts["channel operations"]++
	hasDefault := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		in.fe.ins(in.off(cc.Colon)+1, " "+simName+".ChanWake(); ")
		switch y := cc.Comm.(type) {
		case *ast.SendStmt:
			commOps[y] = true
		case *ast.ExprStmt:
			commOps[ast.Unparen(y.X)] = true
		case *ast.AssignStmt:
			commOps[ast.Unparen(y.Rhs[0])] = true
		}
	}
	if hasDefault {
		return
	}
	if labelled[x] {
		warn("%s: a labelled select is not simulated", in.l.fset.Position(x.Pos()))
		return
	}
	in.nkey++
	in.fe.ins(in.off(x.Select), fmt.Sprintf("zzL%d: ", in.nkey))
	in.fe.ins(in.off(x.Body.Rbrace), fmt.Sprintf("default: %s.ChanBlock(); goto zzL%d; ", simName, in.nkey))
}

var (
	commOps  = map[ast.Node]bool{} // the operations of select clauses
	recv2    = map[ast.Node]bool{} // receives with a second value
	labelled = map[ast.Node]bool{}
)

func (in *instr) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.LabeledStmt:
			labelled[x.Stmt] = true
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				recv2[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				recv2[ast.Unparen(x.Values[0])] = true
			}
		case *ast.RangeStmt:
			in.rangeMap(x)
			if len(x.Body.List) == 0 {
				in.fe.ins(in.off(x.Body.Lbrace)+1, fmt.Sprintf(" %s.Y(%d); ", simName, in.newSite(x.Pos())))
			}
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				in.fe.ins(in.off(x.Body.Lbrace)+1, fmt.Sprintf(" %s.Y(%d); ", simName, in.newSite(x.Pos())))
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			var body *ast.BlockStmt
			switch y := x.(type) {
			case *ast.SwitchStmt:
				body = y.Body
			case *ast.TypeSwitchStmt:
				body = y.Body
			case *ast.SelectStmt:
				body = y.Body
				in.selectStmt(y)
			}
			switchBodies[body] = true
		case *ast.BlockStmt:
			if !switchBodies[x] {
				in.stmts(x.List)
			}
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.SendStmt:
			if !commOps[x] {
				counts["channel operations"]++
				in.fe.ins(in.off(x.Pos()), simName+".Send(")
				in.fe.rep(in.off(x.Arrow), in.off(x.Arrow)+2, ",")
				in.fe.ins(in.off(x.End()), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !commOps[x] {
				counts["channel operations"]++
				f := "Recv("
				if recv2[x] {
					f = "Recv2("
				}
				in.fe.rep(in.off(x.OpPos), in.off(x.OpPos)+2, simName+"."+f)
				in.fe.ins(in.off(x.End()), ")")
			}
		case *ast.GoStmt:
			counts["go statements"]++
			if tv := in.p.info.Types[x.Call.Fun]; len(x.Call.Args) > 0 && !tv.IsBuiltin() && !tv.IsType() && !in.generic(x.Call.Fun) {
				// the arguments are evaluated now
				f := ".GoCall("
				if x.Call.Ellipsis.IsValid() {
					f = ".GoSlice("
					in.fe.rep(in.off(x.Call.Ellipsis), in.off(x.Call.Ellipsis)+3, "")
				}
				in.fe.rep(in.off(x.Go), in.off(x.Call.Pos()), simName+f)
				in.fe.rep(in.off(x.Call.Lparen), in.off(x.Call.Lparen)+1, ", ")
				break
			}
			in.fe.rep(in.off(x.Go), in.off(x.Call.Pos()), simName+".Go(func() { ")
			in.fe.ins(in.off(x.Call.End()), " })")
		case *ast.SelectorExpr:
			switch in.pkgName(x.X) {
			case "sync":
				if syncNames[x.Sel.Name] {
					in.fe.rep(in.off(x.X.Pos()), in.off(x.X.End()), simName)
					counts["sync uses"]++
				}
			case "time":
				if timeNames[x.Sel.Name] {
					in.fe.rep(in.off(x.X.Pos()), in.off(x.X.End()), simName)
					counts["time uses"]++
				}
			case "math/rand", "math/rand/v2":
				if randNames[x.Sel.Name] {
					in.fe.rep(in.off(x.X.Pos()), in.off(x.X.End()), simName+".Rnd()")
					counts["rand uses"]++
				}
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
				_, builtin := in.p.info.Uses[id].(*types.Builtin)
				if builtin && id.Name == "close" {
					in.fe.rep(in.off(id.Pos()), in.off(id.End()), simName+".Close")
				}
				if builtin && id.Name == "make" {
					if _, ok := in.p.info.Types[x.Args[0]].Type.Underlying().(*types.Chan); ok {
						if len(x.Args) == 1 {
							in.fe.ins(in.off(x.Rparen), ", 1")
						} else if tv := in.p.info.Types[x.Args[1]]; tv.Value != nil && tv.Value.String() == "0" {
							in.fe.rep(in.off(x.Args[1].Pos()), in.off(x.Args[1].End()), "1")
						}
					}
				}
			}
			// uintptr(unsafe.Pointer(..))
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "uintptr" && len(x.Args) == 1 {
				if tv, ok := in.p.info.Types[x.Args[0]]; ok {
					if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						in.fe.rep(in.off(id.Pos()), in.off(id.End()), simName+".Addr")
						counts["pointer-to-integer conversions"]++
					}
				}
			}
		}
		return true
	})
}

// generic says whether e is a generic function whose type arguments are inferred.
func (in *instr) generic(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := in.p.info.Instances[x]
		return ok
	case *ast.SelectorExpr:
		_, ok := in.p.info.Instances[x.Sel]
		return ok
	case *ast.IndexExpr, *ast.IndexListExpr:
		return true
	}
	return false
}

var switchBodies = map[*ast.BlockStmt]bool{}

func nodeCount(n ast.Node) int {
	c := 0
	ast.Inspect(n, func(ast.Node) bool { c++; return true })
	return c
}

func main() {
	repo := flag.String("repo", "/repo", "module root")
	out := flag.String("out", "", "output directory")
	sim := flag.String("sim", "/verif/sim", "simulator sources")
	bridge := flag.Bool("bridge", true, "include the in-package bridge")
	flag.Parse()
	if *out == "" {
		fatal("need -out")
	}
	mod := ""
	data, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, line := range strings.Split(string(data), "\n") {
		if f := strings.Fields(line); len(f) == 2 && f[0] == "module" {
			mod = f[1]
		}
	}
	simPath := mod + "/internal/zzsim"
	build.Default.CgoEnabled = false
	l := &loader{fset: token.NewFileSet(), repo: *repo, module: mod, pkgs: map[string]*types.Package{}, loading: map[string]bool{}}
	l.std = importer.ForCompiler(token.NewFileSet(), "source", nil)
	if _, err := l.load(mod); err != nil {
		fatal("load: %v", err)
	}
	overlay := map[string]string{}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal("%v", err)
	}
	for _, p := range l.order {
		in := &instr{l: l, p: p}
		var resets []string
		ninit := 0
		edits := make([]*fileEdits, len(p.files))
		for i, f := range p.files {
			fe := &fileEdits{name: p.names[i], src: p.srcs[i]}
			edits[i] = fe
			in.fe, in.file = fe, f
			fe.ins(in.off(f.Name.End()), fmt.Sprintf("; import %s %q", simName, simPath))
			tail := fmt.Sprintf("\nvar _ = %s.Y\n", simName)
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				name := filepath.Base(path)
				if path == "math/rand/v2" {
					name = "rand"
				}
				if im.Name != nil {
					name = im.Name.Name
				}
				if name == "_" || name == "." {
					continue
				}
				switch path {
				case "sync":
					tail += fmt.Sprintf("\nvar _ %s.Locker\n", name)
				case "time":
					tail += fmt.Sprintf("\nvar _ %s.Duration\n", name)
				case "math/rand":
					tail += fmt.Sprintf("\nvar _ = %s.NewSource\n", name)
				case "math/rand/v2":
					tail += fmt.Sprintf("\nvar _ = %s.NewPCG\n", name)
				}
			}
			fe.ins(len(fe.src), tail)
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					in.fname = x.Name.Name
					if x.Recv != nil && len(x.Recv.List) > 0 {
						in.fname = in.text(x.Recv.List[0].Type) + "." + x.Name.Name
					}
					if x.Name.Name == "init" && x.Recv == nil {
						ninit++
						nm := fmt.Sprintf("zzInit%d", ninit)
						fe.rep(in.off(x.Name.Pos()), in.off(x.Name.End()), nm)
						fe.ins(in.off(x.End()), fmt.Sprintf("; func init() { %s() }", nm))
						resets = append(resets, "\t"+nm+"()")
					}
					if x.Type != nil {
						in.walk(x.Type)
					}
					if x.Recv != nil {
						in.walk(x.Recv)
					}
					if x.Body != nil {
						in.walk(x.Body)
					}
				case *ast.GenDecl:
					in.fname = "init"
					in.walk(x)
				}
			}
		}
		// reset of package variables, in initialisation order
		var lines []string
		// variables without initialiser
		for _, f := range p.files {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) != 0 || vs.Type == nil {
						continue
					}
					for _, id := range vs.Names {
						if id.Name == "_" {
							continue
						}
						lines = append(lines, fmt.Sprintf("\t%s.Zero(&%s)", simName, id.Name))
					}
				}
			}
		}
		// append the reset function to the file each initialiser came from: needs that file's imports
		gen := map[int]string{}
		for fi := range p.files {
			gen[fi] = ""
		}
		// one function per initialiser, in its own file, called in order
		var order []string
		n := 0
		for _, init := range p.initOrder() {
			if nodeCount(init.rhs) > 600 {
				continue
			}
			all := true
			for _, v := range init.lhs {
				if v != "_" {
					all = false
				}
			}
			if all {
				continue
			}
			n++
			fn := fmt.Sprintf("zzReset%d", n)
			gen[init.file] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(init.lhs, ", "), init.text(edits, p, l.fset))
			order = append(order, fn+"()")
		}
		for _, ln := range lines {
			order = append(order, strings.TrimSpace(ln))
		}
		counts["package variables reset between runs"] += len(order)
		for _, r := range resets {
			order = append(order, strings.TrimSpace(r))
		}
		gen[0] += fmt.Sprintf("\nfunc init() { %s.RegisterReset(func() {\n\t%s\n}) }\n", simName, strings.Join(order, "\n\t"))
		for i := range p.files {
			outName := filepath.Join(*out, "src", strings.ReplaceAll(strings.TrimPrefix(p.names[i], *repo+"/"), "/", "__"))
			os.MkdirAll(filepath.Dir(outName), 0o755)
			body := append(edits[i].apply(), gen[i]...)
			if err := os.WriteFile(outName, body, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[p.names[i]] = outName
		}
	}
	// site table
	var sb strings.Builder
	sb.WriteString("package zzsim\n\nfunc init() {\n\tSites = []SiteInfo{\n\t\t{\"op-start\", \"\"},\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t{%q, %q},\n", s.Pos, s.Func)
	}
	sb.WriteString("\t}\n}\n")
	sf := filepath.Join(*out, "src", "zz_sites.go")
	os.WriteFile(sf, []byte(sb.String()), 0o644)
	overlay[filepath.Join(*repo, "internal/zzsim/zz_sites.go")] = sf
	addDir := func(dir, to string) {
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, to, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	addDir(filepath.Join(*sim, "zzsim"), "internal/zzsim")
	addDir(filepath.Join(*sim, "zzmain"), "internal/zzmain")
	if *bridge {
		addDir(filepath.Join(*sim, "bridge"), ".")
	} else {
		addDir(filepath.Join(*sim, "bridge_stub"), ".")
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fatal("%v", err)
	}
	rep, _ := json.MarshalIndent(map[string]any{"sites": len(sites), "counts": counts, "warnings": warnings}, "", " ")
	os.WriteFile(filepath.Join(*out, "instr.json"), rep, 0o644)
	for _, w := range warnings {
		fmt.Fprintln(os.Stderr, "instr: warning:", w)
	}
}

type initInfo struct {
	lhs  []string
	rhs  ast.Expr
	file int
}

func (p *pkgInfo) initOrder() []initInfo {
	var res []initInfo
	for _, in := range p.info.InitOrder {
		ii := initInfo{rhs: in.Rhs}
		for _, v := range in.Lhs {
			ii.lhs = append(ii.lhs, v.Name())
		}
		for i, f := range p.files {
			if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < f.FileEnd {
				ii.file = i
			}
		}
		res = append(res, ii)
	}
	return res
}

// text returns the instrumented text of the initialiser expression.
func (ii initInfo) text(edits []*fileEdits, p *pkgInfo, fset *token.FileSet) string {
	fe := edits[ii.file]
	a, b := fset.Position(ii.rhs.Pos()).Offset, fset.Position(ii.rhs.End()).Offset
	sub := &fileEdits{name: fe.name, src: fe.src[a:b]}
	for _, e := range fe.edits {
		if e.off >= a && e.end <= b {
			e.off -= a
			e.end -= a
			sub.edits = append(sub.edits, e)
		}
	}
	return string(sub.apply())
}
