// Command trcinstr writes a copy of the repository (and of the dependencies
// that start goroutines) in which scheduling, clocks, channels, randomness and
// pools belong to the simulator. It works on any source that type-checks; it
// knows nothing about particular functions of the repository.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Export     string
	Standard   bool
	Module     *struct {
		Path, Dir, GoMod, GoVersion string
		Main                        bool
	}
	Error *struct{ Err string }
}

var simImports = map[string]string{
	"sync":        "trcsim/sync",
	"sync/atomic": "trcsim/sync/atomic",
	"time":        "trcsim/time",
	"context":     "trcsim/context",
	"math/rand":   "trcsim/math/rand",
	"crypto/rand": "trcsim/crypto/rand",
	"os/signal":   "trcsim/os/signal",
}

// Third-party modules which take part in the behaviour and so run instrumented.
// The value says whether statements get yield points.
var thirdParty = map[string]bool{
	"github.com/bernerdschaefer/eventsource": true,
	"github.com/oklog/run":                   true,
	"github.com/oklog/ulid/v2":               false,
}

var (
	repo         = flag.String("repo", "/repo", "repository")
	out          = flag.String("out", "", "output directory")
	level        = flag.Int("level", 2, "2 full, 1 no read-modify-write splitting, 0 synchronization points only")
	site  uint32 = 1000
)

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,EmbedFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	byPath := map[string]*pkgInfo{}
	var order []*pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		byPath[p.ImportPath] = &p
		order = append(order, &p)
	}

	type modOut struct{ dir, goMod, path string }
	mods := map[string]modOut{}
	var report []string
	for _, p := range order {
		if p.Standard || p.Module == nil {
			continue
		}
		yields, third := thirdParty[p.Module.Path]
		if !p.Module.Main && !third {
			continue
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		lvl := *level
		if third && !yields {
			lvl = -1
		} else if third && lvl > 0 {
			lvl = 1
		}
		root := filepath.Join(*out, "mod", strings.ReplaceAll(p.Module.Path, "/", "_"))
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		if _, ok := mods[p.Module.Path]; !ok {
			mods[p.Module.Path] = modOut{root, p.Module.GoMod, p.Module.Path}
			if err := os.MkdirAll(root, 0o755); err != nil {
				die("%v", err)
			}
			gm, err := os.ReadFile(filepath.Join(p.Module.Dir, "go.mod"))
			if err != nil {
				gm = []byte("module " + p.Module.Path + "\n\ngo 1.17\n")
			}
			gm = bumpGo(gm)
			write(filepath.Join(root, "go.mod"), gm)
		}
		ip := &instr{p: p, level: lvl, lookup: byPath, outDir: filepath.Join(root, rel)}
		ip.run()
		report = append(report, fmt.Sprintf("%s level=%d files=%d yields=%d rmw=%d chanops=%d maps=%d gos=%d globals=%d", p.ImportPath, lvl, len(p.GoFiles), ip.nY, ip.nRMW, ip.nChan, ip.nMap, ip.nGo, ip.nGlob))
	}
	for _, r := range report {
		fmt.Println(r)
	}
}

// bumpGo makes sure that the language version has generics, leaving the loop
// variable semantics (1.22) alone.
func bumpGo(gm []byte) []byte {
	lines := strings.Split(string(gm), "\n")
	found := false
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			found = true
			if v := strings.Split(f[1], "."); len(v) > 1 {
				if n, err := strconv.Atoi(v[1]); err == nil && n < 21 {
					lines[i] = "go 1.21"
				}
			}
		}
	}
	if !found {
		lines = append(lines, "go 1.21", "")
	}
	return []byte(strings.Join(lines, "\n"))
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
}

type edit struct {
	start, end int
	seq        int
	text       func() string
}

type instr struct {
	p      *pkgInfo
	level  int
	lookup map[string]*pkgInfo
	outDir string

	fset *token.FileSet
	info *types.Info
	pkg  *types.Package

	// per file
	src   []byte
	file  *token.File
	edits []edit
	tmp   int

	nY, nRMW, nChan, nMap, nGo, nGlob int
}

func (in *instr) run() {
	in.fset = token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range append(append([]string{}, in.p.GoFiles...), in.p.CgoFiles...) {
		b, err := os.ReadFile(filepath.Join(in.p.Dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(in.fset, filepath.Join(in.p.Dir, f), b, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files, srcs = append(files, af), append(srcs, b)
	}
	in.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
			p := in.lookup[path]
			if p == nil || p.Export == "" {
				// vendored std paths
				p = in.lookup["vendor/"+path]
			}
			if p == nil || p.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(p.Export)
		}),
		Error: func(error) {},
	}
	if in.p.Module != nil && in.p.Module.GoVersion != "" {
		conf.GoVersion = "go" + in.p.Module.GoVersion
	}
	pkg, err := conf.Check(in.p.ImportPath, in.fset, files, in.info)
	if err != nil {
		die("type-checking %s: %v", in.p.ImportPath, err)
	}
	in.pkg = pkg

	// Where each package-level variable's reset function goes.
	fileOf := map[*ast.File]int{}
	for i, f := range files {
		fileOf[f] = i
	}
	type initFn struct{ name string }
	tails := make([]strings.Builder, len(files))
	var resetCalls []string

	embedVar := map[types.Object]bool{}
	declFile := map[types.Object]int{}
	for i, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				emb := hasEmbed(vs.Doc) || (len(gd.Specs) == 1 && hasEmbed(gd.Doc))
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					o := in.info.Defs[n]
					declFile[o] = i
					if emb {
						embedVar[o] = true
					} else if len(vs.Values) == 0 && in.level >= -1 {
						fn := fmt.Sprintf("simZero_%s", n.Name)
						fmt.Fprintf(&tails[i], "\nfunc %s() { simrt.Zero(&%s) }\n", fn, n.Name)
						resetCalls = append(resetCalls, fn)
						in.nGlob++
					}
				}
			}
		}
	}

	type pending struct {
		file  int
		fn    string
		names []string
		rhs   ast.Expr
	}
	var pend []pending
	for k, ini := range in.info.InitOrder {
		var names []string
		fi, skip := -1, true
		for _, v := range ini.Lhs {
			if v.Name() == "_" {
				names = append(names, "_")
				continue
			}
			if embedVar[v] {
				continue
			}
			names = append(names, v.Name())
			fi = declFile[v]
			skip = false
		}
		if skip {
			continue
		}
		fn := fmt.Sprintf("simInit_%d", k)
		pend = append(pend, pending{fi, fn, names, ini.Rhs})
		resetCalls = append(resetCalls, fn)
		in.nGlob++
	}

	isMain := in.p.Name == "main"
	for i, f := range files {
		in.src = srcs[i]
		in.file = in.fset.File(f.Pos())
		in.edits = nil
		in.rewriteFile(f, isMain)
		for _, pd := range pend {
			if pd.file != i {
				continue
			}
			a, b := in.off(pd.rhs.Pos()), in.off(pd.rhs.End())
			fmt.Fprintf(&tails[i], "\nfunc %s() { %s = %s }\n", pd.fn, strings.Join(pd.names, ", "), in.emit(a, b, true))
		}
		body := in.emit(0, len(in.src), false)
		body += "\nconst _ = simrt.Used\n" + tails[i].String()
		write(filepath.Join(in.outDir, filepath.Base(in.fset.Position(f.Pos()).Filename)), []byte(body))
	}

	// Resets and, for a command, an entry point.
	var b strings.Builder
	name := in.p.Name
	if isMain {
		name = "trccmd"
	}
	fmt.Fprintf(&b, "package %s\n\nimport simrt \"trcsim/rt\"\n", name)
	if isMain {
		if ex := in.findExec(); ex != "" {
			b.WriteString("import simcontext \"context\"\nimport simio \"io\"\n")
			fmt.Fprintf(&b, "\nfunc SimExec(ctx simcontext.Context, stdin simio.Reader, stdout, stderr simio.Writer, args []string) error { return %s(ctx, stdin, stdout, stderr, args) }\n", ex)
		}
	}
	fmt.Fprintf(&b, "\nfunc init() {\n\tsimrt.RegisterReset(%q, func() {\n", in.p.ImportPath)
	for _, c := range resetCalls {
		fmt.Fprintf(&b, "\t\t%s()\n", c)
	}
	b.WriteString("\t})\n}\n")
	write(filepath.Join(in.outDir, "zz_sim_reset.go"), []byte(b.String()))

	for _, e := range in.p.EmbedFiles {
		c, err := os.ReadFile(filepath.Join(in.p.Dir, e))
		if err != nil {
			die("%v", err)
		}
		write(filepath.Join(in.outDir, e), c)
	}
}

func hasEmbed(cg *ast.CommentGroup) bool {
	if cg == nil {
		return false
	}
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

// findExec finds the command's testable entry point by its signature.
func (in *instr) findExec() string {
	want := "func(context.Context, io.Reader, io.Writer, io.Writer, []string) error"
	sc := in.pkg.Scope()
	for _, n := range sc.Names() {
		fn, ok := sc.Lookup(n).(*types.Func)
		if !ok {
			continue
		}
		sig := fn.Type().(*types.Signature)
		if sig.Recv() != nil || sig.Variadic() || sig.TypeParams() != nil {
			continue
		}
		var ps []string
		for i := 0; i < sig.Params().Len(); i++ {
			ps = append(ps, types.TypeString(sig.Params().At(i).Type(), func(p *types.Package) string { return p.Name() }))
		}
		var rs []string
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, types.TypeString(sig.Results().At(i).Type(), func(p *types.Package) string { return p.Name() }))
		}
		if "func("+strings.Join(ps, ", ")+") "+strings.Join(rs, ", ") == want {
			return n
		}
	}
	return ""
}

func (in *instr) off(p token.Pos) int { return in.file.Offset(p) }

func (in *instr) add(start, end int, f func() string) {
	in.edits = append(in.edits, edit{start, end, len(in.edits), f})
}

func (in *instr) insert(at int, s string) { in.add(at, at, func() string { return s }) }

// emit renders src[start:end] with the edits inside it applied. inner leaves
// out the insertions at the very start, which belong to the enclosing statement.
func (in *instr) emit(start, end int, inner bool) string {
	return in.emitBelow(start, end, inner, 1<<30)
}

// emitBelow is emit, without the edits of exactly this range numbered below or
// more: it renders what such a wrapping edit wraps.
func (in *instr) emitBelow(start, end int, inner bool, below int) string {
	var es []edit
	for _, e := range in.edits {
		if e.start >= start && e.end <= end {
			if inner && e.start == e.end && (e.start == start || e.start == end) {
				continue
			}
			if e.start == start && e.end == end && e.seq >= below {
				continue
			}
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.start != b.start {
			return a.start < b.start
		}
		az, bz := a.start == a.end, b.start == b.end
		if az != bz {
			return az // insertions first
		}
		if az {
			return a.seq < b.seq
		}
		if a.end != b.end {
			return a.end > b.end // outermost first
		}
		return a.seq > b.seq // later edits wrap earlier ones
	})
	var o strings.Builder
	pos := start
	for _, e := range es {
		if e.start < pos {
			continue // inside an edit already rendered
		}
		o.Write(in.src[pos:e.start])
		o.WriteString(e.text())
		pos = e.end
	}
	o.Write(in.src[pos:end])
	return o.String()
}

// node renders a node strictly inside of an edit covering more than it.
func (in *instr) node(n ast.Node) string {
	return in.emit(in.off(n.Pos()), in.off(n.End()), true)
}

func nextSite() uint32 { site++; return site }

func (in *instr) rewriteFile(f *ast.File, isMain bool) {
	// package clause
	if isMain {
		in.add(in.off(f.Name.Pos()), in.off(f.Name.End()), func() string { return "trccmd; import simrt \"trcsim/rt\"" })
	} else {
		in.insert(in.off(f.Name.End()), "; import simrt \"trcsim/rt\"")
	}
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if r, ok := simImports[path]; ok {
			in.add(in.off(is.Path.Pos()), in.off(is.Path.End()), func() string { return strconv.Quote(r) })
		} else if path == "math/rand/v2" || path == "testing/synctest" {
			fmt.Fprintf(os.Stderr, "instr: warning: %s is not simulated (%s)\n", path, in.p.ImportPath)
		}
	}
	if in.level < 0 {
		// Only the methods of its stateful parts.
		in.level = 2
		defer func() { in.level = -1 }()
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && stateful(fd.Recv) {
				in.walk(d, nil)
			}
		}
		return
	}
	for _, d := range f.Decls {
		in.walk(d, nil)
	}
}

// stateful tells whether a method belongs to a source of randomness.
func stateful(recv *ast.FieldList) bool {
	if len(recv.List) != 1 {
		return false
	}
	star, ok := recv.List[0].Type.(*ast.StarExpr)
	if !ok {
		return false
	}
	id, ok := star.X.(*ast.Ident)
	return ok && (strings.Contains(id.Name, "Entropy") || strings.Contains(id.Name, "Reader"))
}

// walk visits nodes with knowledge of the enclosing function.
func (in *instr) walk(n ast.Node, fn ast.Node) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case *ast.FuncDecl:
		if x.Body != nil {
			in.walk(x.Body, x)
		}
		return
	case *ast.FuncLit:
		in.walk(x.Body, x)
		return
	case *ast.BlockStmt:
		in.stmts(x.List, fn)
		return
	case *ast.CaseClause:
		for _, e := range x.List {
			in.walk(e, fn)
		}
		in.stmts(x.Body, fn)
		return
	case *ast.SelectStmt:
		in.selectStmt(x, fn)
		return
	case *ast.GoStmt:
		in.goStmt(x, fn)
		return
	case *ast.SendStmt:
		in.walk(x.Chan, fn)
		in.walk(x.Value, fn)
		in.nChan++
		in.add(in.off(x.Pos()), in.off(x.End()), func() string {
			return "simrt.To(" + in.node(x.Chan) + ")(" + in.node(x.Value) + ")"
		})
		return
	case *ast.UnaryExpr:
		in.walk(x.X, fn)
		if x.Op == token.ARROW {
			in.recv(x, false)
		}
		return
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for _, l := range x.Lhs {
					in.walk(l, fn)
				}
				in.walk(u.X, fn)
				in.recv(u, true)
				return
			}
		}
		for _, l := range x.Lhs {
			in.walk(l, fn)
		}
		for _, r := range x.Rhs {
			in.walk(r, fn)
		}
		in.rmwAssign(x, fn)
		return
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				in.walk(u.X, fn)
				in.recv(u, true)
				return
			}
		}
		for _, v := range x.Values {
			in.walk(v, fn)
		}
		return
	case *ast.IncDecStmt:
		in.walk(x.X, fn)
		if in.level >= 2 && in.shared(x.X, fn) && in.pure(x.X) {
			in.nRMW++
			id := nextSite()
			in.add(in.off(x.Pos()), in.off(x.End()), func() string {
				t := in.node(x.X)
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				return fmt.Sprintf("%s = simrt.YV(%d, %s) %s 1", t, id, t, op)
			})
		}
		return
	case *ast.CallExpr:
		in.walk(x.Fun, fn)
		for _, a := range x.Args {
			in.walk(a, fn)
		}
		in.call(x)
		return
	case *ast.RangeStmt:
		in.rangeStmt(x, fn)
		return
	case *ast.ForStmt:
		in.walk(x.Init, fn)
		in.walk(x.Cond, fn)
		in.walk(x.Post, fn)
		if len(x.Body.List) == 0 {
			in.insert(in.off(x.Body.Lbrace)+1, fmt.Sprintf(" simrt.Y(%d); ", nextSite()))
		}
		in.walk(x.Body, fn)
		return
	}
	// Generic descent.
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}
		if first {
			first = false
			return true
		}
		in.walk(c, fn)
		return false
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *instr) stmts(list []ast.Stmt, fn ast.Node) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		_, isCase := s.(*ast.CaseClause)
		if in.level >= 1 && !isCase {
			in.nY++
			in.insert(in.off(s.Pos()), fmt.Sprintf("simrt.Y(%d); ", nextSite()))
		}
		in.walk(s, fn)
	}
}

func (in *instr) recv(u *ast.UnaryExpr, two bool) {
	in.nChan++
	name := "simrt.Recv("
	if two {
		name = "simrt.Recv2("
	}
	in.add(in.off(u.Pos()), in.off(u.End()), func() string { return name + in.node(u.X) + ")" })
}

func (in *instr) builtin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = in.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *instr) call(x *ast.CallExpr) {
	switch {
	case in.builtin(x.Fun, "close") && len(x.Args) == 1:
		in.nChan++
		in.add(in.off(x.Fun.Pos()), in.off(x.Fun.End()), func() string { return "simrt.Close" })
	case in.builtin(x.Fun, "make") && len(x.Args) >= 1:
		if t := in.info.TypeOf(x.Args[0]); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				if _, tp := t.(*types.TypeParam); tp {
					return
				}
				in.nChan++
				in.wrap(x, "simrt.Reg(", ")")
			}
		}
	}
}

func (in *instr) selectStmt(x *ast.SelectStmt, fn ast.Node) {
	n := len(x.Body.List)
	if n == 0 {
		in.add(in.off(x.Pos()), in.off(x.End()), func() string { return "simrt.BlockForever()" })
		return
	}
	in.nChan++
	in.tmp++
	pre := fmt.Sprintf("simc%d_", in.tmp)
	type cc struct {
		name string
		expr func() string
	}
	var cases []cc
	hasDefault := false
	for _, c := range x.Body.List {
		cl := c.(*ast.CommClause)
		in.stmts(cl.Body, fn)
		if cl.Comm == nil {
			hasDefault = true
			continue
		}
		idx := len(cases)
		name := fmt.Sprintf("%s%d", pre, idx)
		head := fmt.Sprintf("case %d:", idx)
		var expr func() string
		body := func() string { return "" }
		switch m := cl.Comm.(type) {
		case *ast.SendStmt:
			in.walk(m.Chan, fn)
			in.walk(m.Value, fn)
			expr = func() string { return "simrt.CaseSend(" + in.node(m.Chan) + ")(" + in.node(m.Value) + ")" }
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			in.walk(u.X, fn)
			expr = func() string { return "simrt.CaseRecv(" + in.node(u.X) + ")" }
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			in.walk(u.X, fn)
			for _, l := range m.Lhs {
				in.walk(l, fn)
			}
			expr = func() string { return "simrt.CaseRecv(" + in.node(u.X) + ")" }
			body = func() string {
				var ls []string
				allBlank := true
				for _, l := range m.Lhs {
					t := in.node(l)
					if t != "_" {
						allBlank = false
					}
					ls = append(ls, t)
				}
				tok := m.Tok.String()
				if allBlank {
					tok = "="
				}
				rs := name + ".Val"
				if len(ls) == 2 {
					rs += ", " + name + ".Ok"
				}
				return " " + strings.Join(ls, ", ") + " " + tok + " " + rs + ";"
			}
		}
		cases = append(cases, cc{name, expr})
		in.add(in.off(cl.Pos()), in.off(cl.Colon)+1, func() string { return head + body() })
	}
	in.add(in.off(x.Pos()), in.off(x.Body.Lbrace)+1, func() string {
		var ns, es []string
		for _, c := range cases {
			ns = append(ns, c.name)
			es = append(es, c.expr())
		}
		s := "switch "
		if len(ns) > 0 {
			s += strings.Join(ns, ", ") + " := " + strings.Join(es, ", ") + "; "
		}
		s += "simrt.Select(" + strconv.FormatBool(hasDefault)
		for _, nn := range ns {
			s += ", " + nn
		}
		return s + ") {"
	})
	if !hasDefault {
		in.insert(in.off(x.Body.Rbrace), "; default: panic(\"unreachable\"); ")
	}
}

func (in *instr) goStmt(x *ast.GoStmt, fn ast.Node) {
	in.nGo++
	call := x.Call
	in.walk(call.Fun, fn)
	for _, a := range call.Args {
		in.walk(a, fn)
	}
	in.tmp++
	id := in.tmp
	in.add(in.off(x.Pos()), in.off(x.End()), func() string {
		fun := in.node(call.Fun)
		var pre []string
		switch f := unparen(call.Fun).(type) {
		case *ast.FuncLit:
		case *ast.SelectorExpr:
			if sel := in.info.Selections[f]; sel != nil { // method or field: evaluate now
				pre = append(pre, fmt.Sprintf("simf%d := %s", id, fun))
				fun = fmt.Sprintf("simf%d", id)
			}
		case *ast.Ident:
			if v, ok := in.info.Uses[f].(*types.Var); ok && v != nil {
				pre = append(pre, fmt.Sprintf("simf%d := %s", id, fun))
				fun = fmt.Sprintf("simf%d", id)
			}
		}
		var args []string
		for i, a := range call.Args {
			t := in.node(a)
			tv := in.info.Types[a]
			_, tuple := tv.Type.(*types.Tuple)
			if tv.Value != nil || tv.IsNil() || tuple || tv.IsType() {
				args = append(args, t)
				continue
			}
			nm := fmt.Sprintf("sima%d_%d", id, i)
			pre = append(pre, nm+" := "+t)
			args = append(args, nm)
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		body := fmt.Sprintf("simrt.Go(func() { %s(%s%s) })", fun, strings.Join(args, ", "), ell)
		if in.builtin(call.Fun, "close") {
			body = strings.Replace(body, "close(", "simrt.Close(", 1)
		}
		if len(pre) == 0 {
			return body
		}
		return "{ " + strings.Join(pre, "; ") + "; " + body + " }"
	})
}

func (in *instr) rangeStmt(x *ast.RangeStmt, fn ast.Node) {
	in.walk(x.X, fn)
	if x.Tok == token.ASSIGN {
		in.walk(x.Key, fn)
		in.walk(x.Value, fn)
	}
	in.walk(x.Body, fn)
	if len(x.Body.List) == 0 {
		in.insert(in.off(x.Body.Lbrace)+1, fmt.Sprintf(" simrt.Y(%d); ", nextSite()))
	}
	t := in.info.TypeOf(x.X)
	if t == nil {
		return
	}
	if _, tp := t.(*types.TypeParam); tp {
		return
	}
	var kind string
	switch t.Underlying().(type) {
	case *types.Map:
		kind = "map"
		in.nMap++
	case *types.Chan:
		kind = "chan"
		in.nChan++
	default:
		return
	}
	in.tmp++
	id := in.tmp
	name := func(e ast.Expr, def string) (string, bool) {
		if e == nil {
			return def, true
		}
		if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
			return def, true
		}
		if x.Tok == token.ASSIGN {
			return def, false
		}
		return e.(*ast.Ident).Name, true
	}
	in.add(in.off(x.Pos()), in.off(x.Body.Lbrace)+1, func() string {
		it := fmt.Sprintf("simit%d", id)
		k, kok := name(x.Key, fmt.Sprintf("simk%d", id))
		v, vok := name(x.Value, fmt.Sprintf("simv%d", id))
		X := in.node(x.X)
		var s string
		if kind == "map" {
			s = fmt.Sprintf("for %s, %s, %s := simrt.MapIter(%s); %s.Next(&%s, &%s); {", it, k, v, X, it, k, v)
		} else {
			s = fmt.Sprintf("for %s, %s := simrt.ChanIter(%s); %s.Next(&%s); {", it, k, X, it, k)
		}
		if !kok {
			s += " " + in.node(x.Key) + " = " + k + ";"
		}
		if !vok && x.Value != nil {
			s += " " + in.node(x.Value) + " = " + v + ";"
		}
		return s
	})
}

// shared reports whether the lvalue may be memory visible to other goroutines.
func (in *instr) shared(e ast.Expr, fn ast.Node) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		v, ok := in.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if v.Parent() == in.pkg.Scope() {
			return true
		}
		if fn != nil && (v.Pos() < fn.Pos() || v.Pos() >= fn.End()) {
			return true // captured
		}
		return false
	case *ast.SelectorExpr:
		if in.info.Selections[x] == nil {
			return true // pkg.Var
		}
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return true
	}
	return false
}

// pure reports that evaluating e twice is harmless.
func (in *instr) pure(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return in.pure(x.X)
	case *ast.StarExpr:
		return in.pure(x.X)
	case *ast.IndexExpr:
		return in.pure(x.X) && in.pure(x.Index)
	}
	return false
}

func (in *instr) rmwAssign(x *ast.AssignStmt, fn ast.Node) {
	if in.level < 2 || len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
		return
	}
	l, r := x.Lhs[0], x.Rhs[0]
	if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
		return
	}
	if !in.shared(l, fn) {
		return
	}
	if x.Tok == token.ASSIGN {
		tv := in.info.Types[r]
		if tv.Value != nil || tv.IsNil() || tv.Type == nil {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return
		}
		if _, ok := unparen(r).(*ast.FuncLit); ok {
			return
		}
		in.nRMW++
		id := nextSite()
		in.wrap(r, fmt.Sprintf("simrt.YV(%d, ", id), ")")
		return
	}
	if !in.pure(l) {
		return
	}
	op := strings.TrimSuffix(x.Tok.String(), "=")
	in.nRMW++
	id := nextSite()
	in.add(in.off(x.Pos()), in.off(x.End()), func() string {
		t := in.node(l)
		return fmt.Sprintf("%s = simrt.YV(%d, %s) %s (%s)", t, id, t, op, in.node(r))
	})
}

// wrap puts text around an expression.
func (in *instr) wrap(n ast.Node, before, after string) {
	a, b := in.off(n.Pos()), in.off(n.End())
	seq := len(in.edits)
	in.add(a, b, func() string { return before + in.emitBelow(a, b, true, seq) + after })
}
