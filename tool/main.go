// Command veriftool prepares a build of the code under test in which every
// source of nondeterminism goes through the simulator. It reads the packages of
// the repository (and the third-party packages they use) from the working tree,
// writes instrumented copies to a scratch directory and an overlay file that
// makes "go build" use them. Nothing is written to the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pkg struct {
	Dir        string
	ImportPath string
	Name       string
	Standard   bool
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Module     *struct {
		Path    string
		Version string
		Dir     string
		Main    bool
		Replace *struct{ Dir string }
	}
}

type edit struct {
	off, del int
	text     string
	seq      int
}

type Site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"n"`
}

var (
	repo, out, verif string
	race             bool
	modpath          string
	sites            []Site
	overlay          = map[string]string{}
	fset             = token.NewFileSet()
	mapRanges        int
	goStmts          int
	chanOps          int
	rewritten        = map[string]int{}
	skipped          []string
)

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "veriftool: "+f+"\n", a...); os.Exit(2) }
func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

var simImports = map[string]string{
	"sync":         "simsync",
	"sync/atomic":  "simatomic",
	"time":         "simtime",
	"math/rand":    "simrand",
	"math/rand/v2": "simrand2",
	"crypto/rand":  "simcrand",
	"hash/maphash": "simmaphash",
	"context":      "simcontext",
}

// simFuncs are single functions of packages that are otherwise used as they are.
var simFuncs = map[string]string{
	"runtime.NumCPU":       "NumCPU",
	"runtime.GOMAXPROCS":   "GOMAXPROCS",
	"runtime.NumGoroutine": "NumGoroutine",
	"os.Getpid":            "Getpid",
	"os.Getppid":           "Getppid",
	"os.Hostname":          "Hostname",
	"os.Getenv":            "Getenv",
	"os.LookupEnv":         "LookupEnv",
	"io.Pipe":              "Pipe",
	"io.PipeReader":        "PipeReader",
	"io.PipeWriter":        "PipeWriter",
}

// hostCalls redirects the functions through which a process looks at its host.
func hostCalls(f *file, info *types.Info) {
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 0 {
			if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "MapKeys" {
				if t := info.Types[se.X].Type; t != nil && t.String() == "reflect.Value" {
					rewritten["reflect.Value.MapKeys"]++
					f.ins(c.Pos(), "__vsim.MapKeys(")
					f.repl(se.X.End(), c.End(), ")")
				}
			}
		}
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		full := pn.Imported().Path() + "." + se.Sel.Name
		if fn, ok := simFuncs[full]; ok {
			rewritten[full]++
			f.repl(se.Pos(), se.End(), "__vsim."+fn)
			if _, ok := info.Uses[se.Sel].(*types.TypeName); ok {
				fmt.Fprintf(&f.tail, "var _ %s.%s\n", id.Name, se.Sel.Name)
			} else {
				fmt.Fprintf(&f.tail, "var _ = %s.%s\n", id.Name, se.Sel.Name)
			}
		}
		return true
	})
}

func main() {
	flag.StringVar(&repo, "repo", "/repo", "repository")
	flag.StringVar(&out, "out", "", "scratch directory")
	flag.StringVar(&verif, "verif", "/verif", "verification directory")
	flag.BoolVar(&race, "race", false, "race build")
	flag.Parse()
	must(os.MkdirAll(out, 0o755))

	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	mm := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(gomod)
	if mm == nil {
		die("no module line in go.mod")
	}
	modpath = strings.Trim(string(mm[1]), `"`)

	stdOverlay()
	pkgs := load()
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})

	depdirs := map[string]string{} // module dir -> scratch dir
	depmods := map[string]string{} // module path -> scratch dir
	order := 0
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		if len(p.CgoFiles) > 0 {
			die("package %s uses cgo", p.ImportPath)
		}
		target := func(name string) string { return "" }
		if p.Module.Main {
			dir := p.Dir
			target = func(name string) string {
				dst := filepath.Join(out, "src", p.ImportPath, name)
				overlay[filepath.Join(dir, name)] = dst
				return dst
			}
		} else {
			md := p.Module.Dir
			if p.Module.Replace != nil && p.Module.Replace.Dir != "" {
				md = p.Module.Replace.Dir
			}
			sd, ok := depdirs[md]
			if !ok {
				sd = filepath.Join(out, "dep", fmt.Sprintf("m%d", len(depdirs)))
				depdirs[md] = sd
				depmods[p.Module.Path] = sd
				must(os.MkdirAll(sd, 0o755))
				b, err := os.ReadFile(filepath.Join(md, "go.mod"))
				if err != nil {
					b = []byte("module " + p.Module.Path + "\n")
				}
				must(os.WriteFile(filepath.Join(sd, "go.mod"), goVersion(b), 0o644))
			}
			rel, err := filepath.Rel(md, p.Dir)
			must(err)
			target = func(name string) string { return filepath.Join(sd, rel, name) }
		}
		instrument(p, imp, target, order)
		order++
	}

	// go.mod copy
	b := goVersion(gomod)
	var names []string
	for m := range depmods {
		names = append(names, m)
	}
	sort.Strings(names)
	for _, m := range names {
		b = append(b, []byte(fmt.Sprintf("\nreplace %s => %s\n", m, depmods[m]))...)
	}
	must(os.WriteFile(filepath.Join(out, "go.mod"), b, 0o644))
	if s, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(out, "go.sum"), s, 0o644))
	}

	// simulator and harness packages
	for _, d := range []string{"verifsim", "simsync", "simatomic", "simtime", "simrand", "simrand2", "simcrand", "simmaphash", "simcontext", "harness"} {
		ents, err := os.ReadDir(filepath.Join(verif, "sim", d))
		must(err)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(verif, "sim", d, e.Name()))
			must(err)
			src = []byte(strings.ReplaceAll(string(src), "VERIFMOD", modpath))
			sub := "verifsim/" + d
			if d == "verifsim" {
				sub = "verifsim"
			}
			dst := filepath.Join(out, "src", sub, e.Name())
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, src, 0o644))
			overlay[filepath.Join(repo, sub, e.Name())] = dst
		}
	}
	writeOverlay("overlay.json")
	js, _ := json.Marshal(map[string]any{"sites": sites, "mapRanges": mapRanges, "goStmts": goStmts, "chanOps": chanOps,
		"rewrittenImports": rewritten, "skipped": skipped, "module": modpath})
	must(os.WriteFile(filepath.Join(out, "sites.json"), js, 0o644))
	fmt.Println(modpath)
}

// listTypes writes the table of exported model types the harness draws documents
// from.
func listTypes(tp *types.Package) {
	var b strings.Builder
	b.WriteString("//go:build go1.21\n\npackage main\n\nimport (\n\t\"reflect\"\n\n\t\"" + modpath + "/models\"\n)\n\nfunc init() {\n")
	for _, n := range tp.Scope().Names() {
		o, ok := tp.Scope().Lookup(n).(*types.TypeName)
		if !ok || !o.Exported() || o.IsAlias() {
			continue
		}
		if nt, ok := o.Type().(*types.Named); !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		switch u := o.Type().Underlying().(type) {
		case *types.Struct:
		case *types.Map:
			if bt, ok := u.Key().(*types.Basic); !ok || bt.Kind() != types.String {
				continue
			}
		default:
			continue
		}
		fmt.Fprintf(&b, "\tmodelTypes[%q] = reflect.TypeOf(models.%s{})\n", n, n)
	}
	b.WriteString("}\n")
	dst := filepath.Join(out, "src", "verifsim/harness/zz_types.go")
	must(os.MkdirAll(filepath.Dir(dst), 0o755))
	must(os.WriteFile(dst, []byte(b.String()), 0o644))
	overlay[filepath.Join(repo, "verifsim/harness/zz_types.go")] = dst
}

func writeOverlay(name string) {
	js, err := json.Marshal(map[string]any{"Replace": overlay})
	must(err)
	must(os.WriteFile(filepath.Join(out, name), js, 0o644))
}

// stdOverlay removes the one random choice the race-enabled standard library
// makes on behalf of the program: sync.Pool drops objects at random. In
// simulated race builds pools never hand an object from one task to another, so
// they add no happens-before edges of their own either.
func stdOverlay() {
	if !race {
		return
	}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	p := filepath.Join(strings.TrimSpace(string(root)), "src/sync/pool.go")
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	s := strings.Replace(string(b), "if runtime_randn(4) == 0 {", "if runtime_randn(4) < 4 {", 1)
	if s == string(b) {
		skipped = append(skipped, "sync.Pool")
		return
	}
	dst := filepath.Join(out, "std_pool.go")
	must(os.WriteFile(dst, []byte(s), 0o644))
	overlay[p] = dst
}

func goVersion(b []byte) []byte {
	re := regexp.MustCompile(`(?m)^go\s+1\.(\d+)(\.\d+)?\s*$`)
	m := re.FindSubmatch(b)
	if m == nil {
		return append(b, []byte("\ngo 1.18\n")...)
	}
	var n int
	fmt.Sscan(string(m[1]), &n)
	if n < 18 {
		return re.ReplaceAll(b, []byte("go 1.18"))
	}
	return b
}

func load() []*pkg {
	writeOverlay("list_overlay.json")
	args := []string{"list", "-overlay", filepath.Join(out, "list_overlay.json")}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "-export", "-deps", "-json=Dir,ImportPath,Name,Standard,Export,GoFiles,CgoFiles,EmbedFiles,Module",
		modpath+"/evaluation", modpath+"/models")
	// go list may want to touch go.sum; give it copies
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	must(err)
	must(os.WriteFile(filepath.Join(out, "list.mod"), b, 0o644))
	if s, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(out, "list.sum"), s, 0o644))
	}
	args = append(args[:1], append([]string{"-modfile", filepath.Join(out, "list.mod")}, args[1:]...)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(o)))
	var ps []*pkg
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			must(err)
		}
		ps = append(ps, p)
	}
	return ps
}

type file struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
	tf    *token.File
}

func (f *file) ins(pos token.Pos, text string) { f.repl(pos, pos, text) }
func (f *file) repl(a, b token.Pos, text string) {
	o := f.tf.Offset(a)
	f.edits = append(f.edits, edit{o, f.tf.Offset(b) - o, text, len(f.edits)})
}

// text returns the instrumented text of a source range.
func (f *file) text(a, b token.Pos) string {
	lo, hi := f.tf.Offset(a), f.tf.Offset(b)
	return apply(f.src[lo:hi], lo, f.edits)
}

func apply(src []byte, base int, edits []edit) string {
	var es []edit
	for _, e := range edits {
		if e.off >= base && e.off+e.del <= base+len(src) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if (es[i].del == 0) != (es[j].del == 0) {
			return es[i].del == 0
		}
		return es[i].seq < es[j].seq
	})
	var sb strings.Builder
	at := 0
	for _, e := range es {
		o := e.off - base
		if o < at {
			die("overlapping edits at offset %d", e.off)
		}
		sb.Write(src[at:o])
		sb.WriteString(e.text)
		at = o + e.del
	}
	sb.Write(src[at:])
	return sb.String()
}

func instrument(p *pkg, imp types.Importer, target func(string) string, order int) {
	var files []*file
	var asts []*ast.File
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		must(err)
		a, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		must(err)
		files = append(files, &file{name: name, src: src, ast: a, tf: fset.File(a.Pos())})
		asts = append(asts, a)
	}
	for _, e := range p.EmbedFiles {
		// embedded files are used where they are for the main module; copy for dependencies
		if !p.Module.Main {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			must(err)
			dst := target(e)
			must(os.MkdirAll(filepath.Dir(dst), 0o755))
			must(os.WriteFile(dst, b, 0o644))
		}
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, fset, asts, info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	if p.ImportPath == modpath+"/models" {
		listTypes(tp)
	}
	nInit := 0
	var inits []string
	for fi, f := range files {
		w := &walker{f: f, info: info}
		hostCalls(f, info)
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				w.fn = funcName(d)
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("verifInit_%d_%d", fi, nInit)
					nInit++
					inits = append(inits, nm)
					f.repl(d.Name.Pos(), d.Name.End(), nm)
				}
				w.block(d.Body)
			case *ast.GenDecl:
				if d.Tok == token.IMPORT {
					for _, s := range d.Specs {
						is := s.(*ast.ImportSpec)
						path := strings.Trim(is.Path.Value, "\"`")
						sim, ok := simImports[path]
						if !ok {
							continue
						}
						rewritten[path]++
						name := ""
						if is.Name == nil {
							name = filepath.Base(path)
							if name == "v2" {
								name = "rand"
							}
							name += " "
						}
						f.repl(is.Path.Pos(), is.Path.End(), fmt.Sprintf("%s%q", name, modpath+"/verifsim/"+sim))
					}
				} else {
					w.fn = "init"
					w.expr(d)
				}
			}
		}
	}
	// variables back to their initial values
	var zero, calls []string
	inited := map[types.Object]bool{}
	n := 0
	byPos := func(pos token.Pos) *file {
		for _, f := range files {
			if fset.File(pos) == f.tf {
				return f
			}
		}
		return nil
	}
	for _, in := range info.InitOrder {
		f := byPos(in.Rhs.Pos())
		if f == nil {
			continue
		}
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			inited[v] = true
		}
		fn := fmt.Sprintf("verifReset_%d", n)
		n++
		fmt.Fprintf(&f.tail, "func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), f.text(in.Rhs.Pos(), in.Rhs.End()))
		calls = append(calls, fn)
	}
	sc := tp.Scope()
	for _, nm := range sc.Names() {
		v, ok := sc.Lookup(nm).(*types.Var)
		if !ok || inited[v] || nm == "_" {
			continue
		}
		zero = append(zero, nm)
	}
	f0 := files[0]
	fmt.Fprintf(&f0.tail, "func verifZero[T any](p *T) { var z T; *p = z }\nfunc verifReset() {\n")
	for _, z := range zero {
		fmt.Fprintf(&f0.tail, "verifZero(&%s)\n", z)
	}
	for _, c := range append(calls, inits...) {
		fmt.Fprintf(&f0.tail, "%s()\n", c)
	}
	fmt.Fprintf(&f0.tail, "}\nfunc init() { __vsim.RegisterReset(%d, verifReset) }\n", order)
	for _, f := range files {
		f.edits = append(f.edits, edit{f.tf.Offset(f.ast.Name.End()), 0, fmt.Sprintf("; import __vsim %q", modpath+"/verifsim"), 1 << 30})
		text := apply(f.src, 0, f.edits) + "\nvar _ = __vsim.Active\n" + f.tail.String()
		dst := target(f.name)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, []byte(text), 0o644))
	}
}

func funcName(d *ast.FuncDecl) string {
	if d.Recv != nil && len(d.Recv.List) == 1 {
		t := d.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return id.Name + "." + d.Name.Name
		}
	}
	return d.Name.Name
}

type walker struct {
	f    *file
	info *types.Info
	fn   string
	nvar int
	pair *ast.UnaryExpr
}

func (w *walker) site(pos token.Pos) int {
	p := fset.Position(pos)
	sites = append(sites, Site{filepath.Join(filepath.Base(filepath.Dir(p.Filename)), filepath.Base(p.Filename)), p.Line, w.fn})
	return len(sites) - 1
}

func (w *walker) block(b *ast.BlockStmt) {
	if b != nil {
		w.list(b.List)
	}
}

// loop instruments a loop body; an empty one yields too, or it would never end.
func (w *walker) loop(b *ast.BlockStmt) {
	for _, s := range b.List {
		if _, ok := s.(*ast.EmptyStmt); !ok {
			w.block(b)
			return
		}
	}
	w.f.ins(b.Lbrace+1, fmt.Sprintf("__vsim.Y(%d);", w.site(b.Lbrace)))
}

func (w *walker) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		w.f.ins(s.Pos(), fmt.Sprintf("__vsim.Y(%d);", w.site(s.Pos())))
		w.stmt(s)
	}
}

func (w *walker) stmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.BlockStmt:
		w.block(s)
	case *ast.LabeledStmt:
		w.stmt(s.Stmt)
	case *ast.IfStmt:
		w.inner(s.Init)
		w.expr(s.Cond)
		w.block(s.Body)
		if s.Else != nil {
			w.stmt(s.Else)
		}
	case *ast.ForStmt:
		w.inner(s.Init)
		w.expr(s.Cond)
		w.inner(s.Post)
		w.loop(s.Body)
	case *ast.RangeStmt:
		w.expr(s.X)
		w.rangeStmt(s)
		w.loop(s.Body)
	case *ast.SwitchStmt:
		w.inner(s.Init)
		w.expr(s.Tag)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				w.expr(e)
			}
			w.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		w.inner(s.Init)
		w.expr(s.Assign)
		for _, c := range s.Body.List {
			w.list(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		w.selectStmt(s)
	case *ast.GoStmt:
		w.goStmt(s)
	default:
		w.expr(s)
	}
}

func (w *walker) inner(s ast.Stmt) {
	if s != nil {
		w.expr(s)
	}
}

// expr instruments function literals and channel operations inside an expression
// or simple statement.
func (w *walker) expr(n ast.Node) {
	if n == nil {
		return
	}
	switch x := n.(type) {
	case ast.Expr:
		if x == nil {
			return
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			w.block(n.Body)
			return false
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				w.two(n.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				w.two(n.Values[0])
			}
		case *ast.SendStmt:
			chanOps++
			w.f.ins(n.Pos(), "__vsim.SendTo(")
			w.f.repl(n.Chan.End(), n.Value.Pos(), ")("+w.lines(n.Chan.End(), n.Value.Pos()))
			w.expr(n.Chan)
			w.expr(n.Value)
			w.f.ins(n.End(), ")")
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				chanOps++
				fn := "Recv("
				if n == w.pair {
					fn = "Recv2("
				}
				w.f.repl(n.OpPos, n.X.Pos(), "__vsim."+fn)
				w.expr(n.X)
				w.f.ins(n.X.End(), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				if _, ok := w.info.Uses[id].(*types.Builtin); ok {
					chanOps++
					w.f.repl(id.Pos(), id.End(), "__vsim.Close")
				}
			}
		}
		return true
	})
}

// two notes a receive that delivers two values.
func (w *walker) two(e ast.Expr) {
	if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		w.pair = u
	}
}

// lines are the line breaks in a source range.
func (w *walker) lines(a, b token.Pos) string {
	return strings.Repeat("\n", strings.Count(string(w.f.src[w.f.tf.Offset(a):w.f.tf.Offset(b)]), "\n"))
}

// drop forgets the edits inside a source range: its text is written anew.
func (w *walker) drop(a, b token.Pos) {
	lo, hi := w.f.tf.Offset(a), w.f.tf.Offset(b)
	keep := w.f.edits[:0]
	for _, e := range w.f.edits {
		if e.off >= lo && e.off+e.del <= hi {
			continue
		}
		keep = append(keep, e)
	}
	w.f.edits = keep
}

// selectStmt turns a select statement into a switch over the number of the
// communication the simulator performs.
func (w *walker) selectStmt(s *ast.SelectStmt) {
	chanOps++
	var names, vals []string
	hasDefault := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			w.list(cc.Body)
			continue
		}
		w.nvar++
		name := fmt.Sprintf("__vs%d", w.nvar)
		text := func(e ast.Expr) string {
			w.expr(e)
			return w.f.text(e.Pos(), e.End())
		}
		recv := func(e ast.Expr) string {
			return "__vsim.RecvCase(" + text(ast.Unparen(e).(*ast.UnaryExpr).X) + ")"
		}
		var val, set string
		switch cs := cc.Comm.(type) {
		case *ast.SendStmt:
			val = "__vsim.SendCase(" + text(cs.Chan) + ")(" + text(cs.Value) + ")"
		case *ast.ExprStmt:
			val = recv(cs.X)
		case *ast.AssignStmt:
			val = recv(cs.Rhs[0])
			var l []string
			for _, e := range cs.Lhs {
				l = append(l, text(e))
			}
			set = " " + strings.Join(l, ", ") + " " + cs.Tok.String() + " " + name + ".V"
			if len(l) == 2 {
				set += ", " + name + ".Ok"
			}
			set += ";"
		}
		w.drop(cc.Case, cc.Colon)
		w.f.repl(cc.Case, cc.Colon, fmt.Sprintf("case %d", len(names)))
		w.f.ins(cc.Colon+1, set+w.lines(cc.Case, cc.Colon))
		names = append(names, name)
		vals = append(vals, val)
		w.list(cc.Body)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	head += "__vsim.Select(" + strings.Join(append([]string{fmt.Sprint(hasDefault)}, names...), ", ") + ") "
	w.f.repl(s.Select, s.Body.Lbrace, head)
	if !hasDefault {
		w.f.ins(s.Body.Rbrace, `; default: panic("unreachable")
`)
	}
}

func ident(e ast.Expr) (string, bool) {
	if e == nil {
		return "_", true
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return "", false
	}
	return id.Name, true
}

func (w *walker) rangeStmt(s *ast.RangeStmt) {
	tv, ok := w.info.Types[s.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Chan); ok {
		chanOps++
		w.nvar++
		r := fmt.Sprintf("__vr%d", w.nvar)
		k, ok := ident(s.Key)
		if ok && k != "_" && s.Tok == token.DEFINE {
			w.f.repl(s.For+3, s.X.Pos(), fmt.Sprintf(" %s, %s := __vsim.RChan(", r, k))
			w.f.ins(s.X.End(), fmt.Sprintf("); __vsim.RNext(%s, &%s); ", r, k))
			return
		}
		set := ""
		if !ok || k != "_" {
			set = fmt.Sprintf(" %s = %s.V;", w.f.text(s.Key.Pos(), s.Key.End()), r)
		}
		w.f.repl(s.For+3, s.X.Pos(), fmt.Sprintf(" %s := __vsim.RIter(", r))
		w.f.ins(s.X.End(), fmt.Sprintf("); %s.Next(); ", r))
		w.f.ins(s.Body.Lbrace+1, set)
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	k, ok1 := ident(s.Key)
	v, ok2 := ident(s.Value)
	if !ok1 || !ok2 {
		skipped = append(skipped, fset.Position(s.Pos()).String())
		return
	}
	mapRanges++
	w.nvar++
	r := fmt.Sprintf("__vr%d", w.nvar)
	var decl, fn, next string
	switch {
	case k == "_" && v == "_":
		decl, fn, next = r, "R0", "NextN()"
	case v == "_":
		decl, fn, next = r+", "+k, "R1", "NextK(&"+k+")"
	case k == "_":
		decl, fn, next = r+", "+v, "RV", "NextV(&"+v+")"
	default:
		decl, fn, next = r+", "+k+", "+v, "R2", "Next(&"+k+", &"+v+")"
	}
	if s.Tok != token.DEFINE {
		decl, fn = r, "R0"
	}
	w.f.repl(s.For+3, s.X.Pos(), fmt.Sprintf(" %s := __vsim.%s(", decl, fn))
	w.f.ins(s.X.End(), fmt.Sprintf("); %s.%s; ", r, next))
}

func (w *walker) goStmt(s *ast.GoStmt) {
	goStmts++
	w.nvar++
	t := fmt.Sprintf("__vt%d", w.nvar)
	w.f.ins(s.Pos(), fmt.Sprintf("{ %s := __vsim.NewT(); ", t))
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok {
		w.f.ins(fl.Body.Lbrace+1, fmt.Sprintf(" %s.Start(); defer %s.End();", t, t))
		w.block(fl.Body)
		for _, a := range s.Call.Args {
			w.expr(a)
		}
		w.f.ins(s.End(), " }")
		return
	}
	w.expr(s.Call)
	inline := func(e ast.Expr) bool {
		tv, ok := w.info.Types[e]
		return !ok || tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()
	}
	var pre, args []string
	fun := w.f.text(s.Call.Fun.Pos(), s.Call.Fun.End())
	if !inline(s.Call.Fun) {
		pre = append(pre, fmt.Sprintf("%sf := %s;", t, fun))
		fun = t + "f"
	}
	for i, a := range s.Call.Args {
		txt := w.f.text(a.Pos(), a.End())
		if !inline(a) {
			pre = append(pre, fmt.Sprintf("%sa%d := %s;", t, i, txt))
			txt = fmt.Sprintf("%sa%d", t, i)
		}
		args = append(args, txt)
	}
	ell := ""
	if s.Call.Ellipsis.IsValid() {
		ell = "..."
	}
	w.drop(s.Pos()+1, s.End())
	w.f.repl(s.Pos(), s.End(), fmt.Sprintf("%s go func() { %s.Start(); defer %s.End(); %s(%s%s) }() }",
		strings.Join(pre, " "), t, t, fun, strings.Join(args, ", "), ell))
}
