// Command dsimtool rewrites a Go module so that it runs inside the
// deterministic simulator: scheduling, channels, locks, time, randomness and
// the file system are redirected to /verif/sim. The module itself is not
// touched; the rewritten copy goes to a scratch directory.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

const simBase = "/zz/"

// replaced maps an import path to the stand-in package.
var replaced = map[string]string{
	"os":                           "simos",
	"sync":                         "simsync",
	"sync/atomic":                  "simatomic",
	"time":                         "simtime",
	"fmt":                          "simfmt",
	"log":                          "simlog",
	"path/filepath":                "simfilepath",
	"io/ioutil":                    "simioutil",
	"golang.org/x/sys/unix":        "simunix",
	"syscall":                      "simsyscall",
	"math/rand":                    "simrand",
	"math/rand/v2":                 "simrand",
	"runtime":                      "simruntime",
	"flag":                         "simflag",
	"context":                      "simcontext",
	"github.com/google/gops/agent": "simagent",
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Imports    []string
	Error      *struct{ Err string }
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "dsimtool: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "module to rewrite")
	out := flag.String("out", "", "where the rewritten module goes")
	sim := flag.String("sim", "/verif/sim", "simulator sources")
	harness := flag.String("harness", "/verif/harness", "harness sources")
	cli := flag.Int("cli", 3, "copies of cmd/dupi to make importable")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	mod := modulePath(filepath.Join(*repo, "go.mod"))
	pkgs := list(*repo)
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	must(os.MkdirAll(*out, 0755))
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	gomod = regexp.MustCompile(`(?m)^go .*$`).ReplaceAll(gomod, []byte("go 1.21"))
	gomod = regexp.MustCompile(`(?m)^toolchain .*$`).ReplaceAll(gomod, nil)
	must(os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0644))
	if s, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*out, "go.sum"), s, 0644))
	}
	simNames := map[string]map[string]bool{}
	for _, s := range replaced {
		if simNames[s] == nil {
			simNames[s] = exportedNames(filepath.Join(*sim, s))
		}
	}
	for _, e := range readDir(*sim) {
		copyGo(filepath.Join(*sim, e), filepath.Join(*out, "zz", e), mod)
	}
	copyGo(*harness, filepath.Join(*out, "zz", "harness"), mod)

	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Module.Path != mod {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
		if p.Name == "main" {
			name, n := path.Base(p.ImportPath), 1
			switch p.ImportPath {
			case mod + "/cmd/dupi":
				name, n = "cli", *cli
			case mod + "/cmd/dupenron":
			default:
				continue
			}
			for i := 0; i < n; i++ {
				rw := newRewriter(mod, p, exports, simNames)
				rw.asCLI = true
				rw.write(filepath.Join(*out, "zz", fmt.Sprintf("%s%d", name, i)))
			}
			continue
		}
		if strings.HasPrefix(rel, "attic") {
			continue // not part of the system: nothing imports it
		}
		rw := newRewriter(mod, p, exports, simNames)
		rw.write(filepath.Join(*out, rel))
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func readDir(d string) []string {
	es, err := os.ReadDir(d)
	must(err)
	var out []string
	for _, e := range es {
		if e.IsDir() {
			out = append(out, e.Name())
		}
	}
	return out
}

func copyGo(from, to, mod string) {
	must(os.MkdirAll(to, 0755))
	es, err := os.ReadDir(from)
	must(err)
	for _, e := range es {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		d, err := os.ReadFile(filepath.Join(from, e.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(to, e.Name()), d, 0644))
	}
}

func modulePath(f string) string {
	d, err := os.ReadFile(f)
	must(err)
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(d)
	if m == nil {
		die("no module line in %s", f)
	}
	return string(m[1])
}

func list(repo string) []*listPkg {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Imports,Error", "./...")
	cmd.Dir = repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	var out []*listPkg
	for {
		p := &listPkg{}
		err := dec.Decode(p)
		if err == io.EOF {
			return out
		}
		must(err)
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		out = append(out, p)
	}
}

func exportedNames(dir string) map[string]bool {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, dir, nil, 0)
	must(err)
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = s.Name.IsExported()
						case *ast.ValueSpec:
							for _, n := range s.Names {
								m[n.Name] = n.IsExported()
							}
						}
					}
				}
			}
		}
	}
	return m
}

type rewriter struct {
	mod      string
	p        *listPkg
	fset     *token.FileSet
	files    []*ast.File
	names    []string
	info     *types.Info
	pkg      *types.Package
	simNames map[string]map[string]bool
	asCLI    bool
	// per file
	usesRT  bool
	usesSim map[string]bool
	n       int
	inits   []string
}

func newRewriter(mod string, p *listPkg, exports map[string]string, simNames map[string]map[string]bool) *rewriter {
	r := &rewriter{mod: mod, p: p, fset: token.NewFileSet(), simNames: simNames}
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(r.fset, filepath.Join(p.Dir, f), nil, 0)
		must(err)
		r.files = append(r.files, a)
		r.names = append(r.names, f)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	r.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	cfg := types.Config{Importer: importer.ForCompiler(r.fset, "gc", lookup)}
	var err error
	r.pkg, err = cfg.Check(p.ImportPath, r.fset, r.files, r.info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	return r
}

func (r *rewriter) write(dir string) {
	must(os.MkdirAll(dir, 0755))
	var inits []ast.Decl
	_ = inits
	for i, f := range r.files {
		r.usesRT = true
		r.usesSim = map[string]bool{}
		r.file(f)
		src := r.print(f)
		must(os.WriteFile(filepath.Join(dir, r.names[i]), src, 0644))
	}
}

func (r *rewriter) print(f *ast.File) []byte {
	var b bytes.Buffer
	cfg := &printer.Config{Mode: printer.SourcePos, Tabwidth: 8}
	must(cfg.Fprint(&b, r.fset, f))
	return b.Bytes()
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func sel(pkg, name string) *ast.SelectorExpr {
	return &ast.SelectorExpr{X: id(pkg), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (r *rewriter) tmp(s string) string {
	r.n++
	return "zz" + s + strconv.Itoa(r.n)
}

func (r *rewriter) file(f *ast.File) {
	f.Comments = nil
	f.Doc = nil
	var decls []ast.Decl
	var imports []*ast.GenDecl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			imports = append(imports, g)
			continue
		}
		decls = append(decls, d)
	}
	var resets []ast.Stmt
	// restore package variables of this file
	inInit := map[types.Object]bool{}
	for _, in := range r.info.InitOrder {
		for _, v := range in.Lhs {
			inInit[v] = true
		}
	}
	for i, d := range decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.funcDecl(d)
			if d.Recv == nil && d.Name.Name == "init" {
				n := r.tmp("init") + sanitize(f.Name.Name) + strconv.Itoa(int(d.Pos()))
				d.Name = id(n)
				resets = append(resets, &ast.ExprStmt{X: call(id(n))})
			}
			if r.asCLI && d.Recv == nil && d.Name.Name == "main" {
				d.Name = id("ZzMain")
			}
		case *ast.GenDecl:
			decls[i] = r.expr(d).(ast.Decl)
		}
	}
	// zero the variables without initialiser
	for _, d := range decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			if len(vs.Values) > 0 {
				continue
			}
			for _, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				z := r.tmp("z")
				resets = append([]ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{
					&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
						&ast.ValueSpec{Names: []*ast.Ident{id(z)}, Type: vs.Type}}}},
					&ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(z)}},
				}}}, resets...)
			}
		}
	}
	// initialisers, in dependency order, go with the first file of the package;
	// they may name any file's variables but use that file's imports, so each
	// file gets a function per initialiser and the first file calls them.
	for k, in := range r.info.InitOrder {
		if r.fset.File(in.Rhs.Pos()) != r.fset.File(f.Pos()) {
			continue
		}
		var lhs []ast.Expr
		skip := true
		for _, v := range in.Lhs {
			lhs = append(lhs, id(v.Name()))
			if v.Name() != "_" {
				skip = false
			}
		}
		var body []ast.Stmt
		if !skip {
			rhs := r.initRHS(decls, in)
			if rhs != nil {
				body = []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}}}
			}
		}
		decls = append(decls, fn(fmt.Sprintf("zzreinit%d", k), body...))
	}
	reg := ast.Expr(sel("zzrt", "RegisterReset"))
	if r.asCLI {
		reg = id("zzreg")
	}
	if r.asCLI && f == r.files[0] {
		src := "package p\nvar zzr []func()\nfunc zzreg(f func()) { zzr = append(zzr, f); zzrt.RegisterReset(f) }\nfunc ZzReset() { for _, f := range zzr { f() } }\n"
		a, err := parser.ParseFile(token.NewFileSet(), "zz.go", src, 0)
		must(err)
		decls = append(decls, a.Decls...)
	}
	if f == r.files[0] {
		var calls []ast.Stmt
		for k := range r.info.InitOrder {
			calls = append(calls, &ast.ExprStmt{X: call(id(fmt.Sprintf("zzreinit%d", k)))})
		}
		decls = append(decls, fn("init", &ast.ExprStmt{X: call(reg, &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: calls}})}))
	}
	if len(resets) > 0 {
		decls = append(decls, fn("init", &ast.ExprStmt{X: call(reg, &ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: resets}})}))
	}
	if r.asCLI {
		f.Name = id("cli")
	}
	// which original imports are still used?
	used := map[types.Object]bool{}
	for _, d := range decls {
		ast.Inspect(d, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if o, ok := r.info.Uses[i].(*types.PkgName); ok {
					used[o] = true
				}
			}
			return true
		})
	}
	var out []ast.Decl
	spec := func(name, path string) ast.Decl {
		s := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		if name != "" {
			s.Name = id(name)
		}
		return &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}}
	}
	out = append(out, spec("zzrt", r.mod+simBase+"rt"))
	var sims []string
	for s := range r.usesSim {
		sims = append(sims, s)
	}
	sort.Strings(sims)
	for _, s := range sims {
		out = append(out, spec("zz"+s, r.mod+simBase+s))
	}
	for _, g := range imports {
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			}
			if path == "net/http/pprof" {
				continue // nobody is to serve it
			}
			if name == "_" || name == "." {
				out = append(out, spec(name, path))
				continue
			}
			var obj types.Object
			if is.Name != nil {
				obj = r.info.Defs[is.Name]
			} else {
				obj = nil
			}
			keep := false
			if obj != nil {
				keep = used[obj]
			} else {
				for o := range used {
					pn := o.(*types.PkgName)
					if pn.Imported().Path() == path && r.fset.File(pn.Pos()) == r.fset.File(f.Pos()) {
						keep = true
					}
				}
			}
			if keep {
				out = append(out, spec(name, path))
			}
		}
	}
	f.Decls = append(out, decls...)
	f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
		Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel("zzrt", "T")}}}})
	f.Imports = nil
}

func sanitize(s string) string { return regexp.MustCompile(`\W`).ReplaceAllString(s, "_") }

func fn(name string, body ...ast.Stmt) *ast.FuncDecl {
	return &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// initRHS finds the (already rewritten) initialiser that belongs to in.
func (r *rewriter) initRHS(decls []ast.Decl, in *types.Initializer) ast.Expr {
	for _, d := range decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, s := range g.Specs {
			vs := s.(*ast.ValueSpec)
			for i, n := range vs.Names {
				if r.info.Defs[n] != types.Object(in.Lhs[0]) {
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					return vs.Values[i]
				}
				return vs.Values[0]
			}
		}
	}
	return nil
}
