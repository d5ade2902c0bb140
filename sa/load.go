package main

import (
	"embed"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed drivers/*.txt
var driverFS embed.FS

// bodies of these std packages are interpreted when a function has no model
var bodyPkgs = map[string]bool{
	"bytes": true, "strings": true, "unicode/utf8": true, "sort": true, "slices": true, "internal/stringslite": true, "cmp": true,
}

// repoPkgs holds the packages whose struct types are transparent
var repoPkgs = map[string]bool{}

// World is the type-checked program
type World struct {
	goos   string
	dir    string
	module string
	fset   *token.FileSet
	pkgs   map[string]*types.Package
	files  map[string][]*ast.File
	infos  map[string]*types.Info
	prog   *ssa.Program
	repo   []*ssa.Package
	driver *ssa.Package
	ctx    build.Context
	errs   []string

	nonNilElems map[string]bool
	volatile    map[*ssa.Global]bool
	init        *State
	initBad     []string
	initNotes   map[string]int
}

func goroot() string {
	if g := os.Getenv("GOROOT"); g != "" {
		return g
	}
	if g := runtime.GOROOT(); g != "" {
		if _, err := os.Stat(filepath.Join(g, "src", "fmt")); err == nil {
			return g
		}
	}
	for _, g := range []string{"/opt/veriftools/go1.27.3", "/usr/local/go"} {
		if _, err := os.Stat(filepath.Join(g, "src", "fmt")); err == nil {
			return g
		}
	}
	return ""
}

// load type-checks the module at dir for goos, with the drivers
func load(dir, goos string, withDrivers bool) (*World, error) {
	w := &World{goos: goos, dir: dir, fset: token.NewFileSet(), pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	gover := ""
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			w.module = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			gover = "go" + f[1]
		}
	}
	if w.module == "" {
		return nil, fmt.Errorf("no module in go.mod")
	}
	w.ctx = build.Default
	w.ctx.GOROOT = goroot()
	w.ctx.GOOS = goos
	w.ctx.GOARCH = "amd64"
	w.ctx.CgoEnabled = false
	w.ctx.Compiler = "gc"
	w.ctx.GOPATH = ""

	var walk []string
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != dir && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if p != dir {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			walk = append(walk, p)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(walk)
	var roots []string
	for _, p := range walk {
		bp, err := w.ctx.ImportDir(p, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return nil, err
		}
		if bp.Name == "main" {
			continue
		}
		rel, _ := filepath.Rel(dir, p)
		path := w.module
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		repoPkgs[path] = true
		roots = append(roots, path)
	}
	imp := &importer{w: w, gover: gover, busy: map[string]bool{}}
	for _, r := range roots {
		if _, err := imp.Import(r); err != nil {
			return nil, err
		}
	}
	w.prog = ssa.NewProgram(w.fset, ssa.InstantiateGenerics)
	var order []string
	for p := range w.pkgs {
		order = append(order, p)
	}
	sort.Strings(order)
	if withDrivers {
		if err := w.addDriver(imp); err != nil {
			return nil, err
		}
		order = append(order, "driver")
	}
	w.prog.CreatePackage(types.Unsafe, nil, nil, true)
	built := []*ssa.Package{}
	for _, p := range order {
		tp := w.pkgs[p]
		if p == "unsafe" {
			continue
		}
		if repoPkgs[p] || bodyPkgs[p] || p == "driver" {
			sp := w.prog.CreatePackage(tp, w.files[p], w.infos[p], true)
			built = append(built, sp)
			if repoPkgs[p] {
				w.repo = append(w.repo, sp)
			}
			if p == "driver" {
				w.driver = sp
			}
		} else {
			w.prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, sp := range built {
		sp.Build()
	}
	repoPkgs["driver"] = true
	return w, nil
}

type importer struct {
	w     *World
	gover string
	busy  map[string]bool
}

func (i *importer) Import(path string) (*types.Package, error) {
	return i.ImportFrom(path, "", 0)
}

func (i *importer) ImportFrom(path, srcDir string, _ types.ImportMode) (*types.Package, error) {
	w := i.w
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	repo := path == w.module || strings.HasPrefix(path, w.module+"/")
	dir := ""
	key := path
	if repo {
		dir = filepath.Join(w.dir, strings.TrimPrefix(strings.TrimPrefix(path, w.module), "/"))
	} else {
		dir = filepath.Join(w.ctx.GOROOT, "src", path)
		if _, err := os.Stat(dir); err != nil {
			dir = filepath.Join(w.ctx.GOROOT, "src", "vendor", path)
			key = "vendor/" + path
		}
	}
	if p, ok := w.pkgs[key]; ok {
		return p, nil
	}
	if i.busy[key] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	i.busy[key] = true
	bp, err := w.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", path, err)
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(w.fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	full := repo || bodyPkgs[path]
	info := newInfo()
	var first error
	conf := types.Config{
		Importer:         i,
		IgnoreFuncBodies: !full,
		FakeImportC:      true,
		Sizes:            types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if first == nil {
				first = err
			}
		},
	}
	if repo {
		conf.GoVersion = i.gover
	}
	p, _ := conf.Check(key, w.fset, files, info)
	if first != nil && full {
		return nil, first
	}
	w.pkgs[key] = p
	w.files[key] = files
	w.infos[key] = info
	return p, nil
}

func newInfo() *types.Info {
	return &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
}

func (w *World) addDriver(imp *importer) error {
	ents, err := driverFS.ReadDir("drivers")
	if err != nil {
		return err
	}
	var files []*ast.File
	for _, e := range ents {
		b, err := driverFS.ReadFile("drivers/" + e.Name())
		if err != nil {
			return err
		}
		src := strings.Replace(string(b), "MODULE", w.module, -1)
		af, err := parser.ParseFile(w.fset, "driver/"+strings.TrimSuffix(e.Name(), ".txt"), src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	info := newInfo()
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	p, err := conf.Check("driver", w.fset, files, info)
	if err != nil {
		return fmt.Errorf("the public API changed: %v", err)
	}
	w.pkgs["driver"] = p
	w.files["driver"] = files
	w.infos["driver"] = info
	return nil
}

// pkg returns a package of the repository by its path relative to the module
func (w *World) pkg(rel string) *ssa.Package {
	p := w.module
	if rel != "" {
		p += "/" + rel
	}
	for _, sp := range w.repo {
		if sp.Pkg.Path() == p {
			return sp
		}
	}
	return nil
}

// repoFuncs returns the functions of the repository with a body, in a stable order
func (w *World) repoFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Blocks != nil && w.inRepoFn(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := w.fset.Position(r[i].Pos()), w.fset.Position(r[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return r[i].String() < r[j].String()
	})
	return r
}

func (w *World) inRepoFn(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path() == w.module || strings.HasPrefix(g.Pkg.Pkg.Path(), w.module+"/")
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			p := g.Object().Pkg().Path()
			return p == w.module || strings.HasPrefix(p, w.module+"/")
		}
		if o := g.Origin(); o != nil && o != g {
			return w.inRepoFn(o)
		}
	}
	return false
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else if strings.HasPrefix(f, w.ctx.GOROOT) {
		f = strings.TrimPrefix(f, w.ctx.GOROOT+"/src/")
	}
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

// instrPos gives the position of an instruction, or of the nearest one that has one
func (w *World) instrPos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if i.Pos().IsValid() {
		return w.pos(i.Pos())
	}
	if b := i.Block(); b != nil {
		at := -1
		for k, j := range b.Instrs {
			if j == i {
				at = k
			}
		}
		for k := at; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return w.pos(b.Instrs[k].Pos())
			}
		}
		for k := at; k < len(b.Instrs) && k >= 0; k++ {
			if b.Instrs[k].Pos().IsValid() {
				return w.pos(b.Instrs[k].Pos())
			}
		}
		return w.pos(b.Parent().Pos())
	}
	return "?"
}
