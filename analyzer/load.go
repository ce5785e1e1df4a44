package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sisu-network/dheart"

// listPkg is the subset of `go list -json` used here.
type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
	Error *struct{ Err string }
}

// Pkg is a package analysed from source.
type Pkg struct {
	Path  string
	Dir   string
	Types *types.Package
	Info  *types.Info
	Files []*ast.File
	SSA   *ssa.Package
	Own   bool // part of the dheart module
}

// Program is everything a rule can look at.
type Program struct {
	Repo  string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*Pkg
	Order []*Pkg
	// All non-test, non-mock functions of the dheart module (including closures and methods).
	Funcs []*ssa.Function
	// All functions of the module, production or not.
	AllFuncs []*ssa.Function
	LibFuncs []*ssa.Function // of the threshold library (only with its sources)
	inSet    map[*ssa.Function]bool

	allTypes map[string]*types.Package

	sentinels     map[string]bool
	implCache     map[string][]*ssa.Function
	cg            *CallGraph
	simples       map[*ssa.Function]int
	preTerms      map[string]*Term
	owners        map[*types.Var]string
	callerIdx     map[*ssa.Function][]ssa.CallInstruction
	fieldStoreIdx map[*types.Var][]*ssa.Store
	locks         *LockInfo
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "GOENV", "GOWORK", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "HOME", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	root := "/opt/go1.18.10"
	return append(env, "HOME=/root", "GOROOT="+root,
		"PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOENV=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=1")
}

// fromSource says whether a dependency outside the module is parsed too.
func fromSource(path string) bool {
	return strings.HasPrefix(path, "github.com/sisu-network/tss-lib")
}

// Load type-checks the current working tree of repo with the flags the real build uses (Go 1.18,
// -mod=readonly) and builds SSA for the module. Dependencies come from compiler export data, except
// for tss-lib, whose sources are read when withTss is set.
func Load(repo string, withTss bool) (*Program, error) {
	cmd := exec.Command("/opt/go1.18.10/bin/go", "list", "-e", "-export", "-deps", "-json", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var order []*listPkg
	byPath := map[string]*listPkg{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		order = append(order, p)
		byPath[p.ImportPath] = p
	}

	prog := &Program{
		Repo: repo, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{},
		inSet: map[*ssa.Function]bool{}, allTypes: map[string]*types.Package{"unsafe": types.Unsafe},
		implCache: map[string][]*ssa.Function{},
	}
	var load func(path string) (*types.Package, error)
	loading := map[string]bool{}
	load = func(path string) (*types.Package, error) {
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		lp := byPath[path]
		if lp == nil {
			return nil, fmt.Errorf("package %s not listed", path)
		}
		own := lp.Module != nil && lp.Module.Main
		if own || (withTss && fromSource(path)) {
			if p := prog.Pkgs[path]; p != nil {
				return p.Types, nil
			}
			if loading[path] {
				return nil, fmt.Errorf("import cycle at %s", path)
			}
			loading[path] = true
			if lp.Error != nil {
				return nil, errors.New(lp.Error.Err)
			}
			var files []*ast.File
			for _, f := range append(append([]string{}, lp.GoFiles...), lp.CgoFiles...) {
				af, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
				if err != nil {
					return nil, err
				}
				files = append(files, af)
			}
			for _, imp := range lp.Imports {
				if _, err := load(imp); err != nil {
					return nil, err
				}
			}
			info := &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
				Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
				Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
				Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
			}
			var terr error
			conf := types.Config{
				GoVersion: "go1.18",
				Importer: importerFunc(func(p string) (*types.Package, error) {
					if m, ok := lp.ImportMap[p]; ok {
						p = m
					}
					return load(p)
				}),
				Sizes: types.SizesFor("gc", "amd64"),
				Error: func(e error) {
					if terr == nil {
						terr = e
					}
				},
			}
			tp, _ := conf.Check(path, prog.Fset, files, info)
			if terr != nil {
				return nil, fmt.Errorf("type checking %s: %v", path, terr)
			}
			p := &Pkg{Path: path, Dir: lp.Dir, Types: tp, Info: info, Files: files, Own: own}
			prog.Pkgs[path] = p
			prog.Order = append(prog.Order, p)
			prog.allTypes[path] = tp
			return tp, nil
		}
		if tp := prog.allTypes[path]; tp != nil && tp.Complete() {
			return tp, nil
		}
		if lp.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		f, err := os.Open(lp.Export)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		r, err := gcexportdata.NewReader(f)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		tp, err := gcexportdata.Read(r, prog.Fset, prog.allTypes, path)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		return tp, nil
	}
	for _, lp := range order {
		if lp.Module != nil && lp.Module.Main && len(lp.GoFiles) > 0 {
			if _, err := load(lp.ImportPath); err != nil {
				return nil, err
			}
		}
	}

	prog.SSA = ssa.NewProgram(prog.Fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if created[p] {
				continue
			}
			created[p] = true
			if src := prog.Pkgs[p.Path()]; src != nil && src.Types == p {
				src.SSA = prog.SSA.CreatePackage(p, src.Files, src.Info, true)
			} else {
				prog.SSA.CreatePackage(p, nil, nil, true)
			}
			create(p.Imports())
		}
	}
	for _, p := range prog.Order {
		create([]*types.Package{p.Types})
	}
	for _, p := range prog.Order {
		p.SSA.Build()
	}
	for fn := range ssautil.AllFunctions(prog.SSA) {
		if fn.Blocks == nil {
			continue
		}
		if !prog.isOwn(fn) {
			if t := topFn(fn); t.Pkg != nil && fromSource(t.Pkg.Pkg.Path()) {
				prog.LibFuncs = append(prog.LibFuncs, fn)
			}
			continue
		}
		prog.AllFuncs = append(prog.AllFuncs, fn)
		if prog.isProd(fn) {
			prog.Funcs = append(prog.Funcs, fn)
			prog.inSet[fn] = true
		}
	}
	less := func(s []*ssa.Function) func(i, j int) bool {
		return func(i, j int) bool {
			a, b := prog.Fset.Position(s[i].Pos()), prog.Fset.Position(s[j].Pos())
			if a.Filename != b.Filename {
				return a.Filename < b.Filename
			}
			if a.Offset != b.Offset {
				return a.Offset < b.Offset
			}
			return s[i].String() < s[j].String()
		}
	}
	sort.Slice(prog.Funcs, less(prog.Funcs))
	sort.Slice(prog.AllFuncs, less(prog.AllFuncs))
	sort.Slice(prog.LibFuncs, less(prog.LibFuncs))
	if len(prog.Funcs) < 200 {
		return nil, fmt.Errorf("only %d production functions loaded: the analysis set is not the one confirmed by hand", len(prog.Funcs))
	}
	return prog, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkgPath(o)
	}
	return ""
}

func (p *Program) isOwn(fn *ssa.Function) bool {
	pk := p.Pkgs[fnPkgPath(fn)]
	return pk != nil && pk.Own
}

// isProd: part of the shipped program, not a mock, a test helper, an e2e driver or generated code.
func (p *Program) isProd(fn *ssa.Function) bool {
	if !p.isOwn(fn) {
		return false
	}
	path := fnPkgPath(fn)
	if strings.HasPrefix(path, modPath+"/test/") || strings.HasSuffix(path, "/gen-localhost") {
		return false
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") && fn.Pos() == token.NoPos {
		return false
	}
	if fn.Synthetic != "" && fn.Blocks != nil && !strings.HasPrefix(fn.Synthetic, "package init") {
		// wrappers, bound methods and thunks: analysed through their targets
		return false
	}
	f := p.Fset.Position(fn.Pos()).Filename
	b := filepath.Base(f)
	if strings.HasSuffix(b, "_test.go") || b == "mock.go" || b == "test_utils.go" || strings.HasSuffix(b, ".pb.go") {
		return false
	}
	if strings.HasSuffix(f, "core/components/helper.go") { // builds a mock database for tests
		return false
	}
	return true
}

func (p *Program) prod(fn *ssa.Function) bool { return p.inSet[fn] }

// pos renders a position relative to the repository root.
func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.Repo+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func instrPos(i ssa.Instruction) token.Pos {
	if i.Pos().IsValid() {
		return i.Pos()
	}
	// fall back to a neighbouring instruction with a position
	b := i.Block()
	if b == nil {
		return token.NoPos
	}
	idx := -1
	for k, x := range b.Instrs {
		if x == i {
			idx = k
		}
	}
	for d := 1; d < len(b.Instrs); d++ {
		if idx-d >= 0 && b.Instrs[idx-d].Pos().IsValid() {
			return b.Instrs[idx-d].Pos()
		}
		if idx+d < len(b.Instrs) && b.Instrs[idx+d].Pos().IsValid() {
			return b.Instrs[idx+d].Pos()
		}
	}
	return i.Parent().Pos()
}

// fname is a readable, stable name of a function: pkg.(Type).Method or pkg.Func$1.
func fname(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}
