package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/ssa"
)

// The analysed program is loaded from the working tree of /repo on every run: `go list` names the
// packages and files the real build compiles (tests excluded), every package of the module is
// parsed and type-checked from source, and only dependencies outside the module come from compiler
// export data.

const modPath = "github.com/l7mp/dcontroller"

type Pkg struct {
	Path    string
	Dir     string
	Name    string
	GoFiles []string
	Imports []string

	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg
	Order []*Pkg
	SSA   *ssa.Program
	Funcs []*ssa.Function // every function with a body in the module, incl. anonymous

	callers map[*ssa.Function][]ssa.CallInstruction // static callers in the module
	addrOf  map[*ssa.Function]bool                  // used as a value
	gone    map[*ssa.Function]bool                  // put back where it is called (inline.go)
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "PATH", "GOOS", "GOARCH", "GO111MODULE":
			continue
		}
		env = append(env, kv)
	}
	path := "/opt/veriftools/go1.24.13/bin:" + os.Getenv("PATH")
	return append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
}

func goBin() string {
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		return "/opt/veriftools/go1.24.13/bin/go"
	}
	return "go"
}

func goList(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command(goBin(), append([]string{"list"}, args...)...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return out, fmt.Errorf("go list %s: %w: %s", strings.Join(args, " "), err, errb.String())
	}
	return out, nil
}

// exportIndex maps import paths to export data files prepared by the setup step.
type exportIndex struct {
	dir   string
	files map[string]string
	repo  string
}

func (x *exportIndex) find(path string) (string, error) {
	if f, ok := x.files[path]; ok {
		if _, err := os.Stat(f); err == nil {
			return f, nil
		}
	}
	out, err := goList(x.repo, "-export", "-f", "{{.Export}}", path)
	if err != nil {
		return "", err
	}
	f := strings.TrimSpace(string(out))
	if f == "" {
		return "", fmt.Errorf("no export data for %s", path)
	}
	x.files[path] = f
	return f, nil
}

// prefetch asks for all missing paths in one go.
func (x *exportIndex) prefetch(paths []string) error {
	var missing []string
	for _, p := range paths {
		if f, ok := x.files[p]; ok {
			if _, err := os.Stat(f); err == nil {
				continue
			}
		}
		missing = append(missing, p)
	}
	if len(missing) == 0 {
		return nil
	}
	out, err := goList(x.repo, append([]string{"-export", "-f", "{{.ImportPath}}\t{{.Export}}"}, missing...)...)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok && f != "" {
			x.files[p] = f
		}
	}
	return nil
}

func listPkgs(repo string) (map[string]*Pkg, error) {
	out, err := goList(repo, "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Imports", "./...")
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	pkgs := map[string]*Pkg{}
	for {
		var p struct {
			ImportPath, Dir, Name      string
			GoFiles, CgoFiles, Imports []string
		}
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if len(p.GoFiles) == 0 {
			continue // test-only package
		}
		pkgs[p.ImportPath] = &Pkg{Path: p.ImportPath, Dir: p.Dir, Name: p.Name, GoFiles: p.GoFiles, Imports: p.Imports}
	}
	return pkgs, nil
}

func externalImports(pkgs map[string]*Pkg) []string {
	set := map[string]bool{}
	for _, p := range pkgs {
		for _, i := range p.Imports {
			if pkgs[i] == nil && i != "unsafe" && i != "C" {
				set[i] = true
			}
		}
	}
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type repoImporter struct {
	pkgs  map[string]*Pkg
	ext   map[string]*types.Package
	index *exportIndex
	fset  *token.FileSet
}

func (im *repoImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := im.pkgs[path]; p != nil {
		if p.Types == nil {
			return nil, fmt.Errorf("import of %s before it was checked", path)
		}
		return p.Types, nil
	}
	if p := im.ext[path]; p != nil && p.Complete() {
		return p, nil
	}
	f, err := im.index.find(path)
	if err != nil {
		return nil, err
	}
	fh, err := os.Open(f)
	if err != nil {
		return nil, err
	}
	defer fh.Close()
	r, err := gcexportdata.NewReader(fh)
	if err != nil {
		return nil, err
	}
	return gcexportdata.Read(r, im.fset, im.ext, path)
}

func loadIndex(repo, depsDir string) *exportIndex {
	x := &exportIndex{dir: depsDir, files: map[string]string{}, repo: repo}
	if b, err := os.ReadFile(filepath.Join(depsDir, "index.json")); err == nil {
		m := map[string]string{}
		if json.Unmarshal(b, &m) == nil {
			for p, f := range m {
				x.files[p] = filepath.Join(depsDir, f)
			}
		}
	}
	return x
}

// setupDeps copies the export data the analysis needs into dir, so that a check compiles nothing.
func setupDeps(repo, dir string) error {
	pkgs, err := listPkgs(repo)
	if err != nil {
		return err
	}
	args := []string{"-export", "-f", "{{.ImportPath}}\t{{.Export}}"}
	args = append(args, externalImports(pkgs)...)
	for _, s := range []string{"bufio", "bytes", "cmp", "container/heap", "container/list", "context", "crypto/subtle", "errors",
		"fmt", "io", "iter", "maps", "math", "os", "path", "path/filepath", "reflect", "regexp", "runtime", "runtime/debug", "slices",
		"sort", "strconv", "strings", "sync", "sync/atomic", "time", "unicode", "encoding/json", "encoding/base64", "net/http", "log"} {
		args = append(args, s)
	}
	out, err := goList(repo, args...)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	index := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		p, f, ok := strings.Cut(l, "\t")
		if !ok || f == "" {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		name := strings.NewReplacer("/", "_", "@", "_").Replace(p) + ".x"
		if err := os.WriteFile(filepath.Join(dir, name), b, 0o644); err != nil {
			return err
		}
		index[p] = name
	}
	b, _ := json.MarshalIndent(index, "", " ")
	return os.WriteFile(filepath.Join(dir, "index.json"), b, 0o644)
}

func load(repo, depsDir string) (*Program, error) {
	pkgs, err := listPkgs(repo)
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	im := &repoImporter{pkgs: pkgs, ext: map[string]*types.Package{}, index: loadIndex(repo, depsDir), fset: fset}
	if err := im.index.prefetch(externalImports(pkgs)); err != nil {
		return nil, err
	}

	// topological order
	var order []*Pkg
	state := map[string]int{}
	var visit func(p *Pkg) error
	visit = func(p *Pkg) error {
		switch state[p.Path] {
		case 1:
			return fmt.Errorf("import cycle through %s", p.Path)
		case 2:
			return nil
		}
		state[p.Path] = 1
		for _, i := range p.Imports {
			if d := pkgs[i]; d != nil {
				if err := visit(d); err != nil {
					return err
				}
			}
		}
		state[p.Path] = 2
		order = append(order, p)
		return nil
	}
	var paths []string
	for p := range pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		if err := visit(pkgs[p]); err != nil {
			return nil, err
		}
	}

	sprog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	for _, p := range order {
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		p.Info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
		}
		var firstErr error
		conf := types.Config{Importer: im, GoVersion: "go1.24", Sizes: types.SizesFor("gc", "amd64"),
			Error: func(err error) {
				if firstErr == nil {
					firstErr = err
				}
			}}
		tp, _ := conf.Check(p.Path, fset, p.Files, p.Info)
		if firstErr != nil {
			return nil, fmt.Errorf("type-check %s: %w", p.Path, firstErr)
		}
		p.Types = tp
	}

	// SSA: bodies for the module, declarations only for everything else.
	created := map[*types.Package]bool{}
	var createDeps func(tp *types.Package)
	createDeps = func(tp *types.Package) {
		for _, d := range tp.Imports() {
			if !created[d] && pkgs[d.Path()] == nil {
				created[d] = true
				sprog.CreatePackage(d, nil, nil, true)
				createDeps(d)
			}
		}
	}
	for _, p := range order {
		createDeps(p.Types)
	}
	for _, p := range order {
		p.SSA = sprog.CreatePackage(p.Types, p.Files, p.Info, true)
	}
	sprog.Build()

	pr := &Program{Fset: fset, Pkgs: pkgs, Order: order, SSA: sprog}
	pr.index()
	if pr.inline(); len(pr.gone) > 0 {
		pr.Funcs = nil
		pr.index()
	}
	pr.canon()
	return pr, nil
}

func (pr *Program) index() {
	seen := map[*ssa.Function]bool{}
	for f := range pr.gone {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			pr.Funcs = append(pr.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range pr.Order {
		var names []string
		for n := range p.SSA.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.SSA.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					add(pr.SSA.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	pr.callers = map[*ssa.Function][]ssa.CallInstruction{}
	pr.addrOf = map[*ssa.Function]bool{}
	for i := 0; i < len(pr.Funcs); i++ {
		f := pr.Funcs[i]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						pr.callers[callee] = append(pr.callers[callee], c)
						if callee.Blocks != nil && !seen[callee] && inModule(callee) {
							add(callee) // generic instance or synthetic wrapper
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isCall := in.(ssa.CallInstruction); isCall && c.Common().Value == *op {
						continue
					}
					pr.addrOf[g] = true
				}
			}
		}
	}
}

func inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), modPath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return false
}
