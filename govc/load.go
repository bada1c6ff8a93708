package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/xconnio/wampproto-go"

// World is the loaded program.
type World struct {
	repo    string
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by short path: wamp, auth, ...
	tpkgs   map[string]*types.Package
	funcs   map[string]*ssa.Function // by contract name
	funcID  map[*ssa.Function]int
	clos    []*FuncVal
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	mutable map[*ssa.Global]bool
	helpers map[string]*FnResult // helper contracts that were tried: nil if not proved
	noCuts  map[string]bool
	init    *State
	initMap map[int64]bool // refs of maps built by package initialisation
	specs   *SpecSet
	nlines  int
	mtypes  []*msgType
	renamed map[string]string // private fields that the contracts know by another name
	seed    *Term
}

type FuncVal struct {
	fn   *ssa.Function
	bind []*Val
}

func shortPkg(path string) string {
	s := strings.TrimPrefix(path, modPath)
	s = strings.TrimPrefix(s, "/")
	if s == "" {
		return "wamp"
	}
	return s
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func loadWorld(repo, harnessDir string) (*World, error) {
	overlay := map[string][]byte{}
	if harnessDir != "" {
		fs, _ := filepath.Glob(filepath.Join(harnessDir, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			// name: <pkg>__<anything>.go
			base := filepath.Base(f)
			i := strings.Index(base, "__")
			if i < 0 {
				continue
			}
			data, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			dir := repo
			if p := base[:i]; p != "wamp" {
				dir = filepath.Join(repo, p)
			}
			overlay[filepath.Join(dir, "zz_govc_"+base[i+2:])] = data
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pats := []string{"."}
	ents, _ := os.ReadDir(repo)
	for _, e := range ents {
		n := e.Name()
		if !e.IsDir() || n == "tests" || strings.HasPrefix(n, ".") || n == "testdata" {
			continue
		}
		if gos, _ := filepath.Glob(filepath.Join(repo, n, "*.go")); len(gos) > 0 {
			pats = append(pats, "./"+n)
		}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", repo, strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, funcID: map[*ssa.Function]int{}, globals: map[*ssa.Global]int{},
		noCuts: map[string]bool{}, helpers: map[string]*FnResult{}, mutable: map[*ssa.Global]bool{}, initMap: map[int64]bool{}}
	w.clos = append(w.clos, nil)
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.pkgs[shortPkg(p.Pkg.Path())] = p
		w.tpkgs[shortPkg(p.Pkg.Path())] = p.Pkg
		for _, imp := range p.Pkg.Imports() {
			if _, ok := w.tpkgs[shortPkg(imp.Path())]; !ok {
				w.tpkgs[shortPkg(imp.Path())] = imp
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		w.funcs[funcName(fn)] = fn
	}
	// make sure every method of the module's types is there
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				w.funcs[funcName(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" {
							w.funcs[funcName(fn)] = fn
						}
					}
				}
			}
		}
	}
	w.findMutable()
	return w, nil
}

// funcName is the name contracts use: pkg.Func, pkg.(*T).Method, pkg.T.Method.
func funcName(fn *ssa.Function) string {
	o := fn
	pkg := ""
	if o.Pkg != nil {
		pkg = shortPkg(o.Pkg.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = shortPkg(fn.Origin().Pkg.Pkg.Path())
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		name := t.String()
		if n, ok := types.Unalias(t).(*types.Named); ok {
			name = n.Obj().Name()
		}
		if star != "" {
			return pkg + ".(*" + name + ")." + fn.Name()
		}
		return pkg + "." + name + "." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

// findMutable marks the package variables that something outside package
// initialisation may write.
func (w *World) findMutable() {
	root := func(v ssa.Value) *ssa.Global {
		for {
			switch a := v.(type) {
			case *ssa.Global:
				return a
			case *ssa.FieldAddr:
				v = a.X
			case *ssa.IndexAddr:
				v = a.X
			default:
				return nil
			}
		}
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
			continue
		}
		isInit := strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
					continue
				case *ssa.Store:
					if g := root(in.Addr); g != nil && !isInit {
						w.mutable[g] = true
					}
					if g := root(in.Val); g != nil {
						w.mutable[g] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g := root(*op); g != nil {
						w.mutable[g] = true
					}
				}
			}
		}
	}
}

func (w *World) globalRef(g *ssa.Global) int64 {
	k, ok := w.globals[g]
	if !ok {
		k = len(w.glist) + 1
		w.globals[g] = k
		w.glist = append(w.glist, g)
	}
	return -int64(k)
}

func (w *World) funcTerm(fn *ssa.Function, bind []*Val) *Term {
	if len(bind) == 0 {
		id, ok := w.funcID[fn]
		if !ok {
			id = len(w.clos)
			w.clos = append(w.clos, &FuncVal{fn: fn})
			w.funcID[fn] = id
		}
		return IntT(int64(id))
	}
	w.clos = append(w.clos, &FuncVal{fn: fn, bind: bind})
	return IntT(int64(len(w.clos) - 1))
}

// The contracts name private fields as they were when they were written. fields.txt keeps the
// fields of each struct with their types at that time: a name it has and the struct does not
// have any more stands for the field of the same type that is new, in order of declaration.
// It is vocabulary only: what is proved is proved of the field found.

func (w *World) structFields(f func(name string, s *types.Struct)) {
	for _, k := range sortedKeys(w.tpkgs) {
		p := w.tpkgs[k]
		if !inModule(p) {
			continue
		}
		for _, n := range p.Scope().Names() {
			tn, ok := p.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok && s.NumFields() > 0 {
				f(k+"."+n, s)
			}
		}
	}
}

func fieldType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *World) dumpFields() string {
	var sb strings.Builder
	w.structFields(func(name string, s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			fmt.Fprintf(&sb, "%s\t%s\t%s\n", name, s.Field(i).Name(), fieldType(s.Field(i).Type()))
		}
	})
	return sb.String()
}

// loadFields finds the fields that were renamed since.
func (w *World) loadFields(file string) {
	w.renamed = map[string]string{}
	data, err := os.ReadFile(file)
	if err != nil {
		return
	}
	was := map[string][][2]string{}
	for _, l := range strings.Split(string(data), "\n") {
		if p := strings.Split(l, "\t"); len(p) == 3 {
			was[p[0]] = append(was[p[0]], [2]string{p[1], p[2]})
		}
	}
	w.structFields(func(name string, s *types.Struct) {
		old := map[string]bool{}
		for _, f := range was[name] {
			old[f[0]] = true
		}
		now := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			now[s.Field(i).Name()] = true
		}
		taken := map[int]bool{}
		for _, f := range was[name] {
			if now[f[0]] {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				if g := s.Field(i); !old[g.Name()] && !taken[i] && fieldType(g.Type()) == f[1] {
					taken[i] = true
					w.renamed[name+"."+f[0]] = g.Name()
					break
				}
			}
		}
	})
}
