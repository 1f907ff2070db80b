package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hired/gevulot"

// Program is the type-checked and SSA-built repository (tests excluded, default build flags).
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	SSA   *ssa.Program
	ByRel map[string]*ssa.Package // "pkg/pg" -> package ("" is main)
	Funcs []*ssa.Function         // every source function of the repository, closures included
	Files int

	valNum map[*ssa.Function]map[ssa.Value]int
	live   map[*ssa.Function]*liveness

	parsed string // whether the parsed queries stay as they are: yes or no
}

func loadProgram(dir string) (*Program, error) { return loadFor(dir, nil) }

// loadFor loads the program as it is built with additional environment settings.
func loadFor(dir string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedModule | packages.NeedDeps,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), env...),
	}

	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}

	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not load: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}

	intBits = 64
	if sz := pkgs[0].TypesSizes; sz != nil && sz.Sizeof(types.Typ[types.Int]) == 4 {
		intBits = 32
	}

	prog, ssaPkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()

	p := &Program{Dir: dir, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByRel: map[string]*ssa.Package{},
		valNum: map[*ssa.Function]map[ssa.Value]int{}, live: map[*ssa.Function]*liveness{}}

	for i, sp := range ssaPkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(sp.Pkg.Path(), modPath), "/")
		p.ByRel[rel] = sp
		p.Files += len(pkgs[i].CompiledGoFiles)
	}

	all := ssautil.AllFunctions(prog)
	// methods that nothing in the program uses are part of it as well
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn != nil && !all[fn] {
			all[fn] = true
			for _, a := range fn.AnonFuncs {
				add(a)
			}
		}
	}
	for _, sp := range p.ByRel {
		for _, mem := range sp.Members {
			tn, ok := mem.Object().(*types.TypeName)
			if !ok {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	for fn := range all {
		if fn.Pkg == nil || fn.Blocks == nil || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if !p.inRepo(fn) || fn.Synthetic != "" {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].Pos(), p.Funcs[j].Pos(); a != b {
			return a < b
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})

	return p, nil
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	return false
}

func relPkg(path string) string {
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.Dir+"/"), ps.Line)
}

// method finds a method or function: "pkg/pg", "Conn", "RecvMessage" (recv "" = package function).
func (p *Program) fn(rel, recv, name string) *ssa.Function {
	pkg := p.ByRel[rel]
	if pkg == nil {
		return nil
	}
	if recv == "" {
		return pkg.Func(name)
	}
	t := pkg.Type(recv)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		if sel := ms.Lookup(pkg.Pkg, name); sel != nil {
			f := p.SSA.MethodValue(sel)
			if f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// ---- value numbering and liveness -------------------------------------------------------------

type liveness struct {
	out map[*ssa.BasicBlock]map[ssa.Value]bool
	rec map[liveKey][]ssa.Value
}

type liveKey struct {
	b  *ssa.BasicBlock
	pc int
}

func (p *Program) numbering(fn *ssa.Function) map[ssa.Value]int {
	if m := p.valNum[fn]; m != nil {
		return m
	}
	m := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { m[v] = n; n++ }
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	p.valNum[fn] = m
	return m
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (p *Program) liveness(fn *ssa.Function) *liveness {
	if l := p.live[fn]; l != nil {
		return l
	}
	l := &liveness{out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, rec: map[liveKey][]ssa.Value{}}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		l.out[b] = map[ssa.Value]bool{}
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := l.out[b]
			for _, s := range b.Succs {
				for v := range in[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if e := phi.Edges[pi]; trackable(e) && !out[e] {
							out[e] = true
							changed = true
						}
					}
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range out {
				cur[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && trackable(*op) {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	p.live[fn] = l
	return l
}

// liveAt lists the values needed when execution is about to run b.Instrs[pc] (phis of b are done).
func (p *Program) liveAt(b *ssa.BasicBlock, pc int) []ssa.Value {
	l := p.liveness(b.Parent())
	k := liveKey{b, pc}
	if r, ok := l.rec[k]; ok {
		return r
	}
	cur := map[ssa.Value]bool{}
	for v := range l.out[b] {
		cur[v] = true
	}
	for j := len(b.Instrs) - 1; j >= pc; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			delete(cur, v)
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if op != nil && *op != nil && trackable(*op) {
				cur[*op] = true
			}
		}
	}
	num := p.numbering(b.Parent())
	var r []ssa.Value
	for v := range cur {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return num[r[i]] < num[r[j]] })
	l.rec[k] = r
	return r
}
