package gover

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded source of the repository together with the contracts laid
// over it.
type Prog struct {
	Root string
	Mod  string
	Fset *token.FileSet
	SSA  *ssa.Program
	Pkgs map[string]*ssa.Package // import path below the module -> package
	All  []*packages.Package
	mu   sync.Mutex
	// Parse turns schema text into a parse tree.
	Parse func(text string) (*Node, string, error)

	invs    map[string]*ssa.Function
	specs   map[string]*ssa.Function // callee contracts
	loops   map[*ssa.Function]*loopInfo
	errT    types.Type
	nodeT   map[string]types.Type
	mustKey map[string]types.Type
}

// Load reads the packages below root with the given overlay.
func Load(root, mod string, overlay map[string][]byte, env []string, pats ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     root,
		Env:     env,
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var bad []string
	for _, p := range ps {
		for _, e := range p.Errors {
			bad = append(bad, e.Error())
		}
	}
	if len(bad) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(bad, "\n"))
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	P := &Prog{Root: root, Mod: mod, Fset: cfg.Fset, SSA: prog, Pkgs: map[string]*ssa.Package{}, All: ps,
		invs: map[string]*ssa.Function{}, specs: map[string]*ssa.Function{}, loops: map[*ssa.Function]*loopInfo{}, nodeT: map[string]types.Type{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("load: no SSA for %s", ps[i].PkgPath)
		}
		P.Pkgs[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), mod), "/")] = p
		for n, mem := range p.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "Inv_") {
				P.invs[n] = f
			}
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, "Spec_") {
				P.specs[n] = f
			}
		}
	}
	tn := types.NewTypeName(token.NoPos, types.NewPackage("verif/native", "native"), "Error", nil)
	nt := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
	sig := types.NewSignatureType(types.NewVar(token.NoPos, nil, "e", types.NewPointer(nt)), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String])), false)
	nt.AddMethod(types.NewFunc(token.NoPos, tn.Pkg(), "Error", sig))
	P.errT = types.NewPointer(nt)
	return P, nil
}

func (p *Prog) at(pos token.Pos) string {
	if pos == token.NoPos {
		return ""
	}
	q := p.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.Root), "/"), q.Line)
}

// Harnesses lists the functions whose names start with prefix.
func (p *Prog) Harnesses(prefix string) []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.Pkgs {
		for n, mem := range pk.Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prefix) {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// ---- loops ----

type loopInfo struct {
	heads map[*ssa.BasicBlock]*loop
	list  []*loop
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	n    int
}

func (p *Prog) loopsOf(fn *ssa.Function) *loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.heads[s]
			if l == nil {
				l = &loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				li.heads[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range li.heads {
		li.list = append(li.list, l)
	}
	sort.Slice(li.list, func(i, j int) bool { return li.list[i].head.Index < li.list[j].head.Index })
	for i, l := range li.list {
		l.n = i + 1
	}
	p.loops[fn] = li
	return li
}

// funcKey is the name contracts use for a function: Recv_Name.
func funcKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			return nt.Obj().Name() + "_" + n
		}
	}
	return n
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOWORK=off")
}
