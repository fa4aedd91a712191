package gover

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"path/filepath"
	"sort"
	"strings"

	"verif/smt"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]V
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []func()
	caller *frame
	li     *loopInfo
	old    map[string]V
	visits map[*ssa.BasicBlock]int
	opens  map[*ssa.BasicBlock]int
	tests  map[*ssa.BasicBlock]bool // blocks whose test was undecided
	names  map[string]ssa.Value
	ret    V
}

func (m *Machine) init(pk *ssa.Package) {
	if pk == nil || m.inited[pk] {
		return
	}
	m.inited[pk] = true
	f := pk.Func("init")
	if f == nil {
		return
	}
	cuts, pure := m.cuts, m.pure
	m.cuts, m.pure = nil, 0
	m.callFn(f, nil, nil)
	m.cuts, m.pure = cuts, pure
}

func (m *Machine) global(g *ssa.Global) *V {
	if p, ok := m.globals[g]; ok {
		return p
	}
	if !m.ours(g.Pkg) {
		panic(unsupported("global %s", g))
	}
	p := m.alloc(deref(g.Type()))
	m.globals[g] = p
	if g.Name() != "init$guard" {
		m.init(g.Pkg)
	}
	return m.globals[g]
}

func (m *Machine) ours(pk *ssa.Package) bool {
	if pk == nil {
		return true
	}
	_, ok := m.P.Pkgs[trimMod(pk.Pkg.Path(), m.P.Mod)]
	return ok
}

func trimMod(path, mod string) string {
	if path == mod {
		return ""
	}
	if len(path) > len(mod) && path[:len(mod)] == mod && path[len(mod)] == '/' {
		return path[len(mod)+1:]
	}
	return path
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// CallNamed runs a function of the program.
func (m *Machine) CallNamed(fn *ssa.Function, args ...V) V { return m.callFn(fn, args, nil) }

func (m *Machine) callFn(fn *ssa.Function, args []V, free []V) V {
	if v, ok := m.native(fn, args); ok {
		return v
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("call of %s, which has no source here", fn))
	}
	if r := m.replace[funcKey(fn)]; r != nil && fn != r.Fn {
		m.Out.Contract["(argument of) "+strings.ReplaceAll(fn.RelString(nil), m.P.Mod+"/", "")] = true
		return m.callFn(r.Fn, args, r.Free)
	}
	if sp := m.P.specs["Spec_"+funcKey(fn)]; sp != nil && m.pure == 0 && !m.NoInv && !m.inline[funcKey(fn)] && anySym(args) && fn.Signature.Results().Len() > 0 {
		return m.callSpec(fn, sp, args)
	}
	if m.depth > 400 {
		panic(unsupported("recursion deeper than 400 calls in %s", fn))
	}
	if fn.Pkg != nil && fn.Synthetic == "" {
		m.init(fn.Pkg)
	}
	if o := fn.Origin(); o != nil || fn.Synthetic == "" {
		if o == nil {
			o = fn
		}
		if at := m.P.at(o.Pos()); at != "" && !strings.HasPrefix(filepath.Base(at), "zz_") && m.top != nil && o.Parent() == nil {
			m.Out.Funcs[strings.ReplaceAll(o.RelString(nil), m.P.Mod+"/", "")] = true
		}
	}
	f := &frame{fn: fn, env: map[ssa.Value]V{}, caller: m.top}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = free[i]
	}
	if len(m.P.invs) > 0 {
		m.prepInv(f, args)
	}
	m.top = f
	m.depth++
	cuts := len(m.cuts)
	v := m.run(f)
	m.cuts = m.cuts[:cuts]
	m.depth--
	m.top = f.caller
	return v
}

// callSpec replaces a call by the callee's contract.
func (m *Machine) callSpec(fn, sp *ssa.Function, args []V) V {
	m.Out.Contract[strings.ReplaceAll(fn.RelString(nil), m.P.Mod+"/", "")] = true
	res := fn.Signature.Results()
	var rs Tuple
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, m.fresh("r."+fn.Name(), res.At(i).Type()))
	}
	t := m.pureBool(func() V { return m.callFn(sp, append(append([]V{}, args...), rs...), nil) })
	m.Assume(t)
	if len(rs) == 1 {
		return rs[0]
	}
	return rs
}

func anySym(args []V) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *smt.Term, *SymSlice, *SymMap:
			return true
		case Struct:
			if anySym(x) {
				return true
			}
		case Slice:
			if anySym(x.s) {
				return true
			}
		}
	}
	return false
}

func (m *Machine) run(f *frame) (ret V) {
	if hasDefer(f.fn) {
		depth, top := m.depth, m.top
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			m.depth, m.top = depth, top
			m.panicking = &gp
			for len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				d()
			}
			if m.panicking != nil {
				panic(*m.panicking)
			}
			// recovered: run the recover block
			if f.fn.Recover != nil {
				f.prev, f.block = nil, f.fn.Recover
				ret = m.loop(f)
				return
			}
			ret = zeroResult(f.fn)
		}()
	}
	f.block = f.fn.Blocks[0]
	return m.loop(f)
}

func zeroResult(fn *ssa.Function) V {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func hasDefer(fn *ssa.Function) bool { return fn.Recover != nil }

func (m *Machine) loop(f *frame) V {
	for {
		b := f.block
		m.enter(f, b)
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			m.steps++
			if m.steps > m.MaxSteps {
				panic(unsupported("more than %d steps", m.MaxSteps))
			}
			m.cur = in
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				open := m.open
				if m.cond(m.get(f, x.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
				if m.open > open {
					if f.tests == nil {
						f.tests = map[*ssa.BasicBlock]bool{}
					}
					f.tests[b] = true
				}
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return nil
				case 1:
					return cp(m.get(f, x.Results[0]))
				}
				t := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					t[i] = cp(m.get(f, r))
				}
				return t
			case *ssa.Panic:
				panic(goPanic{v: m.get(f, x.X), pos: x.Pos(), why: "panic(" + m.show(m.get(f, x.X)) + ") in " + f.fn.String()})
			default:
				m.instr(f, in)
			}
		}
		f.prev, f.block = b, next
	}
}

// enter handles block entry: loop cuts, loop bounds and phis.
func (m *Machine) enter(f *frame, b *ssa.BasicBlock) {
	// leaving a cut loop
	for len(m.cuts) > 0 {
		c := m.cuts[len(m.cuts)-1]
		if c.frame == f && !m.P.loopsOf(f.fn).heads[c.head].body[b] {
			m.cuts = m.cuts[:len(m.cuts)-1]
			continue
		}
		break
	}
	phis := func() {
		var vs []V
		var ps []*ssa.Phi
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pr := range b.Preds {
				if pr == f.prev {
					vs = append(vs, m.get(f, p.Edges[i]))
					break
				}
			}
			ps = append(ps, p)
		}
		for i, p := range ps {
			f.env[p] = vs[i]
		}
	}
	if f.prev == nil {
		return
	}
	if f.li == nil {
		f.li = m.P.loopsOf(f.fn)
	}
	l := f.li.heads[b]
	if l == nil {
		phis()
		return
	}
	inv := m.P.invs[fmt.Sprintf("Inv_%s_%d", funcKey(f.fn), l.n)]
	if m.NoInv {
		inv = nil
	}
	back := l.body[f.prev]
	if inv == nil {
		phis()
		if f.visits == nil {
			f.visits, f.opens = map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
		}
		if !back {
			f.visits[b], f.opens[b] = 0, m.open
			return
		}
		if m.open > f.opens[b] {
			f.visits[b]++
			f.opens[b] = m.open
			// A loop whose own test is always decided ends by itself.
			max := m.LoopMax
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !f.tests[b] {
				max = 64
			}
			if f.visits[b] > max {
				m.Out.Bounded[fmt.Sprintf("%s loop %d", f.fn.RelString(nil), l.n)] = max
				panic(endPath{"bound"})
			}
		}
		return
	}
	if back {
		var c *cut
		if n := len(m.cuts); n > 0 && m.cuts[n-1].head == b && m.cuts[n-1].frame == f {
			c = m.cuts[n-1]
		}
		if c == nil {
			panic(unsupported("loop structure of %s", f.fn))
		}
		phis()
		m.provInv(f, inv, l, "preserved", f.prev)
		panic(endPath{"cut"})
	}
	phis()
	m.provInv(f, inv, l, "holds on entry", f.prev)
	key := fmt.Sprintf("%s@%d", f.fn.String(), b.Index)
	hv := map[string]bool{}
	for k := range m.modset[key] {
		hv[k] = true
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		f.env[p] = m.fresh("h."+p.Comment, p.Type())
	}
	// string iterators of this loop
	for _, in := range b.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := m.get(f, nx.Iter).(*strIter); ok {
				n := *it
				n.pos = m.newVar("h.pos", smt.Int)
				m.ranges[n.pos] = [2]*big.Int{new(big.Int), big.NewInt(1 << 40)}
				m.assume(m.C.Le(m.C.Int(0), n.pos))
				m.assume(m.C.Le(n.pos, m.C.StrLen(n.s)))
				f.env[nx.Iter] = &n
			}
		}
	}
	m.havoc(hv)
	m.Out.Cuts++
	m.cuts = append(m.cuts, &cut{key: key, serial: m.serial, havoc: hv, frame: f, head: b})
	m.assumeInv(f, inv, l)
}

func (m *Machine) prepInv(f *frame, args []V) {
	k := funcKey(f.fn)
	for i := 1; i < 6; i++ {
		inv := m.P.invs[fmt.Sprintf("Inv_%s_%d", k, i)]
		if inv == nil {
			continue
		}
		for _, p := range inv.Params {
			n := p.Name()
			if len(n) > 4 && n[:4] == "old_" {
				for j, q := range f.fn.Params {
					if q.Name() == n[4:] {
						if f.old == nil {
							f.old = map[string]V{}
						}
						f.old[n[4:]] = deep(args[j], map[any]any{})
					}
				}
			}
		}
	}
}

// invArgs resolves the parameters of a loop invariant to the values the named
// variables have at the loop head.
func (m *Machine) invArgs(f *frame, inv *ssa.Function, l *loop) []V {
	var out []V
	for _, p := range inv.Params {
		n := p.Name()
		v, ok := m.lookupVar(f, n, l)
		if !ok {
			panic(unsupported("the invariant %s names %s, which %s does not have", inv.Name(), n, f.fn))
		}
		if pt, isp := p.Type().Underlying().(*types.Pointer); !isp || pt == nil {
			if pv, ok := v.(*V); ok && pv != nil { // captured variable
				v = *pv
			}
		}
		out = append(out, v)
	}
	return out
}

func (m *Machine) lookupVar(f *frame, n string, l *loop) (V, bool) {
	if len(n) > 4 && n[:4] == "old_" {
		v, ok := f.old[n[4:]]
		return v, ok
	}
	if n == "pos_" {
		for _, in := range l.head.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := f.env[nx.Iter].(*strIter); ok {
					return m.val(it.pos), true
				}
			}
		}
		return nil, false
	}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == n {
			return f.env[p], true
		}
		if n == "idx_" && p.Comment == "rangeindex" {
			v := f.env[p]
			return v, true
		}
	}
	// last definition that dominates the head
	var best ssa.Value
	for _, b := range f.fn.Blocks {
		if !b.Dominates(l.head) || b == l.head {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if x.Comment == n {
					best = x
				}
			case *ssa.DebugRef:
				if o := x.Object(); o != nil && o.Name() == n {
					if _, ok := f.env[x.X]; ok {
						best = x.X
					} else if _, ok := x.X.(*ssa.Const); ok {
						best = x.X
					}
				}
			case *ssa.Alloc:
				if x.Comment == n {
					if p, ok := f.env[x].(*V); ok {
						_ = p
						best = x
					}
				}
			}
		}
	}
	if best != nil {
		v := m.get(f, best)
		if _, ok := best.(*ssa.Alloc); ok {
			return *(v.(*V)), true
		}
		return v, true
	}
	for _, p := range f.fn.Params {
		if p.Name() == n {
			return f.env[p], true
		}
	}
	for _, p := range f.fn.FreeVars {
		if p.Name() == n {
			return *(f.env[p].(*V)), true
		}
	}
	return nil, false
}

func (m *Machine) provInv(f *frame, inv *ssa.Function, l *loop, what string, from *ssa.BasicBlock) {
	t := m.pureBool(func() V { return m.callFn(inv, m.invArgs(f, inv, l), nil) })
	pos := ""
	for _, in := range l.head.Instrs {
		if in.Pos() != token.NoPos {
			pos = m.P.at(in.Pos())
			break
		}
	}
	m.ProveAt(fmt.Sprintf("invariant of loop %d of %s %s", l.n, funcKey(f.fn), what), pos, t)
}

func (m *Machine) assumeInv(f *frame, inv *ssa.Function, l *loop) {
	t := m.pureBool(func() V { return m.callFn(inv, m.invArgs(f, inv, l), nil) })
	m.Assume(t)
}

// pureBool evaluates a boolean without effects into one term, merging the
// paths it takes.
func (m *Machine) pureBool(f func() V) *smt.Term {
	var alts []*smt.Term
	c := m.C
	m.pureRun(f, func(pc []*smt.Term, v V) {
		alts = append(alts, c.And(append(append([]*smt.Term{}, pc...), m.term(v, types.Typ[types.Bool]))...))
	})
	return c.Or(alts...)
}

func (m *Machine) pureRun(f func() V, each func(pc []*smt.Term, v V)) {
	dec, pos, pending := m.dec, m.pos, m.pending
	base := len(m.pc)
	top, depth, cuts, cur := m.top, m.depth, m.cuts, m.cur
	m.pure++
	defer func() {
		m.pure--
		m.dec, m.pos, m.pending = dec, pos, pending
		m.pc = m.pc[:base]
		m.top, m.depth, m.cuts, m.cur = top, depth, cuts, cur
	}()
	m.pending = [][]bool{nil}
	var facts []*smt.Term
	n := 0
	for len(m.pending) > 0 {
		n++
		if n > 512 {
			panic(unsupported("more than 512 paths in a specification"))
		}
		m.dec = m.pending[len(m.pending)-1]
		m.pending = m.pending[:len(m.pending)-1]
		m.pos = 0
		m.pc = m.pc[:base:base]
		m.top, m.depth, m.cuts = top, depth, nil
		v, ok := m.pureOne(f)
		if !ok {
			continue
		}
		each(append([]*smt.Term{}, m.pc[base:]...), v)
	}
	_ = facts
}

func (m *Machine) pureOne(f func() V) (v V, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, isEnd := r.(endPath); isEnd && e.why == "infeasible" {
				ok = false
				return
			}
			if gp, isP := r.(goPanic); isP {
				// a specification that would panic on this case says nothing: false
				_ = gp
				v, ok = false, true
				return
			}
			panic(r)
		}
	}()
	return f(), true
}

// ---- operands ----

func (m *Machine) get(f *frame, v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constant(x)
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Global:
		return m.global(x)
	case *ssa.Builtin:
		return x
	}
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Errorf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func (m *Machine) constant(x *ssa.Const) V {
	t := x.Type()
	if x.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(x.Value)
			if i, ok := constant.Int64Val(v); ok {
				return i
			}
			u, _ := constant.Uint64Val(v)
			return int64(u)
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(x.Value)
		case b.Info()&types.IsString != 0:
			return constant.StringVal(x.Value)
		case b.Info()&types.IsFloat != 0:
			g, _ := constant.Float64Val(x.Value)
			return g
		}
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic(unsupported("type parameter %s", tp))
	}
	panic(unsupported("constant %s", x))
}

// ---- instructions ----

func (m *Machine) instr(f *frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		f.env[x] = m.alloc(deref(x.Type()))
	case *ssa.BinOp:
		f.env[x] = m.binop(x.Op, m.get(f, x.X), m.get(f, x.Y), x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
	case *ssa.UnOp:
		f.env[x] = m.unop(f, x)
	case *ssa.ChangeType:
		f.env[x] = m.get(f, x.X)
	case *ssa.ChangeInterface:
		f.env[x] = m.get(f, x.X)
	case *ssa.Convert:
		f.env[x] = m.convert(m.get(f, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		v := m.get(f, x.X)
		f.env[x] = Iface{x.X.Type(), cp(v)}
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Free = append(c.Free, m.get(f, b))
		}
		f.env[x] = c
	case *ssa.MakeMap:
		mp := newMap()
		mp.t, _ = x.Type().Underlying().(*types.Map)
		m.track(mp)
		f.env[x] = mp
	case *ssa.MakeSlice:
		n, ok := m.get(f, x.Len).(int64)
		if !ok {
			panic(unsupported("make of unknown length at %s", m.P.at(x.Pos())))
		}
		if n < 0 {
			panic(goPanic{pos: x.Pos(), why: "makeslice: len out of range"})
		}
		e := x.Type().Underlying().(*types.Slice).Elem()
		s := make([]V, n)
		for i := range s {
			s[i] = zero(e)
		}
		m.regSlice(s, e)
		f.env[x] = Slice{s}
	case *ssa.Slice:
		f.env[x] = m.slice(f, x)
	case *ssa.FieldAddr:
		f.env[x] = m.fieldAddr(m.get(f, x.X), x.Field, deref(x.X.Type()), x.Pos())
	case *ssa.Field:
		switch s := m.get(f, x.X).(type) {
		case Struct:
			f.env[x] = cp(s[x.Field])
		default:
			panic(unsupported("field of %T", s))
		}
	case *ssa.IndexAddr:
		f.env[x] = m.indexAddr(m.get(f, x.X), m.get(f, x.Index), x)
	case *ssa.Index:
		f.env[x] = m.index(m.get(f, x.X), m.get(f, x.Index), x)
	case *ssa.Lookup:
		f.env[x] = m.lookup(f, x)
	case *ssa.MapUpdate:
		m.mapUpdate(m.get(f, x.Map), m.get(f, x.Key), cp(m.get(f, x.Value)), x.Map.Type().Underlying().(*types.Map))
	case *ssa.Store:
		m.assign(m.get(f, x.Addr), cp(m.get(f, x.Val)), x.Val.Type(), x.Pos())
	case *ssa.TypeAssert:
		f.env[x] = m.typeAssert(m.get(f, x.X), x)
	case *ssa.Extract:
		f.env[x] = m.get(f, x.Tuple).(Tuple)[x.Index]
	case *ssa.Range:
		f.env[x] = m.rangeOver(m.get(f, x.X), x)
	case *ssa.Next:
		f.env[x] = m.next(m.get(f, x.Iter), x)
	case *ssa.Call:
		f.env[x] = m.call(f, &x.Call, x.Pos())
	case *ssa.Defer:
		fn, args := m.prepCall(f, &x.Call)
		f.defers = append(f.defers, func() { m.apply(fn, args, x.Pos()) })
	case *ssa.RunDefers:
		for len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			d()
		}
	case *ssa.MultiConvert:
		f.env[x] = m.convert(m.get(f, x.X), x.X.Type(), x.Type())
	default:
		panic(unsupported("instruction %T at %s", in, m.P.at(in.Pos())))
	}
}

func (m *Machine) regSlice(s []V, e types.Type) {
	m.serial++
	for i := range s {
		m.register(&s[i], fmt.Sprintf("c%d.%d", m.serial, i), e, m.serial)
	}
}

func (m *Machine) fieldAddr(p V, i int, st types.Type, pos token.Pos) V {
	switch x := p.(type) {
	case *V:
		if x == nil {
			panic(goPanic{pos: pos, why: "nil pointer dereference at " + m.P.at(pos)})
		}
		s, ok := (*x).(Struct)
		if !ok {
			panic(unsupported("field of %T at %s", *x, m.P.at(pos)))
		}
		return &s[i]
	case *symElem:
		u := st.Underlying().(*types.Struct)
		lo := x.lo
		for k := 0; k < i; k++ {
			lo += len(leaves(u.Field(k).Type()))
		}
		return &symElem{b: x.b, idx: x.idx, lo: lo, elem: u.Field(i).Type()}
	case *Node:
		if x == nil {
			panic(goPanic{pos: pos, why: "nil pointer dereference at " + m.P.at(pos)})
		}
		if u, ok := st.Underlying().(*types.Struct); ok && u.Field(i).Embedded() {
			return x // the generic part of a parse tree node
		}
	}
	panic(unsupported("field address of %T at %s", p, m.P.at(pos)))
}

func (m *Machine) assign(p V, v V, t types.Type, pos token.Pos) {
	if m.pure > 0 {
		if x, ok := p.(*V); ok {
			if s, ok := m.slots[x]; !ok || s.n > m.pureSerial() {
				*x = v
				return
			}
		}
	}
	switch x := p.(type) {
	case *V:
		if x == nil {
			panic(goPanic{pos: pos, why: "nil pointer dereference at " + m.P.at(pos)})
		}
		m.store(x, v, t)
	case *symElem:
		m.storeElem(x, v)
	default:
		panic(unsupported("store through %T", p))
	}
}

func (m *Machine) pureSerial() int { return -1 }

func (m *Machine) load(p V, pos token.Pos) V {
	switch x := p.(type) {
	case *V:
		if x == nil {
			panic(goPanic{pos: pos, why: "nil pointer dereference at " + m.P.at(pos)})
		}
		return cp(*x)
	case *symElem:
		return m.loadElem(x)
	}
	panic(unsupported("load through %T", p))
}

func (m *Machine) unop(f *frame, x *ssa.UnOp) V {
	v := m.get(f, x.X)
	switch x.Op {
	case token.MUL:
		return m.load(v, x.Pos())
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *smt.Term:
			return m.val(m.C.Not(b))
		}
	case token.SUB:
		if g, ok := v.(float64); ok {
			return -g
		}
		return m.binop(token.SUB, int64(0), v, x.Type(), x.Type(), x.Type(), x.Pos())
	case token.XOR:
		bits, signed, ok := intInfo(x.Type())
		if !ok {
			break
		}
		if i, ok := v.(int64); ok {
			return wrapC(^i, bits, signed)
		}
		t := v.(*smt.Term)
		if m.BV {
			return m.C.App("bvnot", t.Sort, t)
		}
		if signed {
			return m.val(m.C.Sub(m.C.Int(-1), t))
		}
		_, hi := typeRange(bits, false)
		return m.val(m.C.Sub(m.C.Big(hi), t))
	}
	panic(unsupported("operator %s on %T", x.Op, v))
}

// wrap brings an exact integer into the range of a type.
// rangeOf bounds a term by intervals. Texts are shorter than 2^40.
func (m *Machine) rangeOf(t *smt.Term, d int) (lo, hi *big.Int, ok bool) {
	if v, ok := t.IntVal(); ok {
		return v, v, true
	}
	if r, ok := m.ranges[t]; ok {
		return r[0], r[1], true
	}
	if d > 6 {
		return nil, nil, false
	}
	switch t.Op {
	case "str.len":
		return new(big.Int), big.NewInt(1 << 40), true
	case "+", "-":
		if len(t.Args) == 2 {
			a, b, ok := m.rangeOf(t.Args[0], d+1)
			x, y, ok2 := m.rangeOf(t.Args[1], d+1)
			if ok && ok2 {
				if t.Op == "+" {
					return new(big.Int).Add(a, x), new(big.Int).Add(b, y), true
				}
				return new(big.Int).Sub(a, y), new(big.Int).Sub(b, x), true
			}
		}
	}
	return nil, nil, false
}

func (m *Machine) wrap(t *smt.Term, bits int, signed bool) V {
	c := m.C
	lo, hi := typeRange(bits, signed)
	if v, ok := t.IntVal(); ok {
		if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
			return m.val(t)
		}
		mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		w := new(big.Int).Mod(v, mod)
		if w.Cmp(hi) > 0 {
			w.Sub(w, mod)
		}
		return m.val(c.Big(w))
	}
	if m.pure > 0 && signed && bits == 64 {
		return t // arithmetic of specifications is mathematical
	}
	if a, b, ok := m.rangeOf(t, 0); ok && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return t
	}
	in := c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi)))
	mod := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	var out *smt.Term
	if signed {
		h := c.Big(new(big.Int).Neg(lo))
		out = c.Sub(c.ModE(c.Add(t, h), mod), h)
	} else {
		out = c.ModE(t, mod)
	}
	if m.pure > 0 {
		return m.val(c.Ite(in, t, out))
	}
	if m.Branch(in) {
		return m.val(t)
	}
	return m.val(out)
}

func (m *Machine) binop(op token.Token, a, b V, at, bt, rt types.Type, pos token.Pos) V {
	switch op {
	case token.EQL, token.NEQ:
		e := m.equal(a, b, at, bt)
		if op == token.NEQ {
			switch x := e.(type) {
			case bool:
				return !x
			case *smt.Term:
				return m.val(m.C.Not(x))
			}
		}
		return e
	}
	c := m.C
	if isString(at) {
		s, ok1 := a.(string)
		t, ok2 := b.(string)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return s + t
			case token.LSS:
				return s < t
			case token.GTR:
				return s > t
			case token.LEQ:
				return s <= t
			case token.GEQ:
				return s >= t
			}
		}
		x, y := m.term(a, at), m.term(b, bt)
		switch op {
		case token.ADD:
			return m.val(c.Concat(append(parts(x), parts(y)...)...))
		case token.LSS:
			return c.App("str.<", smt.Bool, x, y)
		case token.GTR:
			return c.App("str.<", smt.Bool, y, x)
		case token.LEQ:
			return c.App("str.<=", smt.Bool, x, y)
		case token.GEQ:
			return c.App("str.<=", smt.Bool, y, x)
		}
	}
	if isBool(at) {
		x, y := m.term(a, at), m.term(b, bt)
		switch op {
		case token.AND, token.LAND:
			return m.val(c.And(x, y))
		case token.OR, token.LOR:
			return m.val(c.Or(x, y))
		}
	}
	if isFloat(at) {
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if !ok1 || !ok2 {
			panic(unsupported("symbolic floating point at %s", m.P.at(pos)))
		}
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return x < y
		case token.GTR:
			return x > y
		case token.LEQ:
			return x <= y
		case token.GEQ:
			return x >= y
		}
		if bt, ok := at.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return r
	}
	bits, signed, ok := intInfo(at)
	if !ok {
		panic(unsupported("%s on %s", op, at))
	}
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return m.intOp(op, x, y, bits, signed, bt, pos)
	}
	if m.BV {
		return m.bvOp(op, m.term(a, at), b, bits, signed, bt, pos)
	}
	s, t := m.term(a, at), m.term(b, bt)
	switch op {
	case token.ADD:
		return m.wrap(c.Add(s, t), bits, signed)
	case token.SUB:
		return m.wrap(c.Sub(s, t), bits, signed)
	case token.MUL:
		return m.wrap(c.Mul(s, t), bits, signed)
	case token.LSS:
		return m.val(c.Lt(s, t))
	case token.GTR:
		return m.val(c.Lt(t, s))
	case token.LEQ:
		return m.val(c.Le(s, t))
	case token.GEQ:
		return m.val(c.Le(t, s))
	case token.QUO, token.REM:
		if m.pure == 0 {
			if m.Branch(c.Eq(t, c.Int(0))) {
				panic(goPanic{pos: pos, why: "division by zero at " + m.P.at(pos)})
			}
		}
		var q *smt.Term
		if k, ok := t.IntVal(); ok && k.Sign() > 0 {
			q = c.Ite(c.Le(c.Int(0), s), c.DivE(s, t), c.Neg(c.DivE(c.Neg(s), t)))
			if m.pure == 0 && m.Branch(c.Le(c.Int(0), s)) {
				q = c.DivE(s, t)
			}
		} else {
			abs := func(x *smt.Term) *smt.Term { return c.Ite(c.Le(c.Int(0), x), x, c.Neg(x)) }
			d := c.DivE(abs(s), abs(t))
			q = c.Ite(c.Eq(c.Le(c.Int(0), s), c.Le(c.Int(0), t)), d, c.Neg(d))
		}
		if op == token.QUO {
			return m.wrap(q, bits, signed)
		}
		if k, ok := t.IntVal(); ok && k.Sign() > 0 && q.Op == "div" {
			return m.val(c.ModE(s, t))
		}
		return m.val(c.Sub(s, c.Mul(q, t)))
	case token.SHL, token.SHR:
		k, ok := t.IntVal()
		if !ok {
			ty := types.Typ[types.Int64]
			if !signed {
				ty = types.Typ[types.Uint64]
			}
			if m.pure == 0 && m.Branch(c.Lt(t, c.Int(0))) {
				panic(goPanic{pos: pos, why: "negative shift amount"})
			}
			at := func(k int64) *smt.Term {
				p := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(k)))
				if op == token.SHL {
					return m.term(m.wrap(c.Mul(s, p), bits, signed), ty)
				}
				return c.DivE(s, p)
			}
			out := at(int64(bits))
			for k := int64(bits) - 1; k >= 0; k-- {
				out = c.Ite(c.Eq(t, c.Int(k)), at(k), out)
			}
			return m.val(out)
		}
		if k.Sign() < 0 {
			panic(goPanic{pos: pos, why: "negative shift amount"})
		}
		if !k.IsInt64() || k.Int64() >= int64(bits) {
			k = big.NewInt(int64(bits))
		}
		p := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(k.Int64())))
		if op == token.SHL {
			return m.wrap(c.Mul(s, p), bits, signed)
		}
		return m.val(c.DivE(s, p))
	case token.AND:
		for i, z := range []*smt.Term{t, s} {
			if k, ok := z.IntVal(); ok {
				k1 := new(big.Int).Add(k, big.NewInt(1))
				if k.Sign() >= 0 && new(big.Int).And(k, k1).Sign() == 0 {
					o := s
					if i == 1 {
						o = t
					}
					return m.val(c.ModE(o, c.Big(k1)))
				}
			}
		}
	}
	panic(unsupported("%s on symbolic integers at %s", op, m.P.at(pos)))
}

func parts(t *smt.Term) []*smt.Term {
	if t.Op == "str.++" {
		return t.Args
	}
	return []*smt.Term{t}
}

func (m *Machine) intOp(op token.Token, x, y int64, bits int, signed bool, bt types.Type, pos token.Pos) V {
	u, w := uint64(x), uint64(y)
	lt := func() bool {
		if !signed {
			return u < w
		}
		return x < y
	}
	var r int64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO, token.REM:
		if y == 0 {
			panic(goPanic{pos: pos, why: "division by zero at " + m.P.at(pos)})
		}
		switch {
		case !signed && op == token.QUO:
			r = int64(u / w)
		case !signed:
			r = int64(u % w)
		case y == -1 && op == token.QUO:
			r = -x
		case y == -1:
			r = 0
		case op == token.QUO:
			r = x / y
		default:
			r = x % y
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	case token.SHL, token.SHR:
		_, bs, _ := intInfo(bt)
		if bs && y < 0 {
			panic(goPanic{pos: pos, why: "negative shift amount at " + m.P.at(pos)})
		}
		switch {
		case op == token.SHL && w >= 64:
			r = 0
		case op == token.SHL:
			r = x << w
		case signed:
			if w > 63 {
				w = 63
			}
			r = x >> w
		case w >= 64:
			r = 0
		default:
			r = int64(u >> w)
		}
	case token.LSS:
		return lt()
	case token.GEQ:
		return !lt()
	case token.GTR:
		return x != y && !lt()
	case token.LEQ:
		return x == y || lt()
	default:
		panic(unsupported("operator %s", op))
	}
	return wrapC(r, bits, signed)
}

func (m *Machine) bvOp(op token.Token, s *smt.Term, b V, bits int, signed bool, bt types.Type, pos token.Pos) V {
	c := m.C
	so := smt.BV(bits)
	switch op {
	case token.SHL, token.SHR:
		n, _, _ := intInfo(bt)
		t := m.term(b, bt)
		if k, ok := b.(int64); ok {
			if k < 0 {
				panic(goPanic{pos: pos, why: "negative shift amount"})
			}
			if k >= int64(bits) {
				if op == token.SHR && signed {
					return c.App("bvashr", so, s, c.BVConst(big.NewInt(int64(bits-1)), bits))
				}
				return c.BVConst(big.NewInt(0), bits)
			}
			t = c.BVConst(big.NewInt(k), bits)
		} else if n != bits {
			panic(unsupported("shift by an unknown count of another width"))
		}
		switch {
		case op == token.SHL:
			return c.App("bvshl", so, s, t)
		case signed:
			return c.App("bvashr", so, s, t)
		default:
			return c.App("bvlshr", so, s, t)
		}
	}
	t := m.term(b, bt)
	ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}
	if o, ok := ops[op]; ok {
		return c.App(o, so, s, t)
	}
	cmp := func(s, t *smt.Term) *smt.Term {
		if signed {
			return c.App("bvslt", smt.Bool, s, t)
		}
		return c.App("bvult", smt.Bool, s, t)
	}
	switch op {
	case token.LSS:
		return cmp(s, t)
	case token.GTR:
		return cmp(t, s)
	case token.LEQ:
		return c.Not(cmp(t, s))
	case token.GEQ:
		return c.Not(cmp(s, t))
	case token.AND_NOT:
		return c.App("bvand", so, s, c.App("bvnot", so, t))
	case token.QUO, token.REM:
		if m.pure == 0 && m.Branch(c.Eq(t, c.BVConst(big.NewInt(0), bits))) {
			panic(goPanic{pos: pos, why: "division by zero at " + m.P.at(pos)})
		}
		n := map[bool]string{true: "bvs", false: "bvu"}[signed]
		if op == token.QUO {
			return c.App(n+"div", so, s, t)
		}
		return c.App(n+"rem", so, s, t)
	}
	panic(unsupported("%s on bit vectors", op))
}

func isNil(v V) bool {
	switch x := v.(type) {
	case nil:
		return true
	case Iface:
		return x.T == nil
	case *V:
		return x == nil
	case *Closure:
		return x == nil
	case *Map:
		return x == nil
	case Slice:
		return x.s == nil
	case *Node:
		return x == nil
	}
	return false
}

func (m *Machine) equal(a, b V, at, bt types.Type) V {
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			y = Iface{bt, b}
		}
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return m.equal(x.V, y.V, x.T, y.T)
	case *V:
		if y, ok := b.(*V); ok {
			return x == y
		}
		if isNil(a) || isNil(b) {
			return isNil(a) && isNil(b)
		}
	case Struct:
		y := b.(Struct)
		u := at.Underlying().(*types.Struct)
		acc := m.C.Bool(true)
		for i := range x {
			e := m.equal(x[i], y[i], u.Field(i).Type(), u.Field(i).Type())
			acc = m.C.And(acc, m.term(e, types.Typ[types.Bool]))
		}
		return m.val(acc)
	case Array:
		y := b.(Array)
		u := at.Underlying().(*types.Array)
		acc := m.C.Bool(true)
		for i := range x {
			e := m.equal(x[i], y[i], u.Elem(), u.Elem())
			acc = m.C.And(acc, m.term(e, types.Typ[types.Bool]))
		}
		return m.val(acc)
	case Slice, *Map, *Closure:
		if isNil(b) || isNil(a) {
			return isNil(a) && isNil(b)
		}
		if mb, ok := b.(*Map); ok {
			if ma, ok := a.(*Map); ok {
				return ma == mb
			}
		}
	case *SymSlice, *SymMap:
		if isNil(b) {
			return false
		}
	case *Node:
		if y, ok := b.(*Node); ok {
			return x == y
		}
		return isNil(a) && isNil(b)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case *smt.Term, int64, string, bool:
		if y, ok := b.(Iface); ok {
			return m.equal(Iface{at, a}, y, bt, bt)
		}
		switch b.(type) {
		case *smt.Term, int64, string, bool:
			return m.val(m.C.Eq(m.term(a, at), m.term(b, bt)))
		}
	case *Native, *Opaque:
		if isNil(b) {
			return false
		}
		return a == b
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func (m *Machine) convert(v V, from, to types.Type) V {
	fb, fs, fi := intInfo(from)
	tb, ts, ti := intInfo(to)
	switch {
	case fi && ti:
		switch x := v.(type) {
		case int64:
			return wrapC(x, tb, ts)
		case *smt.Term:
			if m.BV {
				switch {
				case tb == fb:
					return x
				case tb < fb:
					return m.C.App(fmt.Sprintf("(_ extract %d 0)", tb-1), smt.BV(tb), x)
				case fs:
					return m.C.App(fmt.Sprintf("(_ sign_extend %d)", tb-fb), smt.BV(tb), x)
				default:
					return m.C.App(fmt.Sprintf("(_ zero_extend %d)", tb-fb), smt.BV(tb), x)
				}
			}
			return m.wrap(x, tb, ts)
		}
	case fi && isFloat(to):
		if x, ok := v.(int64); ok {
			if !fs {
				return float64(uint64(x))
			}
			return float64(x)
		}
	case isFloat(from) && ti:
		if x, ok := v.(float64); ok {
			if !ts && tb == 64 {
				return int64(uint64(x))
			}
			return wrapC(int64(x), tb, ts)
		}
	case isFloat(from) && isFloat(to):
		if x, ok := v.(float64); ok {
			if b, _ := to.Underlying().(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
	case fi && isString(to):
		switch x := v.(type) {
		case int64:
			return string(rune(x))
		case *smt.Term:
			return m.C.App("str.from_code", smt.String, x)
		}
	case isString(from) && isString(to):
		return v
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if str, ok := v.(string); ok {
			var out []V
			if b, _, _ := intInfo(s.Elem()); b == 8 {
				for i := 0; i < len(str); i++ {
					out = append(out, int64(str[i]))
				}
			} else {
				for _, r := range str {
					out = append(out, int64(r))
				}
			}
			if out == nil {
				out = []V{}
			}
			m.regSlice(out, s.Elem())
			return Slice{out}
		}
	}
	if s, ok := from.Underlying().(*types.Slice); ok && isString(to) {
		if sl, ok := v.(Slice); ok {
			b, _, _ := intInfo(s.Elem())
			sym := false
			for _, e := range sl.s {
				if _, ok := e.(int64); !ok {
					sym = true
				}
			}
			if !sym {
				var out []byte
				for _, e := range sl.s {
					if b == 8 {
						out = append(out, byte(e.(int64)))
					} else {
						out = append(out, string(rune(e.(int64)))...)
					}
				}
				return string(out)
			}
			var ts []*smt.Term
			for _, e := range sl.s {
				if i, ok := e.(int64); ok {
					ts = append(ts, m.C.Str(string(rune(i))))
				} else {
					ts = append(ts, m.C.App("str.from_code", smt.String, e.(*smt.Term)))
				}
			}
			return m.val(m.C.Concat(ts...))
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported("conversion of %T from %s to %s", v, from, to))
}

// inRange splits on an index being within [0,n).
func (m *Machine) inRange(i, n *smt.Term, pos token.Pos) {
	c := m.C
	if m.pure > 0 {
		return // total in specifications
	}
	if !m.Branch(c.And(c.Le(c.Int(0), i), c.Lt(i, n))) {
		panic(goPanic{pos: pos, why: "index out of range at " + m.P.at(pos)})
	}
}

func (m *Machine) indexAddr(s, i V, x *ssa.IndexAddr) V {
	it := x.Index.Type()
	switch a := s.(type) {
	case *SymSlice:
		t := m.term(i, it)
		m.inRange(t, a.len, x.Pos())
		return &symElem{b: a.b, idx: m.C.Add(a.off, t), elem: a.b.elem}
	case Slice:
		k, ok := i.(int64)
		if !ok {
			k = m.pick(i, len(a.s), x.Pos())
		}
		if k < 0 || k >= int64(len(a.s)) {
			panic(goPanic{pos: x.Pos(), why: fmt.Sprintf("index %d out of range (length %d) at %s", k, len(a.s), m.P.at(x.Pos()))})
		}
		return &a.s[k]
	case *V:
		if a == nil {
			panic(goPanic{pos: x.Pos(), why: "nil pointer dereference"})
		}
		arr := (*a).(Array)
		k, ok := i.(int64)
		if !ok {
			k = m.pick(i, len(arr), x.Pos())
		}
		if k < 0 || k >= int64(len(arr)) {
			panic(goPanic{pos: x.Pos(), why: "index out of range at " + m.P.at(x.Pos())})
		}
		return &arr[k]
	}
	panic(unsupported("index of %T", s))
}

// pick splits on the value of an unknown index into known elements.
func (m *Machine) pick(i V, n int, pos token.Pos) int64 {
	t := i.(*smt.Term)
	for k := 0; k < n; k++ {
		if m.Branch(m.C.Eq(t, m.C.Int(int64(k)))) {
			return int64(k)
		}
	}
	panic(goPanic{pos: pos, why: "index out of range at " + m.P.at(pos)})
}

func (m *Machine) index(s, i V, x *ssa.Index) V {
	if isString(x.X.Type()) {
		return m.strIndex(s, i, x.Pos())
	}
	if a, ok := s.(Array); ok {
		k, ok := i.(int64)
		if !ok {
			k = m.pick(i, len(a), x.Pos())
		}
		if k < 0 || k >= int64(len(a)) {
			panic(goPanic{pos: x.Pos(), why: "index out of range at " + m.P.at(x.Pos())})
		}
		return cp(a[k])
	}
	panic(unsupported("index of %T", s))
}

func (m *Machine) strIndex(s, i V, pos token.Pos) V {
	if str, ok := s.(string); ok {
		if k, ok := i.(int64); ok {
			if k < 0 || k >= int64(len(str)) {
				panic(goPanic{pos: pos, why: "index out of range at " + m.P.at(pos)})
			}
			return int64(str[k])
		}
	}
	t, k := m.term(s, types.Typ[types.String]), m.term(i, types.Typ[types.Int])
	m.inRange(k, m.C.StrLen(t), pos)
	return m.charAt(t, k)
}

// charAt is the code of a character; strings are sequences of characters below
// 128 here.
func (m *Machine) charAt(s, i *smt.Term) V {
	c := m.C
	ch := c.App("str.to_code", smt.Int, c.App("str.at", smt.String, s, i))
	if m.pure == 0 {
		m.assume(c.And(c.Le(c.Int(0), ch), c.Lt(ch, c.Int(128))))
		m.foldChar(s, i, ch)
	}
	return ch
}

func (m *Machine) lookup(f *frame, x *ssa.Lookup) V {
	mv, k := m.get(f, x.X), m.get(f, x.Index)
	if isString(x.X.Type()) {
		return m.strIndex(mv, k, x.Pos())
	}
	mt := x.X.Type().Underlying().(*types.Map)
	v, ok := m.mapGet(mv, k, mt)
	if x.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (m *Machine) mapGet(mv, k V, mt *types.Map) (V, V) {
	mv = unalt(mv)
	switch a := mv.(type) {
	case *Map:
		if a == nil {
			return zero(mt.Elem()), false
		}
		if symKey(k) || a.sym() {
			for i := len(a.keys) - 1; i >= 0; i-- {
				e := m.equal(a.keys[i], k, mt.Key(), mt.Key())
				if m.cond(e) {
					return cp(a.vals[i]), true
				}
			}
			return zero(mt.Elem()), false
		}
		v, ok := a.get(k)
		if !ok {
			return zero(mt.Elem()), false
		}
		return cp(v), true
	case *SymMap:
		kt := m.term(k, mt.Key())
		in := m.C.Select(a.dom, kt)
		if m.pure > 0 {
			i := 0
			v := m.build(mt.Elem(), func() *smt.Term { i++; return m.C.Select(a.vals[i-1], kt) })
			return v, m.val(in)
		}
		if m.Branch(in) {
			i := 0
			return m.build(mt.Elem(), func() *smt.Term { i++; return m.C.Select(a.vals[i-1], kt) }), true
		}
		return zero(mt.Elem()), false
	}
	panic(unsupported("lookup in %T", mv))
}

// unalt is the unknown map a known map was turned into at the head of a loop.
func unalt(mv V) V {
	if a, ok := mv.(*Map); ok && a != nil && a.alt != nil {
		return a.alt
	}
	return mv
}

func (m *Machine) touchMap(a *Map) {
	if len(m.cuts) > 0 {
		if _, ok := m.objs[a]; !ok {
			panic(unsupported("write to an untracked map inside a loop with an invariant"))
		}
		m.touch(a)
	}
}

func symKey(k V) bool {
	switch x := k.(type) {
	case *smt.Term:
		return true
	case Iface:
		return symKey(x.V)
	case Struct:
		for _, f := range x {
			if symKey(f) {
				return true
			}
		}
	}
	return false
}

func (m *Map) sym() bool { return m != nil && m.hasSym }

func (m *Machine) mapUpdate(mv, k, v V, mt *types.Map) {
	mv = unalt(mv)
	switch a := mv.(type) {
	case *Map:
		if a == nil {
			panic(goPanic{why: "assignment to entry in nil map"})
		}
		m.touchMap(a)
		if symKey(k) || a.hasSym {
			for i := range a.keys {
				if m.cond(m.equal(a.keys[i], k, mt.Key(), mt.Key())) {
					a.vals[i] = v
					return
				}
			}
			a.hasSym = true
			a.keys = append(a.keys, k)
			a.vals = append(a.vals, v)
			return
		}
		a.set(k, v)
	case *SymMap:
		m.touch(a)
		kt := m.term(k, mt.Key())
		a.dom = m.C.Store(a.dom, kt, m.C.Bool(true))
		for i, t := range m.flatten(v, mt.Elem(), nil) {
			a.vals[i] = m.C.Store(a.vals[i], kt, t)
		}
	default:
		panic(unsupported("update of %T", mv))
	}
}

func (m *Machine) mapDelete(mv, k V, mt *types.Map) {
	mv = unalt(mv)
	switch a := mv.(type) {
	case *Map:
		if a == nil {
			return
		}
		m.touchMap(a)
		if symKey(k) || a.hasSym {
			for i := range a.keys {
				if m.cond(m.equal(a.keys[i], k, mt.Key(), mt.Key())) {
					a.keys = append(a.keys[:i:i], a.keys[i+1:]...)
					a.vals = append(a.vals[:i:i], a.vals[i+1:]...)
					return
				}
			}
			return
		}
		a.del(k)
	case *SymMap:
		m.touch(a)
		a.dom = m.C.Store(a.dom, m.term(k, mt.Key()), m.C.Bool(false))
	default:
		panic(unsupported("delete from %T", mv))
	}
}

func (m *Machine) slice(f *frame, x *ssa.Slice) V {
	s := m.get(f, x.X)
	idx := func(v ssa.Value) V {
		if v == nil {
			return nil
		}
		return m.get(f, v)
	}
	lo, hi, max := idx(x.Low), idx(x.High), idx(x.Max)
	if lo == nil {
		lo = int64(0)
	}
	intT := types.Typ[types.Int]
	switch a := s.(type) {
	case string, *smt.Term:
		if hi == nil {
			hi = m.strLen(s)
		}
		return m.substr(s, lo, hi, x.Pos())
	case *V:
		arr, ok := (*a).(Array)
		if !ok {
			panic(unsupported("slice of %T", *a))
		}
		h := int64(len(arr))
		if hi != nil {
			h = hi.(int64)
		}
		return Slice{[]V(arr)[lo.(int64):h]}
	case Slice:
		if hi == nil {
			hi = int64(len(a.s))
		}
		l, ok1 := lo.(int64)
		h, ok2 := hi.(int64)
		if !ok1 || !ok2 {
			if !ok1 {
				l = m.pickTo(lo, len(a.s), x.Pos())
			}
			if !ok2 {
				h = m.pickTo(hi, len(a.s), x.Pos())
			}
		}
		c := int64(cap(a.s))
		if max != nil {
			c = max.(int64)
		}
		if l < 0 || h < l || c < h || c > int64(cap(a.s)) {
			panic(goPanic{pos: x.Pos(), why: fmt.Sprintf("slice bounds out of range [%d:%d] with length %d at %s", l, h, len(a.s), m.P.at(x.Pos()))})
		}
		return Slice{a.s[l:h:c]}
	case *SymSlice:
		c := m.C
		l := m.term(lo, intT)
		h := a.len
		if hi != nil {
			h = m.term(hi, intT)
		}
		if m.pure == 0 && !m.Branch(c.And(c.Le(c.Int(0), l), c.Le(l, h), c.Le(h, a.len))) {
			panic(goPanic{pos: x.Pos(), why: "slice bounds out of range at " + m.P.at(x.Pos())})
		}
		return &SymSlice{b: a.b, off: c.Add(a.off, l), len: c.Sub(h, l)}
	}
	panic(unsupported("slice of %T", s))
}

func (m *Machine) pickTo(i V, n int, pos token.Pos) int64 { return m.pick(i, n+1, pos) }

func (m *Machine) strLen(s V) V {
	if x, ok := s.(string); ok {
		return int64(len(x))
	}
	return m.val(m.lenTerm(s.(*smt.Term)))
}

func (m *Machine) lenTerm(t *smt.Term) *smt.Term {
	c := m.C
	switch t.Op {
	case "str.++":
		r := c.Int(0)
		for _, a := range t.Args {
			r = c.Add(r, m.lenTerm(a))
		}
		return r
	}
	if t.Op == "str.from_code" && m.pure == 0 {
		return c.Int(1)
	}
	return c.StrLen(t)
}

func (m *Machine) substr(s, lo, hi V, pos token.Pos) V {
	str, ok := s.(string)
	l, ok1 := lo.(int64)
	h, ok2 := hi.(int64)
	if ok && ok1 && ok2 {
		if l < 0 || h < l || h > int64(len(str)) {
			panic(goPanic{pos: pos, why: fmt.Sprintf("slice bounds out of range [%d:%d] with length %d at %s", l, h, len(str), m.P.at(pos))})
		}
		return str[l:h]
	}
	c := m.C
	intT := types.Typ[types.Int]
	t, a, b := m.term(s, types.Typ[types.String]), m.term(lo, intT), m.term(hi, intT)
	n := m.lenTerm(t)
	if m.pure == 0 && !m.Branch(c.And(c.Le(c.Int(0), a), c.Le(a, b), c.Le(b, n))) {
		panic(goPanic{pos: pos, why: "slice bounds out of range at " + m.P.at(pos)})
	}
	if v, ok := a.IntVal(); ok && v.Sign() == 0 && b == n {
		return m.val(t)
	}
	return m.val(c.App("str.substr", smt.String, t, a, c.Sub(b, a)))
}

func (m *Machine) typeAssert(v V, x *ssa.TypeAssert) V {
	iv, ok := v.(Iface)
	if !ok {
		panic(unsupported("type assertion on %T", v))
	}
	good := false
	if iv.T != nil {
		if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			good = types.Implements(iv.T, it)
		} else {
			good = types.Identical(iv.T, x.AssertedType)
		}
	}
	var r V
	if good {
		if types.IsInterface(x.AssertedType) {
			r = iv
		} else {
			r = iv.V
		}
	} else {
		r = zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, good}
	}
	if !good {
		panic(goPanic{pos: x.Pos(), why: fmt.Sprintf("interface conversion: %v is not %v at %s", iv.T, x.AssertedType, m.P.at(x.Pos()))})
	}
	return r
}

// ---- iteration ----

type mapIter struct {
	m    *Map
	keys []V
	vals []V
	i    int
}

type strIter struct {
	s   *smt.Term
	pos *smt.Term
	con string
	i   int
	sym bool
}

func (m *Machine) rangeOver(v V, x *ssa.Range) V {
	switch a := unalt(v).(type) {
	case *Map:
		if a == nil {
			return &mapIter{}
		}
		m.Out.MapRanges[m.P.at(x.Pos())] = true
		return &mapIter{m: a, keys: append([]V{}, a.keys...), vals: append([]V{}, a.vals...)}
	case string:
		return &strIter{con: a, pos: m.C.Int(0), s: m.C.Str(a)}
	case *smt.Term:
		return &strIter{s: a, pos: m.C.Int(0), sym: true}
	}
	panic(unsupported("range over %T", v))
}

func (m *Machine) next(v V, x *ssa.Next) V {
	switch it := v.(type) {
	case *mapIter:
		tt := x.Type().(*types.Tuple)
		if it.i >= len(it.keys) {
			kz, vz := V(nil), V(nil)
			if !isInvalid(tt.At(1).Type()) {
				kz = zero(tt.At(1).Type())
			}
			if !isInvalid(tt.At(2).Type()) {
				vz = zero(tt.At(2).Type())
			}
			return Tuple{false, kz, vz}
		}
		k := it.keys[it.i]
		it.i++
		var val V
		if it.m.hasSym {
			val = it.vals[it.i-1]
		} else {
			val, _ = it.m.get(k)
		}
		return Tuple{true, k, cp(val)}
	case *strIter:
		if !it.sym {
			if p, ok := it.pos.IntVal(); ok && p.Sign() == 0 {
				if it.i >= len(it.con) {
					return Tuple{false, int64(0), int64(0)}
				}
				for i, r := range it.con[it.i:] {
					_ = i
					k := it.i
					it.i += len(string(r))
					if r == 0xFFFD {
						it.i = k + 1
					}
					return Tuple{true, int64(k), int64(r)}
				}
			}
		}
		c := m.C
		p := it.pos
		if !m.Branch(c.Lt(p, m.lenTerm(it.s))) {
			m.Assume(c.Eq(p, m.lenTerm(it.s)))
			return Tuple{false, int64(0), int64(0)}
		}
		ch := m.charAt(it.s, p)
		it.pos = c.Add(p, c.Int(1))
		return Tuple{true, m.val(p), ch}
	}
	panic(unsupported("next of %T", v))
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// ---- calls ----

func (m *Machine) prepCall(f *frame, c *ssa.CallCommon) (V, []V) {
	var args []V
	if c.IsInvoke() {
		recv, ok := m.get(f, c.Value).(Iface)
		if !ok {
			panic(unsupported("method call on %T", m.get(f, c.Value)))
		}
		if recv.T == nil {
			panic(goPanic{pos: c.Pos(), why: "method " + c.Method.Name() + " called on a nil interface at " + m.P.at(c.Pos())})
		}
		for _, a := range c.Args {
			args = append(args, cp(m.get(f, a)))
		}
		return &boundMethod{recv, c.Method}, args
	}
	fn := m.get(f, c.Value)
	for _, a := range c.Args {
		args = append(args, cp(m.get(f, a)))
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		return &builtinCall{b, c}, args
	}
	return fn, args
}

type boundMethod struct {
	recv Iface
	fn   *types.Func
}

type builtinCall struct {
	b *ssa.Builtin
	c *ssa.CallCommon
}

func (m *Machine) call(f *frame, c *ssa.CallCommon, pos token.Pos) V {
	fn, args := m.prepCall(f, c)
	return m.apply(fn, args, pos)
}

func (m *Machine) apply(fn V, args []V, pos token.Pos) V {
	switch x := fn.(type) {
	case *Closure:
		if x == nil {
			panic(goPanic{pos: pos, why: "call of nil function at " + m.P.at(pos)})
		}
		return m.callFn(x.Fn, args, x.Free)
	case *Native:
		return x.F(m, args)
	case *boundMethod:
		return m.invoke(x.recv, x.fn, args, pos)
	case *builtinCall:
		return m.builtin(x.b, x.c, args, pos)
	}
	panic(unsupported("call of %T at %s", fn, m.P.at(pos)))
}

// invoke calls a method on the dynamic value of an interface.
func (m *Machine) invoke(recv Iface, meth *types.Func, args []V, pos token.Pos) V {
	if n, ok := recv.V.(*Node); ok {
		return m.nodeCall(n, meth.Name(), args)
	}
	if o, ok := recv.V.(*Opaque); ok {
		switch meth.Name() {
		case "Error", "String":
			return o.What
		}
	}
	fn := m.P.SSA.LookupMethod(recv.T, meth.Pkg(), meth.Name())
	if fn == nil {
		panic(unsupported("method %s of %s", meth.Name(), recv.T))
	}
	return m.callFn(fn, append([]V{recv.V}, args...), nil)
}

func (m *Machine) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []V, pos token.Pos) V {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *smt.Term:
			return m.strLen(x)
		case Slice:
			return int64(len(x.s))
		case *SymSlice:
			return m.val(x.len)
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.keys))
		case Array:
			return int64(len(x))
		}
	case "cap":
		if x, ok := args[0].(Slice); ok {
			return int64(cap(x.s))
		}
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		return m.appendTo(args[0], args[1], st.Elem(), c.Args[1].Type())
	case "copy":
		d, ok1 := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if ok1 && ok2 {
			n := copy(d.s, s.s)
			return int64(n)
		}
	case "delete":
		m.mapDelete(args[0], args[1], c.Args[0].Type().Underlying().(*types.Map))
		return nil
	case "print", "println":
		return nil
	case "recover":
		if m.panicking != nil {
			p := m.panicking
			m.panicking = nil
			if i, ok := p.v.(Iface); ok {
				return i
			}
			return Iface{m.P.errT, &Opaque{What: p.why}}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			panic(goPanic{pos: pos, why: "nil receiver"})
		}
		return args[0]
	case "min", "max":
		r := args[0]
		t := c.Args[0].Type()
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if m.cond(m.binop(op, a, r, t, t, types.Typ[types.Bool], pos)) {
				r = a
			}
		}
		return r
	case "clear":
		if x, ok := args[0].(*Map); ok && x != nil {
			x.keys, x.vals, x.m = nil, nil, map[any]int{}
			return nil
		}
	}
	panic(unsupported("%s of %T", b.Name(), args[0]))
}

func (m *Machine) appendTo(a, b V, elem types.Type, bt types.Type) V {
	if isString(bt) { // append([]byte, string...)
		b = m.convert(b, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]))
	}
	switch x := a.(type) {
	case Slice:
		switch y := b.(type) {
		case Slice:
			if len(y.s) == 0 {
				return x
			}
			if len(x.s)+len(y.s) <= cap(x.s) && len(m.cuts) > 0 {
				panic(unsupported("append in place inside a loop with an invariant"))
			}
			var n []V
			if len(x.s)+len(y.s) <= cap(x.s) {
				n = append(x.s, cpAll(y.s)...)
			} else {
				n = make([]V, 0, growCap(len(x.s)+len(y.s), cap(x.s)))
				n = append(append(n, x.s...), cpAll(y.s)...)
				for i := range x.s {
					n[i] = cp(x.s[i])
				}
				m.regSlice(n, elem)
			}
			return Slice{n}
		case *SymSlice:
			if len(x.s) == 0 {
				return m.appendSym(m.symOf(x, elem), b, elem)
			}
			return m.appendSym(m.symOf(x, elem), b, elem)
		}
	case *SymSlice:
		return m.appendSym(x, b, elem)
	}
	panic(unsupported("append of %T to %T", b, a))
}

func cpAll(s []V) []V {
	n := make([]V, len(s))
	for i := range s {
		n[i] = cp(s[i])
	}
	return n
}

func growCap(need, old int) int {
	c := old * 2
	if c < need {
		c = need
	}
	return c
}

// show renders a value for messages.
func (m *Machine) show(v V) string {
	switch x := v.(type) {
	case Iface:
		return m.show(x.V)
	case string:
		return fmt.Sprintf("%q", x)
	case int64, bool, float64:
		return fmt.Sprint(x)
	case *smt.Term:
		return "?"
	case *Opaque:
		return x.What
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = math.Pi
