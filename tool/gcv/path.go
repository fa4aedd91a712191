package gcv

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"time"

	"verif/sym"
)

// Explorer runs a harness over every feasible path of the code under
// contract. Paths are replayed from their decision trace.
type Explorer struct {
	C        *sym.Ctx
	vars     map[string]sym.Num
	VarNames []string
	cache    map[[2]sym.Lit]int8
	Paths    int
	MaxPaths int
	MaxSteps int
	Obl      []Obligation
	Proved   int
	unsupp   []string
	Deadline time.Time
}

// Obligation is a failed proof obligation.
type Obligation struct {
	Name  string
	Msg   string
	Model map[string]*big.Int
	Line  int
	Case  *Case
}

// Budget bounds the time spent on one contract of one unit.
var Budget = 20 * time.Second

func NewExplorer(seed int64) *Explorer {
	return &Explorer{C: sym.NewCtx(seed), vars: map[string]sym.Num{}, cache: map[[2]sym.Lit]int8{}, MaxPaths: 4000, MaxSteps: 3000000, Deadline: time.Now().Add(Budget)}
}

type decision struct {
	b bool
	v *big.Int
}

// Interp is the state of one path.
type Interp struct {
	X     *Explorer
	C     *sym.Ctx
	M     *Module
	pc    sym.Lit
	trace []decision
	pos   int
	alts  [][]decision
	merge int
	jrnl  []undo
	steps int
	gen   int
	line  int
	fr    *frame
	genv  *Env // JS/Python module scope
	once  map[*Class]bool
	Ext   map[string]any
	mods  map[*Module]*Env
	depth int
	noChk bool
	nheap int
	// onFail turns a model into a replayable case
	onFail func(m map[int32]bool) *Case
	prefix string
	rawSel bool
}

type undo struct {
	c  *Cell
	v  Val
	b  *Buf
	i  int
	n  sym.Num
	fn func()
}

type mergeAbort struct{}

func (x *Explorer) Var(name string, w int, signed bool) sym.Num {
	if n, ok := x.vars[name]; ok {
		return n
	}
	n := x.C.VarNum(name, w, signed)
	x.vars[name] = n
	x.VarNames = append(x.VarNames, name)
	return n
}

// Explore runs h on every path; outcome is reported through h itself, which
// must recover what it expects. Unsupported constructs are collected.
func (x *Explorer) Explore(m *Module, h func(in *Interp)) (err error) {
	work := [][]decision{nil}
	for len(work) > 0 {
		tr := work[len(work)-1]
		work = work[:len(work)-1]
		in := &Interp{X: x, C: x.C, M: m, pc: sym.True, trace: tr, Ext: map[string]any{}, once: map[*Class]bool{}}
		x.Paths++
		if x.Paths > x.MaxPaths {
			return fmt.Errorf("path budget of %d exhausted", x.MaxPaths)
		}
		if len(x.Obl) > 8 {
			return nil
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch e := r.(type) {
					case pathEnd:
					case Unsup:
						err = fmt.Errorf("line %d: %s", e.Line, e.Msg)
					case synErr:
						err = fmt.Errorf("parse: %s", e.msg)
					default:
						if os.Getenv("BB_CRASH") != "" {
							panic(r)
						}
						err = fmt.Errorf("the verifier itself stopped: %v", r)
					}
				}
			}()
			h(in)
		}()
		if err != nil {
			return err
		}
		work = append(work, in.alts...)
	}
	return nil
}

func (in *Interp) unsup(f string, a ...any) {
	panic(Unsup{fmt.Sprintf(f, a...), in.line})
}
func (in *Interp) fail(kind, f string, a ...any) {
	panic(Fail{kind, fmt.Sprintf(f, a...), in.line})
}
func (in *Interp) throw(kind, f string, a ...any) {
	panic(Throw{kind, fmt.Sprintf(f, a...), in.line, nil})
}

// feasible reports whether pc and l hold together for some input.
func (in *Interp) feasible(l sym.Lit) bool {
	if in.X.C.Stats.Queries&15 == 0 && time.Now().After(in.X.Deadline) {
		in.unsup("time budget exhausted")
	}
	if in.pc == sym.False || l == sym.False {
		return false
	}
	k := [2]sym.Lit{in.pc, l}
	if r, ok := in.X.cache[k]; ok {
		return r == 1
	}
	ok, _, err := in.C.Sat(in.pc, l)
	if err != nil {
		in.unsup("solver: %v", err)
	}
	r := int8(0)
	if ok {
		r = 1
	}
	in.X.cache[k] = r
	return ok
}

func (in *Interp) Assume(l sym.Lit) {
	in.pc = in.C.And(in.pc, l)
	if in.pc == sym.False || !in.feasible(sym.True) {
		panic(pathEnd{"assumption"})
	}
}

// Decide returns 1/0 when l is determined on this path, -1 otherwise.
func (in *Interp) Decide(l sym.Lit) int {
	switch l {
	case sym.True:
		return 1
	case sym.False:
		return 0
	}
	if !in.feasible(l) {
		return 0
	}
	if !in.feasible(l.Not()) {
		return 1
	}
	return -1
}

// Branch forks on l.
func (in *Interp) Branch(l sym.Lit) bool {
	switch in.Decide(l) {
	case 1:
		return true
	case 0:
		return false
	}
	if in.merge > 0 {
		panic(mergeAbort{})
	}
	var d decision
	if in.pos < len(in.trace) {
		d = in.trace[in.pos]
	} else {
		d = decision{b: true}
		alt := append(append([]decision{}, in.trace...), decision{b: false})
		in.alts = append(in.alts, alt)
		in.trace = append(in.trace[:len(in.trace):len(in.trace)], d)
	}
	in.pos++
	if d.b {
		in.pc = in.C.And(in.pc, l)
	} else {
		in.pc = in.C.And(in.pc, l.Not())
	}
	return d.b
}

// Concrete picks a concrete value for n, forking over all feasible ones.
func (in *Interp) Concrete(n sym.Num) *big.Int {
	if n.Const() {
		return n.Value()
	}
	for k := 0; k < 70000; k++ {
		if in.merge > 0 {
			// only a determined value may be used while merging
			ok, m, err := in.C.Sat(in.pc)
			if err != nil || !ok {
				panic(mergeAbort{})
			}
			v := in.C.EvalNum(n, m)
			if in.feasible(in.C.NEq(n, in.C.Big(v)).Not()) {
				panic(mergeAbort{})
			}
			return v
		}
		var d decision
		if in.pos < len(in.trace) {
			d = in.trace[in.pos]
			in.pos++
		} else {
			ok, m, err := in.C.Sat(in.pc)
			if err != nil {
				in.unsup("solver: %v", err)
			}
			if !ok {
				panic(pathEnd{"infeasible"})
			}
			v := in.C.EvalNum(n, m)
			eq := in.C.NEq(n, in.C.Big(v))
			if !in.feasible(eq.Not()) {
				// determined: still recorded so that replays agree
				d = decision{b: true, v: v}
			} else {
				d = decision{b: true, v: v}
				in.alts = append(in.alts, append(append([]decision{}, in.trace...), decision{b: false, v: v}))
			}
			in.trace = append(in.trace[:len(in.trace):len(in.trace)], d)
			in.pos++
		}
		eq := in.C.NEq(n, in.C.Big(d.v))
		if d.b {
			in.pc = in.C.And(in.pc, eq)
			return d.v
		}
		in.pc = in.C.And(in.pc, eq.Not())
	}
	in.unsup("too many values")
	return nil
}

func (in *Interp) ConcInt(v Val) int {
	switch x := v.(type) {
	case Int:
		b := in.Concrete(x.N)
		if !b.IsInt64() || b.Int64() > 1<<40 || b.Int64() < -(1<<40) {
			return 1 << 41
		}
		return int(b.Int64())
	case Bool:
		if in.Branch(x.L) {
			return 1
		}
		return 0
	case EnumV:
		return int(in.Concrete(x.N).Int64())
	}
	in.unsup("integer expected, got %s", describe(v))
	return 0
}

// Prove discharges an obligation on the current path.
func (in *Interp) Prove(name string, l sym.Lit, msg func() string) bool {
	if l == sym.True {
		in.X.Proved++
		in.C.Stats.NormalForm++
		return true
	}
	if len(in.X.Obl) > 8 {
		return false
	}
	q := in.C.Stats.Queries
	ok, m, err := in.C.Sat(in.pc, l.Not())
	if err != nil {
		in.unsup("solver: %v", err)
	}
	if !ok {
		in.X.Proved++
		if in.C.Stats.Queries > q {
			in.C.Stats.Solver++
		} else {
			in.C.Stats.NormalForm++
		}
		return true
	}
	s := ""
	if msg != nil {
		s = msg()
	}
	in.X.Obl = append(in.X.Obl, Obligation{Name: in.prefix + name, Msg: s, Model: in.X.model(m), Line: in.line, Case: in.mkCase(m)})
	return false
}

// Refute records a failure that holds on the whole current path.
func (in *Interp) Refute(name, msg string) {
	ok, m, err := in.C.Sat(in.pc)
	if err != nil {
		in.unsup("solver: %v", err)
	}
	if !ok {
		return
	}
	if len(in.X.Obl) > 8 {
		return
	}
	in.X.Obl = append(in.X.Obl, Obligation{Name: in.prefix + name, Msg: msg, Model: in.X.model(m), Line: in.line, Case: in.mkCase(m)})
}

func (in *Interp) mkCase(m map[int32]bool) *Case {
	if in.onFail == nil {
		return nil
	}
	return in.onFail(m)
}

func (x *Explorer) model(m map[int32]bool) map[string]*big.Int {
	out := map[string]*big.Int{}
	names := append([]string{}, x.VarNames...)
	sort.Strings(names)
	for _, n := range names {
		out[n] = x.C.EvalNum(x.vars[n], m)
	}
	return out
}

// ------------------------------------------------------------ state writes

func (in *Interp) setCell(c *Cell, v Val) {
	if in.merge > 0 {
		in.jrnl = append(in.jrnl, undo{c: c, v: c.V})
	}
	c.V = v
}
func (in *Interp) setByte(b *Buf, i int, n sym.Num) {
	if in.merge > 0 {
		in.jrnl = append(in.jrnl, undo{b: b, i: i, n: b.B[i]})
	}
	b.B[i] = n
}

// MergeBranches runs both arms from the same state and merges what they wrote.
// It reports false (with the state restored) when the arms cannot be merged.
func (in *Interp) MergeBranches(c sym.Lit, a, b func() (Val, bool)) (v Val, ok bool) {
	start := len(in.jrnl)
	savePC, savePos, saveTr, saveAlts, saveGen, saveFr := in.pc, in.pos, in.trace, len(in.alts), in.gen, in.fr
	saveDepth := in.depth
	type loc struct {
		c *Cell
		b *Buf
		i int
	}
	run := func(f func() (Val, bool), cond sym.Lit) (val Val, ok bool, w map[loc]undo, order []loc) {
		defer func() {
			in.merge--
			in.pc = savePC
			in.fr = saveFr
			in.depth = saveDepth
			if r := recover(); r != nil {
				switch r.(type) {
				case mergeAbort, Fail, Throw, nonLocal, pathEnd:
					ok = false
				default:
					panic(r)
				}
			}
			// collect the final values and roll back
			w = map[loc]undo{}
			for k := len(in.jrnl) - 1; k >= start; k-- {
				u := in.jrnl[k]
				switch {
				case u.fn != nil:
					u.fn()
					ok = false // structural change: do not merge
				case u.c != nil:
					l := loc{c: u.c}
					if _, seen := w[l]; !seen {
						w[l] = undo{c: u.c, v: u.c.V}
						order = append(order, l)
					}
					u.c.V = u.v
				default:
					l := loc{b: u.b, i: u.i}
					if _, seen := w[l]; !seen {
						w[l] = undo{b: u.b, i: u.i, n: u.b.B[u.i]}
						order = append(order, l)
					}
					u.b.B[u.i] = u.n
				}
			}
			in.jrnl = in.jrnl[:start]
		}()
		in.merge++
		in.pc = in.C.And(savePC, cond)
		val, ok = f()
		return
	}
	restore := func() {
		in.pos, in.trace, in.gen = savePos, saveTr, saveGen
		in.alts = in.alts[:saveAlts]
	}
	va, oka, wa, oa := run(a, c)
	if !oka {
		restore()
		return nil, false
	}
	vb, okb, wb, ob := run(b, c.Not())
	if !okb {
		restore()
		return nil, false
	}
	// merge written locations
	seen := map[loc]bool{}
	var all []loc
	for _, l := range append(oa, ob...) {
		if !seen[l] {
			seen[l] = true
			all = append(all, l)
		}
	}
	type wr struct {
		l loc
		v Val
		n sym.Num
	}
	var ws []wr
	for _, l := range all {
		x, inA := wa[l]
		y, inB := wb[l]
		if l.c != nil {
			xv, yv := l.c.V, l.c.V
			if inA {
				xv = x.v
			}
			if inB {
				yv = y.v
			}
			mv, ok := in.mergeVal(c, xv, yv)
			if !ok {
				restore()
				return nil, false
			}
			ws = append(ws, wr{l: l, v: mv})
		} else {
			xn, yn := l.b.B[l.i], l.b.B[l.i]
			if inA {
				xn = x.n
			}
			if inB {
				yn = y.n
			}
			ws = append(ws, wr{l: l, n: in.C.NIte(c, xn, yn)})
		}
	}
	mv, okv := in.mergeVal(c, va, vb)
	if !okv {
		restore()
		return nil, false
	}
	for _, w := range ws {
		if w.l.c != nil {
			in.setCell(w.l.c, w.v)
		} else {
			in.setByte(w.l.b, w.l.i, w.n)
		}
	}
	return mv, true
}

func (in *Interp) mergeVal(c sym.Lit, a, b Val) (Val, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case Int:
		y, ok := b.(Int)
		if !ok || x.T != y.T {
			if ok && (x.Lit || y.Lit) {
				t := x.T
				if x.Lit {
					t = y.T
				}
				return Int{N: in.C.NIte(c, x.N, y.N), T: t}, true
			}
			return nil, false
		}
		return Int{N: in.C.NIte(c, x.N, y.N), T: x.T, Lit: x.Lit && y.Lit}, true
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return nil, false
		}
		return Bool{in.C.Ite(c, x.L, y.L)}, true
	case Flt:
		y, ok := b.(Flt)
		if !ok || x.W != y.W {
			return nil, false
		}
		return Flt{x.W, in.C.NIte(c, x.B, y.B)}, true
	case EnumV:
		y, ok := b.(EnumV)
		if !ok || x.Cls != y.Cls {
			return nil, false
		}
		return EnumV{x.Cls, in.C.NIte(c, x.N, y.N)}, true
	case Bytes:
		y, ok := b.(Bytes)
		if !ok || x.B != y.B || x.Off != y.Off || x.Len != y.Len || x.Cap != y.Cap || x.Kind != y.Kind || x.S != y.S || x.Inf != y.Inf ||
			(x.SymLen == nil) != (y.SymLen == nil) {
			return nil, false
		}
		if x.SymLen != nil {
			x.SymLen = in.C.NIte(c, x.SymLen, y.SymLen)
		}
		return x, true
	case Undef, Nil, Ptr, ClsV, NS:
		return a, a == b
	case Tuple, []Val:
		return nil, false
	}
	switch a.(type) {
	case *Obj, *Arr, *Str, *FuncV:
		return a, a == b
	}
	return nil, false
}
