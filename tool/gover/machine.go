package gover

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"verif/smt"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof obligation and how it came out.
type Obligation struct {
	Name   string
	Pos    string
	Status smt.Answer // Unsat: discharged
	Model  map[string]string
	Note   string
	Havoc  bool // depends on a loop cut
}

// Verdict is the outcome of verifying one harness.
type Verdict struct {
	Name      string
	Proved    int
	Trivial   int
	Failed    []Obligation
	Paths     int
	Cuts      int
	Err       error // the verifier could not decide: construct outside its subset, budget
	Funcs     map[string]bool
	Trusted   map[string]bool
	Queries   int
	Millis    int
	Vacuous   bool
	Contract  map[string]bool // callee contracts used
	Bounded   map[string]int  // loops unrolled to a bound
	MapRanges map[string]bool
	Lost      []Obligation
}

type goPanic struct {
	v   V
	pos token.Pos
	why string
}

type endPath struct{ why string }

type restart struct{}

// Machine runs one harness.
type Machine struct {
	replace map[string]*Closure // functions a harness stands in for
	files   map[string]string   // files a harness made
	weak    bool                // a library function without meaning took part
	inline  map[string]bool     // functions whose bodies are used though they have contracts
	ranges  map[*smt.Term][2]*big.Int
	folds   map[string]func(ch V) *smt.Term
	trims   map[string]string
	reps    map[string]string
	joins   map[string]string
	splits  map[*smt.Term]split
	lemmas  []*smt.Term // instances of valid facts
	lemSeen map[string]bool
	P       *Prog
	C       *smt.Ctx
	S       *smt.Session
	S3      *smt.Session // cvc5, for texts
	S2      *smt.Session // second back end for obligations the first cannot decide
	BV      bool
	Out     *Verdict
	Dead    time.Time

	globals map[*ssa.Global]*V
	pc      []*smt.Term
	dec     []bool
	pos     int
	pending [][]bool
	nfresh  int
	steps   int
	seen    map[string]bool // obligations decided on a shared prefix
	pure    int
	inputs  []*smt.Term
	verif   string // function whose body is under verification

	slots     map[*V]slotInfo
	objs      map[any]int
	serial    int
	cuts      []*cut
	modset    map[string]map[string]bool
	SymText   map[string]*smt.Term
	ctx       map[string]any
	MaxSteps  int
	MayPanic  bool
	NoInv     bool
	LoopMax   int
	depth     int
	inited    map[*ssa.Package]bool
	top       *frame
	cur       ssa.Instruction
	open      int
	panicking *goPanic
	Values    map[string]*smt.Term // named inputs of this path
	holes     map[string]*smt.Term // literal text -> symbolic value
}

type slotInfo struct {
	id string
	t  types.Type
	n  int
}

type cut struct {
	key    string
	serial int
	havoc  map[string]bool
	frame  *frame
	head   *ssa.BasicBlock
}

func (m *Machine) reset() {
	m.globals = map[*ssa.Global]*V{}
	m.pc, m.pos, m.nfresh, m.steps = nil, 0, 0, 0
	m.lemmas, m.lemSeen = nil, nil
	m.weak = false
	m.inline = map[string]bool{}
	m.replace = map[string]*Closure{}
	m.files = map[string]string{}
	m.ranges = map[*smt.Term][2]*big.Int{}
	m.slots = map[*V]slotInfo{}
	m.objs = map[any]int{}
	m.serial = 0
	m.cuts = nil
	m.inputs = nil
	m.pure = 0
	m.depth = 0
	m.ctx = map[string]any{}
	m.inited = map[*ssa.Package]bool{}
	m.top, m.cur, m.open, m.panicking = nil, nil, 0, nil
	m.Values = map[string]*smt.Term{}
	m.holes = map[string]*smt.Term{}
}

// Explore runs f over all its paths.
func (m *Machine) Explore(f func()) (err error) {
	if m.modset == nil {
		m.modset = map[string]map[string]bool{}
	}
	m.seen = map[string]bool{}
again:
	m.pending = [][]bool{nil}
	paths, normal := 0, 0
	for len(m.pending) > 0 {
		if time.Now().After(m.Dead) {
			return fmt.Errorf("time budget exhausted after %d paths", paths)
		}
		d := m.pending[len(m.pending)-1]
		m.pending = m.pending[:len(m.pending)-1]
		m.dec = d
		m.reset()
		paths++
		if paths > 20000 {
			return fmt.Errorf("more than 20000 paths")
		}
		why, redo, e := m.path(f)
		if e != nil {
			return e
		}
		if redo {
			goto again
		}
		if why == "" || why == "cut" {
			normal++
		}
	}
	m.Out.Paths += paths
	if normal == 0 {
		m.Out.Vacuous = true
	}
	return nil
}

func (m *Machine) path(f func()) (why string, redo bool, err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case endPath:
			why = r.why
		case restart:
			redo = true
		case goPanic:
			why = "panic"
			if !m.MayPanic {
				m.fail("no panic", m.P.at(r.pos), r.why)
			}
		case unsup:
			err = r
		case error:
			if strings.HasPrefix(r.Error(), "z3") {
				err = r
				return
			}
			panic(r)
		default:
			panic(r)
		}
	}()
	f()
	return
}

func (m *Machine) fail(name, pos, note string) {
	o := Obligation{Name: name, Pos: pos, Status: smt.Sat, Note: note}
	m.model(&o, nil)
	if o.Status == smt.Unsat {
		m.Out.Proved++
		return
	}
	o.Havoc = len(m.cuts) > 0 || m.weak
	m.addFail(o)
}

func (m *Machine) addFail(o Obligation) {
	for _, f := range m.Out.Failed {
		if f.Name == o.Name && f.Pos == o.Pos && f.Note == o.Note {
			return
		}
	}
	m.Out.Failed = append(m.Out.Failed, o)
}

// model asks for input values on the current path (with extra facts).
func (m *Machine) model(o *Obligation, extra []*smt.Term) {
	var want []*smt.Term
	for _, v := range m.inputs {
		if !v.Sort.IsArray() {
			want = append(want, v)
		}
	}
	a, vals, err := m.S.Check(10*time.Second, want, append(append(append([]*smt.Term{}, m.lemmas...), m.pc...), extra...)...)
	o.Status = a
	if err != nil {
		o.Note += " " + err.Error()
	}
	if a == smt.Sat {
		o.Model = map[string]string{}
		for i, v := range want {
			if i < len(vals) {
				o.Model[v.Name] = vals[i]
			}
		}
	}
}

func (m *Machine) assume(t *smt.Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(endPath{"infeasible"})
	}
	m.pc = append(m.pc, t)
}

// Assume adds a fact and ends the path when it contradicts what is known.
func (m *Machine) Assume(t *smt.Term) {
	m.assume(t)
	if m.pure > 0 {
		return
	}
	if m.pos >= len(m.dec) && m.check(nil) == smt.Unsat {
		panic(endPath{"infeasible"})
	}
}

func (m *Machine) check(extra *smt.Term) smt.Answer {
	ts := append(append([]*smt.Term{}, m.lemmas...), m.pc...)
	if extra != nil {
		ts = append(ts, extra)
	}
	d := 3 * time.Second
	for _, t := range ts {
		if t.Quantified() {
			d = 400 * time.Millisecond
			break
		}
		if t.Textual() {
			d = 700 * time.Millisecond
		}
	}
	a, _, err := m.S.Check(d, nil, ts...)
	if err != nil {
		a, _, err = m.S.Check(d, nil, ts...)
		if err != nil {
			panic(fmt.Errorf("z3: %v", err))
		}
	}
	return a
}

// Branch decides a condition, splitting the path where both ways are open.
func (m *Machine) Branch(t *smt.Term) bool {
	if t.IsTrue() {
		return true
	}
	if t.IsFalse() {
		return false
	}
	for i := len(m.pc) - 1; i >= 0; i-- { // already known
		if m.pc[i] == t {
			return true
		}
		if m.pc[i] == m.C.Not(t) {
			return false
		}
	}
	if m.pos < len(m.dec) {
		d := m.dec[m.pos]
		m.pos++
		m.open++
		if d {
			m.pc = append(m.pc, t)
		} else {
			m.pc = append(m.pc, m.C.Not(t))
		}
		return d
	}
	yes, no := true, true
	if m.pure == 0 {
		if time.Now().After(m.Dead) {
			panic(unsupported("time budget exhausted"))
		}
		yes = m.check(t) != smt.Unsat
		if yes {
			no = m.check(m.C.Not(t)) != smt.Unsat
		}
	}
	d := yes
	m.open++
	if yes && no {
		alt := append(append([]bool{}, m.dec[:m.pos]...), false)
		m.pending = append(m.pending, alt)
	}
	m.dec = append(m.dec[:m.pos:m.pos], d)
	m.pos++
	if d {
		m.pc = append(m.pc, t)
	} else {
		m.pc = append(m.pc, m.C.Not(t))
	}
	return d
}

// forkN splits the path n ways, all of them possible.
func (m *Machine) forkN(n int64) int64 {
	for i := int64(0); i < n-1; i++ {
		var d bool
		if m.pos < len(m.dec) {
			d = m.dec[m.pos]
		} else {
			if m.pure == 0 && time.Now().After(m.Dead) {
				panic(unsupported("time budget exhausted"))
			}
			d = true
			m.pending = append(m.pending, append(append([]bool{}, m.dec[:m.pos]...), false))
			m.dec = append(m.dec[:m.pos:m.pos], true)
		}
		m.pos++
		if d {
			return i
		}
	}
	return n - 1
}

// Prove generates an obligation.
func (m *Machine) Prove(name string, pos token.Pos, t *smt.Term) {
	m.ProveAt(name, m.P.at(pos), t)
}

func (m *Machine) ProveAt(name, pos string, t *smt.Term) {
	if m.pure > 0 {
		return
	}
	if t.IsTrue() {
		m.Out.Trivial++
		m.Out.Proved++
		return
	}
	var k strings.Builder
	ids := make([]int, 0, len(m.pc))
	for _, p := range m.pc {
		ids = append(ids, p.ID())
	}
	sort.Ints(ids)
	fmt.Fprint(&k, name, pos, t.ID(), ids)
	if m.seen[k.String()] {
		m.assume(t)
		return
	}
	m.seen[k.String()] = true
	neg := m.C.Not(t)
	goal := append(append(append([]*smt.Term{}, m.lemmas...), m.pc...), neg)
	first, text := 8*time.Second, false
	for _, t := range goal {
		if t.Textual() {
			first, text = time.Second, true
		}
	}
	a, _, err := m.S.Check(first, nil, goal...)
	if a == smt.Unknown && text && m.S3 != nil {
		a, _, err = m.S3.Check(12*time.Second, nil, goal...)
		if a == smt.Unknown {
			a, _, err = m.S.Check(6*time.Second, nil, goal...)
		}
	}
	if a == smt.Unknown && m.S2 != nil {
		a, _, err = m.S2.Check(20*time.Second, nil, goal...)
	}
	if a == smt.Unsat {
		m.Out.Proved++
		m.assume(t)
		return
	}
	o := Obligation{Name: name, Pos: pos, Status: a, Havoc: len(m.cuts) > 0 || m.weak}
	if err != nil {
		o.Note = err.Error()
	}
	if a == smt.Sat {
		m.model(&o, []*smt.Term{neg})
	}
	m.addFail(o)
	if t.IsFalse() {
		panic(endPath{"failed"})
	}
	m.assume(t)
}

// ---- fresh values ----

func (m *Machine) fresh(name string, t types.Type) V {
	if m.BV {
		if n, _, ok := intInfo(t); ok {
			return m.newVar(name, smt.BV(n))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n, s, ok := intInfo(t); ok {
			v := m.newVar(name, smt.Int)
			lo, hi := typeRange(n, s)
			m.assume(m.C.Le(m.C.Big(lo), v))
			m.assume(m.C.Le(v, m.C.Big(hi)))
			m.ranges[v] = [2]*big.Int{lo, hi}
			return v
		}
		switch {
		case isBool(t):
			return m.newVar(name, smt.Bool)
		case isString(t):
			v := m.newVar(name, smt.String)
			m.assume(m.C.Le(m.C.StrLen(v), m.C.Int(1<<40)))
			return v
		}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.fresh(name+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return s
	case *types.Pointer:
		p := m.alloc(u.Elem())
		m.store(p, m.fresh(name, u.Elem()), u.Elem())
		return p
	case *types.Slice:
		l := m.newVar(name+".len", smt.Int)
		m.assume(m.C.Le(m.C.Int(0), l))
		m.assume(m.C.Le(l, m.C.Int(1<<40)))
		m.ranges[l] = [2]*big.Int{new(big.Int), big.NewInt(1 << 40)}
		return &SymSlice{b: m.freshArr(name, u.Elem()), off: m.C.Int(0), len: l}
	case *types.Map:
		return m.freshMap(name, u)
	}
	panic(unsupported("unknown value of type %s", t))
}

func (m *Machine) newVar(name string, s smt.Sort) *smt.Term {
	m.nfresh++
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, name)
	v := m.C.Var(fmt.Sprintf("%s!%d", clean, m.nfresh), s)
	m.inputs = append(m.inputs, v)
	return v
}

func (m *Machine) sortOf(t types.Type) smt.Sort {
	switch {
	case isBool(t):
		return smt.Bool
	case isString(t):
		return smt.String
	}
	if n, _, ok := intInfo(t); ok {
		if m.BV {
			return smt.BV(n)
		}
		return smt.Int
	}
	panic(unsupported("symbolic scalar of type %s", t))
}

func (m *Machine) freshArr(name string, elem types.Type) *SymArr {
	a := &SymArr{elem: elem}
	for _, l := range leaves(elem) {
		a.arrs = append(a.arrs, m.newVar(name+".data", smt.ArrayOf(smt.Int, m.sortOf(l))))
	}
	m.track(a)
	return a
}

func (m *Machine) freshMap(name string, u *types.Map) *SymMap {
	ks := m.sortOf(u.Key())
	x := &SymMap{kt: u.Key(), vt: u.Elem(), dom: m.newVar(name+".dom", smt.ArrayOf(ks, smt.Bool))}
	for _, l := range leaves(u.Elem()) {
		x.vals = append(x.vals, m.newVar(name+".val", smt.ArrayOf(ks, m.sortOf(l))))
	}
	m.track(x)
	return x
}

func (m *Machine) track(o any) {
	m.serial++
	m.objs[o] = m.serial
}

// ---- memory ----

func (m *Machine) alloc(t types.Type) *V {
	p := new(V)
	*p = zero(t)
	m.serial++
	m.register(p, fmt.Sprintf("c%d", m.serial), t, m.serial)
	return p
}

func (m *Machine) register(p *V, id string, t types.Type, n int) {
	m.slots[p] = slotInfo{id, t, n}
	switch x := (*p).(type) {
	case Struct:
		u := t.Underlying().(*types.Struct)
		for i := range x {
			m.register(&x[i], fmt.Sprintf("%s.%d", id, i), u.Field(i).Type(), n)
		}
	case Array:
		u := t.Underlying().(*types.Array)
		for i := range x {
			m.register(&x[i], fmt.Sprintf("%s.%d", id, i), u.Elem(), n)
		}
	}
}

// wrote notes a write; inside a cut loop every object that existed before the
// loop must be among those made unknown at its head.
func (m *Machine) wrote(id string, serial int) {
	for _, c := range m.cuts {
		if serial <= c.serial && !c.havoc[id] {
			s := m.modset[c.key]
			if s == nil {
				s = map[string]bool{}
				m.modset[c.key] = s
			}
			s[id] = true
			panic(restart{})
		}
	}
}

func (m *Machine) store(p *V, v V, t types.Type) {
	if p == nil {
		panic(goPanic{why: "nil pointer dereference"})
	}
	switch x := (*p).(type) {
	case Struct:
		if y, ok := v.(Struct); ok && len(x) == len(y) && len(x) > 0 {
			for i := range x {
				m.store(&x[i], y[i], nil)
			}
			return
		}
	case Array:
		if y, ok := v.(Array); ok && len(x) == len(y) {
			for i := range x {
				m.store(&x[i], y[i], nil)
			}
			return
		}
	}
	if len(m.cuts) > 0 {
		if s, ok := m.slots[p]; ok {
			m.wrote(s.id, s.n)
		} else {
			panic(unsupported("write to an untracked cell inside a loop with an invariant"))
		}
	}
	*p = v
}

func (m *Machine) touch(o any) {
	if len(m.cuts) > 0 {
		n := m.objs[o]
		m.wrote(fmt.Sprintf("o%d", n), n)
	}
}

// havoc makes the objects of a modification set unknown.
func (m *Machine) havoc(set map[string]bool) {
	var ps []*V
	for p, s := range m.slots {
		if set[s.id] {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return m.slots[ps[i]].id < m.slots[ps[j]].id })
	for _, p := range ps {
		*p = m.fresh("h."+m.slots[p].id, m.slots[p].t)
	}
	type ob struct {
		n int
		o any
	}
	var os []ob
	for o, n := range m.objs {
		if set[fmt.Sprintf("o%d", n)] {
			os = append(os, ob{n, o})
		}
	}
	sort.Slice(os, func(i, j int) bool { return os[i].n < os[j].n })
	for _, x := range os {
		switch o := x.o.(type) {
		case *SymArr:
			for i := range o.arrs {
				o.arrs[i] = m.newVar(fmt.Sprintf("h.o%d", x.n), o.arrs[i].Sort)
			}
		case *Map:
			o.alt = m.freshMap(fmt.Sprintf("h.o%d", x.n), o.t)
		case *SymMap:
			o.dom = m.newVar(fmt.Sprintf("h.o%d.dom", x.n), o.dom.Sort)
			for i := range o.vals {
				o.vals[i] = m.newVar(fmt.Sprintf("h.o%d", x.n), o.vals[i].Sort)
			}
		}
	}
}

// ---- scalars and terms ----

// term turns a scalar of the given type into a term.
func (m *Machine) term(v V, t types.Type) *smt.Term {
	switch x := v.(type) {
	case *smt.Term:
		return x
	case int64:
		n, s, ok := intInfo(t)
		if !ok {
			n, s = 64, true
		}
		b := big.NewInt(x)
		if !s && n == 64 {
			b = new(big.Int).SetUint64(uint64(x))
		}
		if m.BV {
			return m.C.BVConst(b, n)
		}
		return m.C.Big(b)
	case bool:
		return m.C.Bool(x)
	case string:
		return m.C.Str(x)
	}
	panic(unsupported("%T used in a formula", v))
}

// val turns a term back into a concrete value where it is one.
func (m *Machine) val(t *smt.Term) V {
	switch {
	case t.IsTrue():
		return true
	case t.IsFalse():
		return false
	}
	if b, ok := t.IntVal(); ok {
		if b.IsInt64() {
			return b.Int64()
		}
		if b.IsUint64() {
			return int64(b.Uint64())
		}
	}
	if s, ok := t.StrVal(); ok {
		return s
	}
	return t
}

func (m *Machine) cond(v V) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *smt.Term:
		return m.Branch(x)
	}
	panic(unsupported("condition %T", v))
}

// readLeaves builds a value of type t from leaf terms.
func (m *Machine) build(t types.Type, next func() *smt.Term) V {
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.build(u.Field(i).Type(), next)
		}
		return s
	}
	return m.val(next())
}

func (m *Machine) flatten(v V, t types.Type, out []*smt.Term) []*smt.Term {
	if u, ok := t.Underlying().(*types.Struct); ok {
		s := v.(Struct)
		for i := range s {
			out = m.flatten(s[i], u.Field(i).Type(), out)
		}
		return out
	}
	return append(out, m.term(v, t))
}

func (m *Machine) loadElem(e *symElem) V {
	i := e.lo
	v := m.build(e.elem, func() *smt.Term {
		t := m.C.Select(e.b.arrs[i], e.idx)
		i++
		m.leafFact(t)
		return t
	})
	return v
}

// leafFact states the range of an integer read from an unknown array.
func (m *Machine) leafFact(t *smt.Term) {}

func (m *Machine) storeElem(e *symElem, v V) {
	m.touch(e.b)
	for k, t := range m.flatten(v, e.elem, nil) {
		e.b.arrs[e.lo+k] = m.C.Store(e.b.arrs[e.lo+k], e.idx, t)
	}
}

func (m *Machine) symOf(s Slice, elem types.Type) *SymSlice {
	a := &SymArr{elem: elem}
	var cols [][]*smt.Term
	for _, l := range leaves(elem) {
		a.arrs = append(a.arrs, m.newVar("lit", smt.ArrayOf(smt.Int, m.sortOf(l))))
		cols = append(cols, nil)
	}
	for i, v := range s.s {
		for k, t := range m.flatten(v, elem, nil) {
			a.arrs[k] = m.C.Store(a.arrs[k], m.C.Int(int64(i)), t)
		}
	}
	m.track(a)
	return &SymSlice{b: a, off: m.C.Int(0), len: m.C.Int(int64(len(s.s)))}
}

// appendSym is old ++ add in a fresh backing store.
func (m *Machine) appendSym(a *SymSlice, b V, elem types.Type) *SymSlice {
	c := m.C
	n := &SymArr{elem: elem}
	var bl *smt.Term
	switch x := b.(type) {
	case Slice:
		if z, ok := a.off.IntVal(); ok && z.Sign() == 0 { // stores on top
			n.arrs = append([]*smt.Term{}, a.b.arrs...)
			for i, v := range x.s {
				for k, t := range m.flatten(v, elem, nil) {
					n.arrs[k] = c.Store(n.arrs[k], c.Add(a.len, c.Int(int64(i))), t)
				}
			}
			m.track(n)
			return &SymSlice{b: n, off: c.Int(0), len: c.Add(a.len, c.Int(int64(len(x.s))))}
		}
		return m.appendSym(a, m.symOf(x, elem), elem)
	case *SymSlice:
		bl = x.len
		for k := range a.b.arrs {
			i := c.Bound(smt.Int)
			n.arrs = append(n.arrs, c.Lambda(i, c.Ite(c.Lt(i, a.len), c.Select(a.b.arrs[k], c.Add(a.off, i)), c.Select(x.b.arrs[k], c.Add(x.off, c.Sub(i, a.len))))))
		}
	default:
		panic(unsupported("append of %T", b))
	}
	// name the new arrays: lambdas nested in stores defeat the solver
	for k := range n.arrs {
		v := m.newVar("app", n.arrs[k].Sort)
		i := c.Bound(smt.Int)
		m.assume(c.Forall([]*smt.Term{i}, c.Eq(c.Select(v, i), n.arrs[k].Args[1].Subst(c, n.arrs[k].Args[0], i))))
		n.arrs[k] = v
	}
	m.track(n)
	return &SymSlice{b: n, off: c.Int(0), len: c.Add(a.len, bl)}
}
