package gcv

import (
	"strings"
	"time"

	"verif/sym"
)

const (
	cNone = iota
	cBreak
	cContinue
	cReturn
)

func (in *Interp) tick(n *Node) {
	in.steps++
	if in.steps&1023 == 0 && time.Now().After(in.X.Deadline) {
		in.unsup("time budget exhausted")
	}
	if in.steps > in.X.MaxSteps {
		in.unsup("step budget exhausted")
	}
	if n != nil && n.L > 0 {
		in.line = n.L
	}
}

// ------------------------------------------------------------- statements

func (in *Interp) execBlock(ns []*Node, e *Env) (int, Val) {
	for _, n := range ns {
		if c, v := in.exec(n, e); c != cNone {
			return c, v
		}
	}
	return cNone, nil
}

func (in *Interp) hoist(ns []*Node, e *Env) {
	for _, n := range ns {
		switch n.K {
		case "funcdecl":
			e.vars[n.S] = &Cell{V: &FuncV{F: n.F, Env: e, Name: n.S}}
		case "export":
			if n.S == "decl" {
				in.hoist(n.A, e)
			}
		}
	}
}

func (in *Interp) scoped(e *Env) *Env {
	if in.M.D == DPy {
		return e
	}
	return e.child()
}

func (in *Interp) exec(n *Node, e *Env) (int, Val) {
	in.tick(n)
	switch n.K {
	case "block":
		ne := in.scoped(e)
		if in.M.D == DJs {
			in.hoist(n.A, ne)
		}
		return in.execBlock(n.A, ne)
	case "empty", "pass", "import":
		return cNone, nil
	case "export":
		return in.exec(n.A[0], e)
	case "expr":
		if in.M.D == DKt {
			if c, v, ok := in.ktStmt(n.A[0], e); ok {
				return c, v
			}
		}
		in.eval(n.A[0], e)
		return cNone, nil
	case "cond", "when", "id": // Kotlin statement position
		if c, v, ok := in.ktStmt(n, e); ok {
			return c, v
		}
		in.eval(n, e)
		return cNone, nil
	case "if":
		return in.execIf(n.A, e)
	case "vars":
		for _, v := range n.A {
			in.declare(v, e, n.S)
		}
		return cNone, nil
	case "var":
		in.declare(n, e, "")
		return cNone, nil
	case "while":
		for in.Branch(in.truth(in.eval(n.A[0], e))) {
			in.tick(n)
			c, v := in.exec(n.A[1], e)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c, v
			}
		}
		return cNone, nil
	case "do":
		ne := e
		if in.M.D == DKt {
			ne = e.child()
		}
		for {
			in.tick(n)
			var c int
			var v Val
			if in.M.D == DKt && n.A[0].K == "block" {
				ne = e.child()
				c, v = in.execBlock(n.A[0].A, ne)
			} else {
				c, v = in.exec(n.A[0], e)
			}
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c, v
			}
			if !in.Branch(in.truth(in.eval(n.A[1], ne))) {
				break
			}
		}
		return cNone, nil
	case "for":
		ne := in.scoped(e)
		if n.A[0] != nil {
			in.exec(n.A[0], ne)
		}
		for n.A[1] == nil || in.Branch(in.truth(in.eval(n.A[1], ne))) {
			in.tick(n)
			c, v := in.exec(n.A[3], ne)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c, v
			}
			if n.A[2] != nil {
				in.execPost(n.A[2], ne)
			}
		}
		return cNone, nil
	case "foreach":
		seq := in.iterate(in.eval(n.A[0], e))
		for i := 0; ; i++ {
			v, ok := seq(i)
			if !ok {
				break
			}
			in.tick(n)
			ne := in.scoped(e)
			if len(n.A) > 2 {
				in.assignTo(n.A[2], v, ne)
			} else if in.M.D == DPy {
				in.setVar(ne, n.S, v)
			} else {
				ne.vars[n.S] = &Cell{V: v}
			}
			c, r := in.exec(n.A[1], ne)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c, r
			}
		}
		return cNone, nil
	case "forin":
		o, ok := in.eval(n.A[0], e).(*Obj)
		if !ok {
			return cNone, nil
		}
		for _, k := range append([]string{}, o.Keys...) {
			ne := e.child()
			ne.vars[n.S] = &Cell{V: in.str(k)}
			c, r := in.exec(n.A[1], ne)
			if c == cBreak {
				break
			}
			if c == cReturn {
				return c, r
			}
		}
		return cNone, nil
	case "return":
		if len(n.A) == 0 {
			return cReturn, Undef{}
		}
		return cReturn, in.eval(n.A[0], e)
	case "break":
		return cBreak, nil
	case "continue":
		return cContinue, nil
	case "throw":
		v := in.eval(n.A[0], e)
		panic(Throw{"exception", describe(v), n.L, v})
	case "switch":
		return in.execSwitch(n, e)
	case "try":
		return in.execTry(n, e)
	case "funcdecl":
		fv := &FuncV{F: n.F, Env: e, Name: n.S}
		e.vars[n.S] = &Cell{V: fv}
		return cNone, nil
	case "class":
		e.vars[n.S] = &Cell{V: in.jsClass(n, e)}
		return cNone, nil
	case "pyassign":
		v := in.eval(n.A[len(n.A)-1], e)
		for _, t := range n.A[:len(n.A)-1] {
			in.assignTo(t, v, e)
		}
		return cNone, nil
	case "goassign":
		return cNone, in.goAssign(n, e)
	case "gorange":
		return in.goRange(n, e)
	case "assert":
		if !in.Branch(in.truth(in.eval(n.A[0], e))) {
			in.throw("AssertionError", "assertion")
		}
		return cNone, nil
	}
	if in.M.D == DKt || in.M.D == DGo {
		in.eval(n, e)
		return cNone, nil
	}
	in.unsup("statement %s", n.K)
	return cNone, nil
}

func (in *Interp) execPost(n *Node, e *Env) {
	switch n.K {
	case "goassign", "expr", "block":
		in.exec(n, e)
	default:
		in.eval(n, e)
	}
}

func (in *Interp) execIf(a []*Node, e *Env) (int, Val) {
	l := in.truth(in.eval(a[0], e))
	d := in.Decide(l)
	if d < 0 {
		// try to merge both arms
		ne := e
		arm := func(i int) func() (Val, bool) {
			return func() (Val, bool) {
				if i >= len(a) {
					return nil, true
				}
				c, _ := in.exec(a[i], ne.child0(in))
				return nil, c == cNone
			}
		}
		if _, ok := in.MergeBranches(l, arm(1), arm(2)); ok {
			return cNone, nil
		}
		if in.Branch(l) {
			d = 1
		} else {
			d = 0
		}
	}
	if d == 1 {
		return in.exec(a[1], e)
	}
	if len(a) > 2 {
		return in.exec(a[2], e)
	}
	return cNone, nil
}

// child0 is e itself in Python (function scope), a child scope elsewhere.
func (e *Env) child0(in *Interp) *Env {
	if in.M.D == DPy {
		return e
	}
	return e.child()
}

// ktStmt executes Kotlin expressions that are control flow.
func (in *Interp) ktStmt(n *Node, e *Env) (int, Val, bool) {
	switch n.K {
	case "cond":
		c, v := in.execIf(n.A, e)
		return c, v, true
	case "when":
		var subj Val
		if n.A[0] != nil {
			subj = in.eval(n.A[0], e)
		}
		for _, arm := range n.A[1:] {
			if in.whenMatch(arm, subj, e) {
				c, v := in.exec(arm.A[0], e)
				return c, v, true
			}
		}
		return cNone, nil, true
	case "return", "break", "continue", "throw", "while", "do", "foreach", "block":
		c, v := in.exec(n, e)
		return c, v, true
	case "id":
		if n.S == "break" {
			return cBreak, nil, true
		}
		if n.S == "continue" {
			return cContinue, nil, true
		}
	}
	return 0, nil, false
}

func (in *Interp) whenMatch(arm *Node, subj Val, e *Env) bool {
	if arm.S == "else" {
		return true
	}
	for _, c := range arm.A[1:] {
		v := in.eval(c, e)
		l := sym.False
		if subj == nil {
			l = in.truth(v)
		} else {
			l = in.equal(subj, v)
		}
		if in.Branch(l) {
			return true
		}
	}
	return false
}

func (in *Interp) execSwitch(n *Node, e *Env) (int, Val) {
	v := in.eval(n.A[0], e)
	start := -1
	def := -1
	for i, arm := range n.A[1:] {
		if strings.HasPrefix(arm.S, "default") {
			def = i
			continue
		}
		var cv Val
		if ev, ok := v.(EnumV); ok && arm.A[0].K == "id" && in.M.D == DJava {
			cv = in.enumItem(ev.Cls, arm.A[0].S)
		} else {
			cv = in.eval(arm.A[0], e)
		}
		if in.Branch(in.equal(v, cv)) {
			start = i
			break
		}
	}
	if start < 0 {
		start = def
	}
	if start < 0 {
		return cNone, nil
	}
	ne := e.child()
	for _, arm := range n.A[1+start:] {
		b := arm.A[len(arm.A)-1]
		c, r := in.execBlock(b.A, ne)
		switch c {
		case cBreak:
			return cNone, nil
		case cNone:
			if strings.HasSuffix(arm.S, "->") {
				return cNone, nil
			}
		default:
			return c, r
		}
	}
	return cNone, nil
}

func (in *Interp) execTry(n *Node, e *Env) (c int, v Val) {
	fr, depth := in.fr, in.depth
	thrown := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Throw); ok && len(n.A) > 1 {
					thrown = true
					in.fr, in.depth = fr, depth
					return
				}
				panic(r)
			}
		}()
		c, v = in.exec(n.A[0], e)
	}()
	if thrown {
		c, v = in.exec(n.A[1], e)
	}
	return
}

func (in *Interp) declare(n *Node, e *Env, kw string) {
	t := n.R
	if t == nil && n.T != nil {
		t = in.rt(n.T)
	}
	if t != nil && t.K == '?' {
		t = nil
	}
	c := &Cell{T: t}
	if len(n.A) > 0 {
		v := in.eval(in.initNode(n.A[0], t), e)
		if t == nil {
			t = in.typeOf(v)
			if iv, ok := v.(Int); ok && iv.Lit {
				iv.Lit = false
				v = iv
			}
			if in.M.D != DJs && in.M.D != DPy {
				c.T = t
			}
		}
		c.V = in.convert(v, t, false)
		if iv, ok := c.V.(Int); ok {
			iv.Lit = false
			c.V = iv
		}
	} else if t != nil {
		c.V = in.zero(t, in.M.D == DC || in.M.D == DCpp)
	} else {
		c.V = Undef{}
	}
	if in.M.D == DJs && kw == "var" {
		// function scope
		fe := e
		for fe.up != nil && fe.frame == fe.up.frame && fe.up.frame != nil {
			fe = fe.up
		}
		if old := fe.vars[n.S]; old != nil {
			if len(n.A) > 0 {
				in.setCell(old, c.V)
			}
			return
		}
		fe.vars[n.S] = c
		if in.merge > 0 {
			nm := n.S
			in.jrnl = append(in.jrnl, undo{fn: func() { delete(fe.vars, nm) }})
		}
		return
	}
	e.vars[n.S] = c
}

// setVar assigns a Python local.
func (in *Interp) setVar(e *Env, name string, v Val) {
	if c := e.vars[name]; c != nil {
		in.setCell(c, v)
		return
	}
	e.vars[name] = &Cell{V: v}
	if in.merge > 0 {
		in.jrnl = append(in.jrnl, undo{fn: func() { delete(e.vars, name) }})
	}
}

func (in *Interp) assignTo(t *Node, v Val, e *Env) {
	switch t.K {
	case "tuple":
		tv, ok := v.(Tuple)
		if !ok {
			if a, ok2 := v.(*Arr); ok2 {
				for _, c := range a.E {
					tv = append(tv, c.V)
				}
				ok = true
			}
		}
		if !ok {
			in.unsup("unpacking of %s", describe(v))
		}
		if len(tv) != len(t.A) {
			in.throw("ValueError", "unpacking %d values into %d", len(tv), len(t.A))
		}
		for i, x := range t.A {
			in.assignTo(x, tv[i], e)
		}
		return
	case "id":
		if in.M.D == DPy {
			in.setVar(e, t.S, v)
			return
		}
	}
	in.lval(t, e).set(in, v)
}

// iterate enumerates a sequence.
func (in *Interp) iterate(v Val) func(int) (Val, bool) {
	switch x := v.(type) {
	case rangeV:
		return func(i int) (Val, bool) {
			k := x.lo + i*x.step
			if x.step > 0 && k >= x.hi || x.step < 0 && k <= x.hi {
				return nil, false
			}
			return in.intc(int64(k), x.t), true
		}
	case *Arr:
		return func(i int) (Val, bool) {
			if i >= len(x.E) {
				return nil, false
			}
			return x.E[i].V, true
		}
	case Bytes:
		return func(i int) (Val, bool) {
			if i >= x.Len {
				return nil, false
			}
			return in.byteAt(x, i), true
		}
	case Tuple:
		return func(i int) (Val, bool) {
			if i >= len(x) {
				return nil, false
			}
			return x[i], true
		}
	case ClsV:
		if x.C.Kind == "enum" {
			vs := in.enumVals(x.C)
			return func(i int) (Val, bool) {
				if i >= len(vs) {
					return nil, false
				}
				return EnumV{x.C, vs[i]}, true
			}
		}
	}
	in.unsup("iteration over %s", describe(v))
	return nil
}

type rangeV struct {
	lo, hi, step int
	t            IT
}

// ------------------------------------------------------------- lvalues

type lval interface {
	get(in *Interp) Val
	set(in *Interp, v Val)
	typ() *RT
}

type cellLV struct{ c *Cell }

func (l cellLV) get(in *Interp) Val { return in.load(l.c) }
func (l cellLV) typ() *RT           { return l.c.T }
func (l cellLV) set(in *Interp, v Val) {
	in.store(l.c, v)
}

func (in *Interp) load(c *Cell) Val {
	if c.V == nil {
		if c.T != nil {
			c.V = in.zero(c.T, true)
		} else {
			return Undef{}
		}
	}
	if s, ok := c.V.(Sel); ok && !in.rawSel {
		in.setCell(c, in.force(s))
	}
	return c.V
}

func (in *Interp) store(c *Cell, v Val) {
	if c.Const {
		in.fail("const", "assignment to a constant")
	}
	v = in.convert(v, c.T, false)
	if iv, ok := v.(Int); ok && iv.Lit {
		iv.Lit = false
		v = iv
	}
	if in.valueStructs() {
		// keep the identity of structs and arrays that may be pointed to
		if dst, ok := c.V.(*Obj); ok {
			if src, ok := v.(*Obj); ok && dst.Cls == src.Cls {
				for k, cell := range dst.F {
					in.store(cell, src.F[k].V)
				}
				return
			}
		}
		if dst, ok := c.V.(*Arr); ok && c.T != nil && c.T.K == 'a' {
			if src, ok := v.(*Arr); ok && len(src.E) == len(dst.E) {
				for i := range dst.E {
					in.store(dst.E[i], in.load(src.E[i]))
				}
				return
			}
		}
	}
	in.setCell(c, v)
}

type byteLV struct {
	b Bytes
	i int
}

func (l byteLV) get(in *Interp) Val { return in.byteAt(l.b, l.i) }
func (l byteLV) typ() *RT {
	if l.b.Kind == "js" || l.b.Kind == "bytearray" || l.b.Kind == "memoryview" || l.b.Kind == "bytes" {
		return nil
	}
	if l.b.S {
		return rtInt(i8)
	}
	return rtU8
}
func (l byteLV) set(in *Interp, v Val) {
	if l.b.B.RO {
		in.fail("write", "write to the input buffer at %d", l.b.Off+l.i)
	}
	if l.b.Kind == "bytes" && in.M.D == DPy {
		in.throw("TypeError", "bytes object does not support item assignment")
	}
	x, ok := in.toInt(v)
	if !ok {
		if _, u := v.(Undef); u && in.M.D == DJs {
			in.fail("undefined", "undefined stored in a byte array")
		}
		in.unsup("byte store of %s", describe(v))
	}
	if in.M.D == DPy {
		// ValueError unless 0 <= x < 256
		bad := in.C.Or(x.N[len(x.N)-1], in.C.NLt(x.N, in.C.Int(256)).Not())
		if bad != sym.False && in.Branch(bad) {
			in.throw("ValueError", "byte must be in range(0, 256)")
		}
	}
	if in.M.D == DJs && x.T.W == 0 {
		in.throw("TypeError", "BigInt stored in a byte array")
	}
	in.setByte(l.b.B, l.b.Off+l.i, in.C.Wrap(x.N, 8, false))
}

func (in *Interp) byteAt(b Bytes, i int) Val {
	n := b.B.B[b.Off+i]
	switch in.M.D {
	case DPy:
		return Int{N: n, T: ibig}
	case DJs:
		return Int{N: n, T: inum}
	}
	if b.S {
		return in.mk(n, i8)
	}
	return Int{N: n, T: u8}
}

type ptrLV struct{ p Ptr }

func (l ptrLV) typ() *RT              { return l.p.T }
func (l ptrLV) get(in *Interp) Val    { return in.deref(l.p) }
func (l ptrLV) set(in *Interp, v Val) { in.storePtr(l.p, v) }

type funcLV struct {
	g func() Val
	s func(v Val)
	t *RT
}

func (l funcLV) typ() *RT { return l.t }
func (l funcLV) get(in *Interp) Val {
	return l.g()
}
func (l funcLV) set(in *Interp, v Val) { l.s(v) }

// esz is the stride of pointer arithmetic.
func (in *Interp) esz(t *RT) int {
	if t == nil {
		return 1
	}
	if n := in.sizeOf(t); n > 0 && t.K != 'p' {
		return n
	}
	return 1
}

func sameRT(a, b *RT) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'i':
		return a.I == b.I
	case 'f':
		return a.W == b.W
	case 'c', 'e':
		return a.Cls == b.Cls
	case 'a':
		return a.Len == b.Len && sameRT(a.E, b.E)
	}
	return true
}

// deref reads through a pointer.
func (in *Interp) deref(p Ptr) Val {
	t := p.T
	if t == nil || t.K == 'v' {
		in.unsup("dereference of void*")
	}
	if c := in.target(p); c != nil {
		if s, ok := c.V.(*Str); ok && t.K == 'y' {
			// a string header read as a slice header: the capacity is unknown
			return Bytes{B: &Buf{B: s.B, RO: true}, Len: len(s.B), Cap: len(s.B), Kind: "slice"}
		}
		if c.T == nil || sameRT(c.T, t) || t.K == 'c' || t.K == 'a' || t.K == 's' || t.K == 'y' || t.K == 'p' {
			return in.load(c)
		}
		n, w := in.bits(in.load(c))
		if in.sizeOf(t)*8 > w {
			in.fail("oob", "%d-byte read of a %d-bit object", in.sizeOf(t), w)
		}
		return in.unbits(n, t)
	}
	var n sym.Num
	for k := 0; k < in.sizeOf(t); k++ {
		b := in.readByte(p, k)
		n = append(n, b.Bit(0), b.Bit(1), b.Bit(2), b.Bit(3), b.Bit(4), b.Bit(5), b.Bit(6), b.Bit(7))
	}
	n = in.C.Wrap(append(n, sym.False), in.sizeOf(t)*8, false)
	return in.unbits(n, t)
}

// target is the cell a pointer designates exactly, if any.
func (in *Interp) target(p Ptr) *Cell {
	if p.C != nil {
		if p.Off != 0 {
			if a, ok := p.C.V.(*Arr); ok {
				return in.target(Ptr{A: a, Off: p.Off, T: p.T})
			}
			return nil
		}
		if a, ok := p.C.V.(*Arr); ok && p.T != nil && p.T.K != 'a' {
			return in.target(Ptr{A: a, Off: p.Off, T: p.T})
		}
		if p.C.T != nil && p.T != nil && p.T.K == 'i' && p.C.T.K != 'c' {
			if sz := in.sizeOf(p.C.T); sz > 0 && sz != in.sizeOf(p.T) {
				return nil
			}
		}
		return p.C
	}
	if p.A != nil {
		es := in.esz(p.A.T)
		if p.T != nil && p.T.K != 'c' && in.esz(p.T) != es || p.Off%es != 0 {
			return nil
		}
		i := p.Off / es
		if i < 0 || i >= len(p.A.E) {
			in.fail("oob", "array index %d out of %d", i, len(p.A.E))
		}
		return p.A.E[i]
	}
	return nil
}

func (in *Interp) storePtr(p Ptr, v Val) {
	t := p.T
	if t == nil || t.K == 'v' {
		in.unsup("store through void*")
	}
	if c := in.target(p); c != nil {
		if c.T == nil || sameRT(c.T, t) || t.K == 'c' || t.K == 'a' || t.K == 's' || t.K == 'y' || t.K == 'p' {
			in.store(c, v)
			return
		}
		n, _ := in.bits(in.convert(v, t, false))
		in.store(c, in.unbits(n, c.T))
		return
	}
	n, w := in.bits(in.convert(v, t, false))
	for k := 0; k < w/8; k++ {
		in.writeByte(p, k, in.C.Wrap(in.C.NShr(n, 8*k), 8, false))
	}
}

// readByte reads the k-th byte behind a pointer.
func (in *Interp) readByte(p Ptr, k int) sym.Num {
	off := p.Off + k
	switch {
	case p.B != nil:
		if off < 0 || off >= len(p.B.B) {
			in.fail("oob", "read at offset %d of a %d-byte buffer", off, len(p.B.B))
		}
		return p.B.B[off]
	case p.A != nil:
		es := in.esz(p.A.T)
		i := off / es
		if off < 0 || i >= len(p.A.E) {
			in.fail("oob", "read at byte %d of an array of %d elements", off, len(p.A.E))
		}
		n, w := in.bits(in.load(p.A.E[i]))
		if w != es*8 {
			in.unsup("byte access to elements of unknown size")
		}
		return in.C.Wrap(in.C.NShr(n, 8*(off%es)), 8, false)
	case p.C != nil:
		if a, ok := p.C.V.(*Arr); ok {
			return in.readByte(Ptr{A: a, Off: p.Off}, k)
		}
		n, w := in.bits(in.load(p.C))
		if off < 0 || off*8 >= w {
			in.fail("oob", "read at byte %d of a %d-bit object", off, w)
		}
		return in.C.Wrap(in.C.NShr(n, 8*off), 8, false)
	}
	in.unsup("readByte")
	return nil
}

func (in *Interp) writeByte(p Ptr, k int, v sym.Num) {
	off := p.Off + k
	upd := func(c *Cell, pos int) {
		n, w := in.bits(in.load(c))
		if pos*8 >= w {
			in.fail("oob", "write at byte %d of a %d-bit object", pos, w)
		}
		out := make(sym.Num, w+1)
		for i := 0; i < w; i++ {
			if i/8 == pos {
				out[i] = v.Bit(i % 8)
			} else {
				out[i] = n.Bit(i)
			}
		}
		out[w] = sym.False
		t := c.T
		if t == nil {
			in.unsup("untyped cell")
		}
		in.store(c, in.unbits(in.C.Wrap(out, w, false), t))
	}
	switch {
	case p.B != nil:
		if off < 0 || off >= len(p.B.B) {
			in.fail("oob", "write at offset %d of a %d-byte buffer", off, len(p.B.B))
		}
		if p.B.RO {
			in.fail("write", "write to the input buffer at %d", off)
		}
		in.setByte(p.B, off, v)
	case p.A != nil:
		es := in.esz(p.A.T)
		i := off / es
		if off < 0 || i >= len(p.A.E) {
			in.fail("oob", "write at byte %d of an array of %d elements", off, len(p.A.E))
		}
		upd(p.A.E[i], off%es)
	case p.C != nil:
		if a, ok := p.C.V.(*Arr); ok {
			in.writeByte(Ptr{A: a, Off: p.Off}, k, v)
			return
		}
		upd(p.C, off)
	default:
		in.unsup("writeByte")
	}
}

// lval resolves an assignable expression.
func (in *Interp) lval(n *Node, e *Env) lval {
	in.tick(n)
	switch n.K {
	case "paren":
		return in.lval(n.A[0], e)
	case "id":
		if c := e.look(n.S); c != nil {
			return cellLV{c}
		}
		if l := in.implicit(n.S, e); l != nil {
			return l
		}
		if in.genv != nil {
			if c := in.genv.look(n.S); c != nil {
				return cellLV{c}
			}
		}
		if in.M.D == DJs && in.merge == 0 { // sloppy mode: creates a global
			g := e
			for g.up != nil {
				g = g.up
			}
			c := &Cell{V: Undef{}}
			g.vars[n.S] = c
			return cellLV{c}
		}
		in.unsup("assignment to unknown name %s", n.S)
	case "mem":
		o := in.eval(n.A[0], e)
		return in.memberLV(o, n.S, n)
	case "idx":
		o := in.eval(n.A[0], e)
		return in.indexLV(o, in.eval(n.A[1], e))
	case "un":
		if n.S == "*" {
			v := in.eval(n.A[0], e)
			p, ok := v.(Ptr)
			if !ok {
				if a, ok := v.(*Arr); ok {
					return ptrLV{Ptr{A: a, T: a.T}}
				}
				in.fail("null", "dereference of %s", describe(v))
			}
			return ptrLV{p}
		}
	case "cast":
		if in.M.D == DC || in.M.D == DCpp { // ((uint8_t*)data)[..] reaches idx; bare cast lvalues only through deref
			break
		}
	case "notnull":
		return in.lval(n.A[0], e)
	}
	in.unsup("lvalue %s", n.K)
	return nil
}

func (in *Interp) indexLV(o, iv Val) lval {
	switch x := o.(type) {
	case Bytes:
		if in.M.D == DPy {
			if s, ok := iv.(sliceV); ok {
				return in.pySliceLV(x, s)
			}
		}
		i := in.index(iv, x.Len, x.Inf)
		return byteLV{x, i}
	case *Arr:
		if in.M.D == DJs {
			i := in.ConcInt(iv)
			if i < 0 || i > 1<<20 {
				in.unsup("array index %d", i)
			}
			for len(x.E) <= i {
				in.growArr(x, &Cell{V: Undef{}})
			}
			return cellLV{x.E[i]}
		}
		i := in.index(iv, len(x.E), false)
		return cellLV{x.E[i]}
	case Ptr:
		q := in.arith("+", x, iv).(Ptr)
		return ptrLV{q}
	case *Obj:
		if in.M.D == DJs {
			return in.jsProp(x, in.propKey(iv))
		}
	case *FuncV:
		return in.memberLV(o, in.propKey(iv), nil)
	case Nil, Undef:
		if in.exc() {
			in.throw("NullReference", "index of null")
		}
		in.fail("null", "index of null")
	}
	in.unsup("index of %s", describe(o))
	return nil
}

func (in *Interp) growArr(a *Arr, c *Cell) {
	if in.merge > 0 {
		n := len(a.E)
		in.jrnl = append(in.jrnl, undo{fn: func() { a.E = a.E[:n] }})
	}
	a.E = append(a.E, c)
}

// index resolves a subscript with the language's bounds check.
func (in *Interp) index(iv Val, n int, inf bool) int {
	x, ok := in.toInt(iv)
	if !ok {
		if _, u := iv.(Undef); u {
			in.fail("undefined", "index is undefined")
		}
		in.unsup("index %s", describe(iv))
	}
	if !x.N.Const() {
		bad := in.C.Or(x.N[len(x.N)-1], in.C.NLt(x.N, in.C.Int(int64(n))).Not())
		if bad != sym.False && in.Branch(bad) {
			in.oob(-1, n)
		}
	}
	i := in.ConcInt(x)
	if in.M.D == DPy && i < 0 {
		if i+n >= 0 {
			// a negative index silently wraps to the end: report it
			in.fail("oob", "negative index %d", i)
		}
	}
	if i < 0 || i >= n {
		in.oob(i, n)
	}
	return i
}

func (in *Interp) oob(i, n int) {
	if in.M.D == DJs {
		in.fail("oob", "typed array index %d outside 0..%d", i, n)
	}
	if in.exc() {
		in.throw("IndexOutOfBounds", "index %d out of bounds for length %d", i, n)
	}
	in.fail("oob", "index %d outside 0..%d", i, n)
}

// ------------------------------------------------------------- expressions

func (in *Interp) eval(n *Node, e *Env) Val {
	in.tick(n)
	switch n.K {
	case "num":
		return in.literal(n)
	case "gonum": // typed constant from the Go front end
		if n.R.K == 'e' {
			return EnumV{n.R.Cls, in.C.Big(n.V)}
		}
		if n.R.K == 'f' {
			f, _ := parseFloat(n.V.String())
			return in.mkFlt(f, n.R.W)
		}
		return Int{N: in.C.Big(n.V), T: n.R.I, Lit: n.S == "lit"}
	case "flt":
		f, ok := parseFloat(n.S)
		if !ok {
			in.unsup("float literal %s", n.S)
		}
		w := 64
		if n.R != nil {
			w = n.R.W
		}
		return in.mkFlt(f, w)
	case "str":
		if in.M.D == DC || in.M.D == DCpp {
			b := &Buf{RO: true}
			for i := 0; i < len(n.S); i++ {
				b.B = append(b.B, in.C.Int(int64(n.S[i])))
			}
			b.B = append(b.B, in.C.Int(0))
			return Ptr{B: b, T: rtInt(i8)}
		}
		return in.str(n.S)
	case "bytesLit":
		b := &Buf{}
		for i := 0; i < len(n.S); i++ {
			b.B = append(b.B, in.C.Int(int64(n.S[i])))
		}
		return Bytes{B: b, Len: len(b.B), Kind: "bytes"}
	case "chr":
		r := []rune(n.S)
		if len(r) != 1 {
			in.unsup("char literal")
		}
		t := i8
		if in.M.D == DC {
			t = i32
		} else if in.M.D == DJava || in.M.D == DCs {
			t = u16
		}
		return in.intc(int64(r[0]), t)
	case "paren":
		v := in.eval(n.A[0], e)
		return v
	case "id":
		return in.ident(n, e)
	case "un":
		return in.unary(n, e)
	case "post":
		l := in.lval(n.A[0], e)
		old := l.get(in)
		op := "+"
		if n.S == "--" {
			op = "-"
		}
		one := in.one(old)
		l.set(in, in.narrow(in.arith(op, old, one), l.typ(), old))
		return old
	case "bin":
		return in.binary(n, e)
	case "assign":
		return in.assignExpr(n, e)
	case "cond":
		return in.condExpr(n, e)
	case "comma":
		var v Val
		for _, a := range n.A {
			v = in.eval(a, e)
		}
		return v
	case "call":
		return in.call(n, e)
	case "idx":
		o := in.eval(n.A[0], e)
		if n.A[1].K == "slice" {
			return in.slice(o, n.A[1], e)
		}
		iv := in.eval(n.A[1], e)
		return in.indexGet(o, iv)
	case "mem", "optmem":
		if n.K == "mem" && (in.M.D == DCpp || in.M.D == DCs || in.M.D == DJava) {
			if v, ok := in.qualified(n, e); ok {
				return v
			}
		}
		o := in.eval(n.A[0], e)
		if n.K == "optmem" {
			switch o.(type) {
			case Nil, Undef:
				return o
			}
		}
		return in.member(o, n.S, n)
	case "cast":
		return in.cast(n, e)
	case "gocast":
		return in.goCast(in.eval(n.A[0], e), n.R)
	case "sizeof":
		if n.T != nil {
			return in.intc(int64(in.sizeOf(in.rt(n.T))), u64)
		}
		switch x := in.eval(n.A[0], e).(type) {
		case *Arr:
			return in.intc(int64(len(x.E)*in.sizeOf(x.T)), u64)
		default:
			_, w := in.bits(x)
			return in.intc(int64(w/8), u64)
		}
	case "new":
		return in.newExpr(n, e)
	case "newarr":
		return in.newArr(n, e)
	case "init", "initT":
		return in.initExpr(n, e)
	case "arr":
		a := &Arr{}
		for _, x := range n.A {
			if x.K == "spread" {
				s := in.iterate(in.eval(x.A[0], e))
				for i := 0; ; i++ {
					v, ok := s(i)
					if !ok {
						break
					}
					a.E = append(a.E, &Cell{V: v})
				}
				continue
			}
			a.E = append(a.E, &Cell{V: in.eval(x, e)})
		}
		if in.M.D == DPy {
			a.Kind = "list"
		}
		return a
	case "tuple":
		t := Tuple{}
		for _, x := range n.A {
			t = append(t, in.eval(x, e))
		}
		return t
	case "obj":
		return in.jsObjLit(n, e)
	case "func":
		fv := &FuncV{F: n.F, Env: e, Name: n.F.Name}
		if n.F.Arrow || n.S == "kt" {
			fv.HasT = true
			if e.frame != nil {
				fv.This = e.frame.this
			}
		}
		return fv
	case "notnull":
		v := in.eval(n.A[0], e)
		if _, ok := v.(Nil); ok {
			in.throw("NullPointerException", "!! on null")
		}
		return v
	case "ty":
		return TyV{n.T}
	case "unchecked", "checked":
		return in.eval(n.A[0], e)
	case "default":
		return in.zero(in.rt(n.T), false)
	case "when":
		var subj Val
		if n.A[0] != nil {
			subj = in.eval(n.A[0], e)
		}
		for _, arm := range n.A[1:] {
			if in.whenMatch(arm, subj, e) {
				return in.ktValue(arm.A[0], e)
			}
		}
		return Undef{}
	case "block":
		return in.ktValue(n, e)
	case "throw":
		v := in.eval(n.A[0], e)
		panic(Throw{"exception", describe(v), n.L, v})
	case "return":
		var v Val = Undef{}
		if len(n.A) > 0 {
			v = in.eval(n.A[0], e)
		}
		panic(nonLocal{e.frame, v})
	case "classexpr":
		return in.jsClass(n, e)
	case "listcomp":
		a := &Arr{Kind: "list"}
		s := in.iterate(in.eval(n.A[1], e))
		for i := 0; ; i++ {
			v, ok := s(i)
			if !ok {
				break
			}
			ne := e.child()
			ne.vars[n.S] = &Cell{V: v}
			a.E = append(a.E, &Cell{V: in.eval(n.A[0], ne)})
		}
		return a
	case "slice":
		return in.mkSlice(n, e)
	case "const":
		switch n.S {
		case "None":
			return Nil{}
		case "True":
			return Bool{sym.True}
		case "False":
			return Bool{sym.False}
		}
	case "golit":
		return in.goLit(n, e)
	case "expr":
		return in.eval(n.A[0], e)
	}
	in.unsup("expression %s", n.K)
	return nil
}

// ktValue evaluates a block or statement for its last expression.
func (in *Interp) ktValue(n *Node, e *Env) Val {
	switch n.K {
	case "block":
		ne := e.child()
		for i, s := range n.A {
			if i == len(n.A)-1 {
				return in.ktValue(s, ne)
			}
			c, v := in.exec(s, ne)
			if c == cReturn {
				panic(nonLocal{e.frame, v})
			}
			if c != cNone {
				in.unsup("break out of an expression")
			}
		}
		return Undef{}
	case "expr":
		return in.ktValue(n.A[0], e)
	case "return":
		var v Val = Undef{}
		if len(n.A) > 0 {
			v = in.eval(n.A[0], e)
		}
		panic(nonLocal{e.frame, v})
	case "var", "vars", "while", "for", "foreach", "do":
		c, v := in.exec(n, e)
		if c == cReturn {
			panic(nonLocal{e.frame, v})
		}
		return Undef{}
	}
	return in.eval(n, e)
}

func (in *Interp) one(old Val) Val {
	if x, ok := old.(Int); ok {
		return Int{N: in.C.Int(1), T: x.T, Lit: true}
	}
	return in.intc(1, in.defInt())
}

// narrow converts the result of a compound assignment back to the target.
func (in *Interp) narrow(v Val, t *RT, old Val) Val {
	if t != nil {
		return in.convert(v, t, true)
	}
	if o, ok := old.(Int); ok && o.T.W > 0 {
		if x, ok := v.(Int); ok {
			return in.mk(x.N, o.T)
		}
	}
	return v
}

func (in *Interp) literal(n *Node) Val {
	v := in.C.Big(n.V)
	switch in.M.D {
	case DPy:
		return Int{N: v, T: ibig}
	case DJs:
		if strings.HasPrefix(n.S, "n") {
			return Int{N: v, T: ibig}
		}
		if n.V.BitLen() > 53 {
			in.fail("precision", "number literal %s beyond 2^53", n.V)
		}
		return Int{N: v, T: inum}
	}
	s := strings.ToLower(strings.TrimSuffix(n.S, "#"))
	nondec := strings.HasSuffix(n.S, "#")
	uns := strings.Contains(s, "u")
	long := strings.Contains(s, "l")
	bl := n.V.BitLen()
	t := i32
	switch in.M.D {
	case DC, DCpp:
		cand := []IT{i32, u32, i64, u64}
		for _, c := range cand {
			if long && c.W < 64 || uns && c.S || !uns && !c.S && !nondec && !(c == u64) {
				continue
			}
			lim := c.W
			if c.S {
				lim--
			}
			if bl <= lim {
				t = c
				break
			}
			t = c
		}
	case DJava:
		if long {
			t = i64
		}
		if bl > t.W || bl == t.W && !nondec && n.V.TrailingZeroBits() != uint(bl-1) {
			in.fail("literal", "integer literal %s too large", n.V)
		}
		return Int{N: in.C.Wrap(v, t.W, true), T: t, Lit: true}
	case DCs:
		for _, c := range []IT{i32, u32, i64, u64} {
			if long && c.W < 64 || uns && c.S {
				continue
			}
			lim := c.W
			if c.S {
				lim--
			}
			t = c
			if bl <= lim {
				break
			}
		}
	case DKt:
		switch {
		case uns && long:
			t = u64
		case long:
			t = i64
		case uns:
			t = u32
			if bl > 32 {
				t = u64
			}
		default:
			if bl > 31 {
				t = i64
			}
		}
	}
	return Int{N: in.C.Wrap(v, t.W, t.S), T: t, Lit: true}
}

func (in *Interp) unary(n *Node, e *Env) Val {
	switch n.S {
	case "!", "not":
		return Bool{in.truth(in.eval(n.A[0], e)).Not()}
	case "&":
		if in.M.D == DGo && n.A[0].K == "golit" {
			v := in.eval(n.A[0], e)
			return v
		}
		return in.addrOf(n.A[0], e)
	case "*":
		v := in.eval(n.A[0], e)
		switch p := v.(type) {
		case Ptr:
			return in.deref(p)
		case *Arr:
			return in.deref(Ptr{A: p, T: p.T})
		case *Obj:
			return p
		}
		if in.exc() {
			in.throw("nil", "dereference of %s", describe(v))
		}
		in.fail("null", "dereference of %s", describe(v))
	case "++", "--":
		l := in.lval(n.A[0], e)
		old := l.get(in)
		v := in.narrow(in.arith(n.S[:1], old, in.one(old)), l.typ(), old)
		l.set(in, v)
		return v
	case "typeof":
		if n.A[0].K == "id" && e.look(n.A[0].S) == nil && (in.genv == nil || in.genv.look(n.A[0].S) == nil) {
			return in.str("undefined")
		}
		return in.str(in.jsTypeof(in.eval(n.A[0], e)))
	case "void":
		in.eval(n.A[0], e)
		return Undef{}
	}
	v := in.eval(n.A[0], e)
	if f, ok := v.(Flt); ok {
		if n.S == "-" {
			b := append(sym.Num{}, f.B...)
			for len(b) < f.W+1 {
				b = append(b, sym.False)
			}
			b[f.W-1] = b[f.W-1].Not()
			return Flt{f.W, in.C.Wrap(b, f.W, false)}
		}
		if n.S == "+" {
			return f
		}
	}
	x, ok := in.toInt(v)
	if !ok {
		in.unsup("unary %s on %s", n.S, describe(v))
	}
	t := promote(x.T, in.M.D)
	switch n.S {
	case "-":
		if in.M.D == DCs && t == u32 {
			t = i64
		}
		r := in.mk(in.C.Neg(x.N), t)
		r.Lit = x.Lit
		return r
	case "+":
		return in.mk(x.N, t)
	case "~", "^":
		nn := x.N
		if in.M.D == DJs && t.W == -1 {
			nn = in.C.Wrap(nn, 32, true)
		}
		r := in.mk(in.C.NNot(nn), t)
		r.Lit = x.Lit
		return r
	}
	in.unsup("unary %s", n.S)
	return nil
}

func (in *Interp) addrOf(n *Node, e *Env) Val {
	for n.K == "paren" {
		n = n.A[0]
	}
	l := in.lval(n, e)
	switch x := l.(type) {
	case cellLV:
		t := x.c.T
		if o, ok := x.c.V.(*Obj); ok && (in.M.D == DC || in.M.D == DCpp || in.M.D == DGo) {
			return Ptr{C: x.c, T: &RT{K: 'c', Cls: o.Cls}}
		}
		return Ptr{C: x.c, T: t}
	case ptrLV:
		return x.p
	case byteLV:
		return Ptr{B: x.b.B, Off: x.b.Off + x.i, T: rtU8}
	}
	in.unsup("address of %s", n.K)
	return nil
}

func (in *Interp) binary(n *Node, e *Env) Val {
	op := n.S
	switch op {
	case "&&":
		return in.logic(n, e, true)
	case "||":
		return in.logic(n, e, false)
	case "and":
		if in.M.D == DPy {
			return in.logic(n, e, true)
		}
	case "or":
		if in.M.D == DPy {
			return in.logic(n, e, false)
		}
	case "??", "?:":
		a := in.eval(n.A[0], e)
		switch a.(type) {
		case Nil, Undef:
			return in.ktValue(n.A[1], e)
		}
		return a
	case "instanceof", "is", "!is", "as":
		if in.M.D != DPy {
			return in.instanceOf(n, e)
		}
	}
	a := in.eval(n.A[0], e)
	b := in.eval(n.A[1], e)
	switch op {
	case "until", "..", "downTo", "step":
		lo, hi := 0, 0
		t := i32
		if op == "step" {
			r := a.(rangeV)
			r.step *= in.ConcInt(b)
			return r
		}
		if x, ok := a.(Int); ok {
			t = x.T
			if x.Lit {
				if y, ok := b.(Int); ok {
					t = y.T
				}
			}
		}
		lo, hi = in.ConcInt(a), in.ConcInt(b)
		switch op {
		case "..":
			hi++
		case "downTo":
			return rangeV{lo, hi - 1, -1, t}
		}
		return rangeV{lo, hi, 1, t}
	case "==", "!=", "<", ">", "<=", ">=", "===", "!==", "is", "is not":
		return in.compare(op, a, b)
	case "in", "not in":
		return in.contains(op, a, b)
	case "to":
		return Tuple{a, b}
	}
	return in.arith(op, a, b)
}

func (in *Interp) contains(op string, a, b Val) Val {
	l := sym.False
	switch x := b.(type) {
	case rangeV:
		ia, ok := a.(Int)
		if !ok || x.step != 1 {
			in.unsup("in")
		}
		l = in.C.And(in.C.NLt(ia.N, in.C.Int(int64(x.lo))).Not(), in.C.NLt(ia.N, in.C.Int(int64(x.hi))))
	case Tuple, *Arr:
		s := in.iterate(b)
		for i := 0; ; i++ {
			v, ok := s(i)
			if !ok {
				break
			}
			l = in.C.Or(l, in.equal(a, v))
		}
	case *Obj:
		k := in.propKey(a)
		if in.M.D == DJs {
			for o := x; o != nil; o = o.Proto {
				if o.F[k] != nil {
					l = sym.True
				}
			}
			break
		}
		in.unsup("in object")
	default:
		in.unsup("in %s", describe(b))
	}
	if op == "not in" {
		l = l.Not()
	}
	return Bool{l}
}

// logic is short-circuit evaluation; the right side is only evaluated where
// the left side lets it.
func (in *Interp) logic(n *Node, e *Env, and bool) Val {
	av := in.eval(n.A[0], e)
	l := in.truth(av)
	valued := in.M.D == DPy || in.M.D == DJs
	switch in.Decide(l) {
	case 1:
		if !and {
			if valued {
				return av
			}
			return Bool{sym.True}
		}
		r := in.eval(n.A[1], e)
		if valued {
			return r
		}
		return Bool{in.truth(r)}
	case 0:
		if and {
			if valued {
				return av
			}
			return Bool{sym.False}
		}
		r := in.eval(n.A[1], e)
		if valued {
			return r
		}
		return Bool{in.truth(r)}
	}
	cond := l
	if !and {
		cond = l.Not()
	}
	right := func() (Val, bool) {
		return Bool{in.truth(in.eval(n.A[1], e))}, true
	}
	other := func() (Val, bool) { return Bool{litOf(!and)}, true }
	if v, ok := in.MergeBranches(cond, right, other); ok {
		return v
	}
	if in.Branch(l) {
		if !and {
			return Bool{sym.True}
		}
	} else if and {
		return Bool{sym.False}
	}
	return Bool{in.truth(in.eval(n.A[1], e))}
}

func (in *Interp) condExpr(n *Node, e *Env) Val {
	l := in.truth(in.eval(n.A[0], e))
	arm := func(i int) Val {
		if i >= len(n.A) {
			return Undef{}
		}
		return in.ktValue(n.A[i], e)
	}
	adapt := func(a, b Val) (Val, Val) {
		x, ok1 := a.(Int)
		y, ok2 := b.(Int)
		if ok1 && ok2 && x.T != y.T && in.M.D != DKt {
			t := in.usual(x, y)
			return in.mk(x.N, t), in.mk(y.N, t)
		}
		return a, b
	}
	switch in.Decide(l) {
	case 1:
		v := arm(1)
		return in.condType(v, n, 2, e)
	case 0:
		v := arm(2)
		return in.condType(v, n, 1, e)
	}
	var av, bv Val
	v, ok := in.MergeBranches(l, func() (Val, bool) {
		av = arm(1)
		return av, true
	}, func() (Val, bool) {
		bv = arm(2)
		a2, b2 := adapt(av, bv)
		if x, ok := a2.(Int); ok {
			if y, ok := av.(Int); ok && x.T != y.T {
				return b2, false
			}
		}
		return b2, true
	})
	if ok {
		return v
	}
	if in.Branch(l) {
		return in.condType(arm(1), n, 2, e)
	}
	return in.condType(arm(2), n, 1, e)
}

// condType gives the chosen arm of ?: the common type when it matters.
func (in *Interp) condType(v Val, n *Node, other int, e *Env) Val {
	if in.M.D == DC || in.M.D == DCpp || in.M.D == DJava {
		if x, ok := v.(Int); ok && x.T.W > 0 && x.T.W < 32 && in.M.D != DJava {
			return in.mk(x.N, i32)
		}
	}
	return v
}

func (in *Interp) assignExpr(n *Node, e *Env) Val {
	op := n.S[:len(n.S)-1]
	if op == "" {
		if in.M.D == DJs && n.A[0].K == "id" {
			v := in.eval(n.A[1], e)
			in.lval(n.A[0], e).set(in, v)
			return v
		}
		l := in.lval(n.A[0], e)
		if in.M.D == DJs && n.A[1].K == "idx" && n.A[1].A[1].K != "slice" {
			o := in.eval(n.A[1].A[0], e)
			iv := in.eval(n.A[1].A[1], e)
			var v Val
			if x, ok := iv.(Int); ok && !x.N.Const() {
				if ob, ok := o.(*Obj); ok {
					v = in.jsSel(ob, x)
				}
			}
			if v == nil {
				v = in.indexGet(o, iv)
			}
			l.set(in, v)
			return v
		}
		v := in.eval(in.initNode(n.A[1], l.typ()), e)
		l.set(in, v)
		return v
	}
	l := in.lval(n.A[0], e)
	old := l.get(in)
	r := in.eval(n.A[1], e)
	v := in.arith(op, old, r)
	v = in.narrow(v, l.typ(), old)
	l.set(in, v)
	return v
}

func (in *Interp) cast(n *Node, e *Env) Val {
	t := in.rt(n.T)
	if (in.M.D == DC || in.M.D == DCpp) && t.K == 'p' && n.A[0].K != "un" {
		// array-to-pointer
	}
	v := in.eval(n.A[0], e)
	if t.K == 'v' {
		return v
	}
	if b, ok := v.(Bytes); ok && t.K == 'p' {
		return Ptr{B: b.B, Off: b.Off, T: t.E}
	}
	if o, ok := v.(*Obj); ok && t.K == 'c' {
		return o
	}
	r := in.convert(v, t, true)
	if i, ok := r.(Int); ok {
		i.Lit = false
		if in.M.D == DCs {
			if x, ok := v.(Int); ok && x.Lit {
				i.Lit = false
			}
		}
		return i
	}
	return r
}

func (in *Interp) instanceOf(n *Node, e *Env) Val {
	v := in.eval(n.A[0], e)
	if n.S == "as" {
		return v
	}
	r := sym.False
	if in.M.D == DJs {
		c := in.eval(n.A[1], e)
		name := ""
		if ns, ok := c.(NS); ok {
			name = ns.N
		}
		switch v.(type) {
		case Bytes:
			r = litOf(name == "Uint8Array")
		case *Arr:
			r = litOf(name == "Array")
		case *Obj:
			in.unsup("instanceof %s", name)
		}
		return Bool{r}
	}
	if o, ok := v.(*Obj); ok && n.T != nil {
		r = litOf(o.Cls != nil && o.Cls.Name == lastName(n.T.N))
	}
	if n.S == "!is" {
		r = r.Not()
	}
	return Bool{r}
}

func (in *Interp) indexGet(o, iv Val) Val {
	switch x := o.(type) {
	case Tuple:
		i := in.index(iv, len(x), false)
		return x[i]
	case ClsV:
		if x.C.Kind == "enum" {
			in.unsup("enum subscript")
		}
	case *Arr:
		if in.M.D == DJs {
			if s, ok := iv.(*Str); ok {
				return in.member(o, in.propKey(s), nil)
			}
			i := in.ConcInt(iv)
			if i < 0 || i >= len(x.E) {
				return Undef{}
			}
			return in.load(x.E[i])
		}
	case *Str:
		if in.M.D == DGo {
			i := in.index(iv, len(x.B), false)
			return Int{N: x.B[i], T: u8}
		}
	case *Obj:
		if in.M.D == DJs {
			return in.jsGetIdx(x, iv)
		}
	}
	if s, ok := iv.(sliceV); ok {
		return in.pySlice(o, s)
	}
	return in.indexLV(o, iv).get(in)
}
