package gcv

import (
	"math"
	"math/big"
	"strconv"

	"verif/sym"
)

func (in *Interp) mk(n sym.Num, t IT) Int {
	if t.W > 0 {
		return Int{N: in.C.Wrap(n, t.W, t.S), T: t}
	}
	if t.W == -1 && len(n) > 55 {
		in.unsup("number beyond 2^53")
	}
	return Int{N: n, T: t}
}

func (in *Interp) intc(v int64, t IT) Int { return Int{N: in.C.Int(v), T: t} }

// defInt is the default integer type of a dialect.
func (in *Interp) defInt() IT {
	switch in.M.D {
	case DPy:
		return ibig
	case DJs:
		return inum
	case DGo:
		return i64
	}
	return i32
}

// truth converts a value to a condition.
func (in *Interp) truth(v Val) sym.Lit {
	switch x := v.(type) {
	case Bool:
		return x.L
	case Int:
		return in.C.NZero(x.N).Not()
	case Nil, Undef, nil:
		return sym.False
	case EnumV:
		if in.M.D == DC {
			return in.C.NZero(x.N).Not()
		}
		return sym.True
	case Ptr:
		return sym.True
	case *Str:
		n := len(x.B)
		if !x.HasB {
			n = len(x.U)
		}
		if n > 0 {
			return sym.True
		}
		return sym.False
	case *Arr:
		if in.M.D == DPy && len(x.E) == 0 {
			return sym.False
		}
		return sym.True
	case Bytes:
		if in.M.D == DPy {
			return in.bempty(x).Not()
		}
		return sym.True
	case *Obj, *FuncV, Tuple, ClsV:
		return sym.True
	}
	in.unsup("condition of %s", describe(v))
	return sym.False
}

// toInt views a scalar as an integer for arithmetic.
func (in *Interp) toInt(v Val) (Int, bool) {
	switch x := v.(type) {
	case Int:
		return x, true
	case Bool:
		switch in.M.D {
		case DC, DCpp:
			return Int{N: sym.Num{x.L, sym.False}, T: i32}, true
		case DPy:
			return Int{N: sym.Num{x.L, sym.False}, T: ibig}, true
		case DJs:
			return Int{N: sym.Num{x.L, sym.False}, T: inum}, true
		}
	case EnumV:
		switch in.M.D {
		case DC:
			return Int{N: x.N, T: u32}, true
		case DGo:
			return Int{N: x.N, T: in.enumIT(x.Cls)}, true
		}
	case Nil:
		if in.M.D == DJs {
			return Int{N: sym.Num{sym.False}, T: inum}, true
		}
	}
	return Int{}, false
}

func promote(t IT, d Dialect) IT {
	if t.W > 0 && t.W < 32 && d != DGo {
		return i32
	}
	return t
}

func (in *Interp) usual(a, b Int) IT {
	x, y := a.T, b.T
	d := in.M.D
	switch d {
	case DGo:
		if a.Lit {
			return y
		}
		return x
	case DKt:
		if a.Lit && !b.Lit {
			if y.W < 32 {
				if y.S {
					return i32
				}
				return u32
			}
			return y
		}
		if b.Lit && !a.Lit {
			if x.W < 32 {
				if x.S {
					return i32
				}
				return u32
			}
			return x
		}
		w := x.W
		if y.W > w {
			w = y.W
		}
		if w < 32 {
			w = 32
		}
		return IT{w, x.S}
	case DPy:
		return ibig
	case DJs:
		if x.W == 0 && y.W == 0 {
			return ibig
		}
		if x.W == 0 || y.W == 0 {
			in.throw("TypeError", "cannot mix BigInt and number")
		}
		return inum
	}
	x, y = promote(x, d), promote(y, d)
	if d == DCs && x != y {
		// an int constant that fits converts to the other operand's type
		if a.Lit && x == i32 && !y.S && a.N[len(a.N)-1] == sym.False {
			return y
		}
		if b.Lit && y == i32 && !x.S && b.N[len(b.N)-1] == sym.False {
			return x
		}
		if x.W == 32 && y.W == 32 {
			return i64
		}
		if x.W != y.W {
			if x.W > y.W {
				y = x
			}
			return y
		}
		in.unsup("C# operands %s and %s", x, y)
	}
	if x == y {
		return x
	}
	if x.S == y.S {
		if x.W > y.W {
			return x
		}
		return y
	}
	if x.S {
		x, y = y, x
	} // x unsigned
	if x.W >= y.W {
		return x
	}
	return y
}

func (in *Interp) arith(op string, va, vb Val) Val {
	d := in.M.D
	// strings
	if op == "+" {
		if sa, ok := va.(*Str); ok {
			return in.strCat(sa, vb)
		}
		if sb, ok := vb.(*Str); ok {
			return in.strCat(in.toStr(va), sb)
		}
	}
	// booleans
	if x, ok := va.(Bool); ok && (op == "&" || op == "|" || op == "^" || op == "and" || op == "or" || op == "xor") && (d == DJava || d == DCs || d == DKt) {
		y, ok := vb.(Bool)
		if !ok {
			in.unsup("boolean operand")
		}
		switch op {
		case "&", "and":
			return Bool{in.C.And(x.L, y.L)}
		case "|", "or":
			return Bool{in.C.Or(x.L, y.L)}
		default:
			return Bool{in.C.Xor(x.L, y.L)}
		}
	}
	// pointers
	if p, ok := va.(Ptr); ok && (op == "+" || op == "-") {
		if q, ok := vb.(Ptr); ok {
			if op != "-" || p.B != q.B || p.A != q.A {
				in.fail("pointer", "difference of unrelated pointers")
			}
			return in.intc(int64((p.Off-q.Off)/in.esz(p.T)), i64)
		}
		k := in.ConcInt(vb) * in.esz(p.T)
		if op == "-" {
			k = -k
		}
		p.Off += k
		if p.Off < -1<<32 || p.Off > 1<<33 { // an access through it is what is checked
			in.fail("oob", "pointer outside its object (offset %d, size %d)", p.Off, len(p.B.B))
		}
		return p
	}
	if p, ok := vb.(Ptr); ok && op == "+" {
		return in.arith("+", p, va)
	}
	if fa, ok := va.(Flt); ok {
		return in.fltOp(op, fa, vb)
	}
	if fb, ok := vb.(Flt); ok {
		if ia, ok := va.(Int); ok {
			return in.fltOp(op, in.intToFlt(ia, fb.W), fb)
		}
	}
	if t, ok := va.(Tuple); ok && op == "+" {
		if u, ok := vb.(Tuple); ok {
			return append(append(Tuple{}, t...), u...)
		}
	}
	if a, ok := va.(*Arr); ok && d == DPy && op == "*" {
		k := in.ConcInt(vb)
		o := &Arr{Kind: a.Kind}
		for i := 0; i < k; i++ {
			for _, c := range a.E {
				o.E = append(o.E, &Cell{V: c.V})
			}
		}
		return o
	}
	if b, ok := va.(Bytes); ok && d == DPy && op == "*" {
		k := in.ConcInt(vb)
		nb := &Buf{}
		for i := 0; i < k; i++ {
			nb.B = append(nb.B, b.B.B[b.Off:b.Off+b.Len]...)
		}
		return Bytes{B: nb, Len: len(nb.B), Kind: b.Kind}
	}
	if x, ok := va.(Bytes); ok && d == DPy && op == "+" {
		if y, ok := vb.(Bytes); ok {
			nb := &Buf{}
			nb.B = append(nb.B, x.B.B[x.Off:x.Off+x.Len]...)
			nb.B = append(nb.B, y.B.B[y.Off:y.Off+y.Len]...)
			return Bytes{B: nb, Len: len(nb.B), Kind: x.Kind}
		}
	}
	if q, ok := va.(quot); ok && d == DJs {
		switch op {
		case "|":
			if z, ok := vb.(Int); ok && z.N.Const() && z.N.Value().Sign() == 0 {
				n, _ := in.C.DivTrunc(q.n, q.d)
				return in.mk(in.C.Wrap(n, 32, true), inum)
			}
		}
	}
	_, isU := va.(Undef)
	_, isU2 := vb.(Undef)
	if d == DJs && (isU || isU2) && set("| & ^ << >> >>>")[op] {
		z := in.intc(0, inum)
		if isU {
			va = z
		}
		if isU2 {
			vb = z
		}
	} else if d == DJs && (isU || isU2) {
		in.fail("undefined", "arithmetic on undefined")
	}
	a, oka := in.toInt(va)
	b, okb := in.toInt(vb)
	if !oka || !okb {
		if in.exc() {
			if _, ok := va.(Nil); ok {
				in.throw("TypeError", "operator %s on null", op)
			}
		}
		in.unsup("operator %s on %s and %s", op, describe(va), describe(vb))
	}
	c := in.C
	lit := a.Lit && b.Lit
	switch op {
	case "<<", ">>", ">>>", "shl", "shr", "ushr":
		r := in.shift(op, a, b)
		r.Lit = lit
		return r
	case "&", "|", "^", "and", "or", "xor", "&^":
		t := in.usual(a, b)
		if d == DKt { // infix functions keep the operand type
			t = a.T
			if a.Lit && !b.Lit {
				t = b.T
			}
		}
		x, y := a, b
		if d == DJs && t.W == -1 {
			x, y = in.mk(c.Wrap(a.N, 32, true), inum), in.mk(c.Wrap(b.N, 32, true), inum)
		} else {
			x, y = in.mk(a.N, t), in.mk(b.N, t)
		}
		var n sym.Num
		switch op {
		case "&", "and":
			n = c.NAnd(x.N, y.N)
		case "|", "or":
			n = c.NOr(x.N, y.N)
		case "&^":
			n = c.NAnd(x.N, c.NNot(y.N))
		default:
			n = c.NXor(x.N, y.N)
		}
		r := in.mk(n, t)
		r.Lit = lit
		return r
	}
	t := in.usual(a, b)
	x, y := a.N, b.N
	if t.W > 0 {
		x, y = c.Wrap(x, t.W, t.S), c.Wrap(y, t.W, t.S)
	}
	var n sym.Num
	switch op {
	case "+":
		n = c.Add(x, y)
	case "-":
		n = c.Sub(x, y)
	case "*":
		n = c.Mul(x, y)
	case "/":
		if d == DPy || d == DJs && t.W == -1 {
			if y.Const() && y.Value().Sign() != 0 {
				if d == DJs {
					return quot{x, y}
				}
			}
			in.unsup("true division")
		}
		in.divZero(y)
		n, _ = c.DivTrunc(x, y)
	case "//":
		in.divZero(y)
		n, _ = c.DivFloor(x, y)
	case "%":
		in.divZero(y)
		if d == DPy {
			_, n = c.DivFloor(x, y)
		} else {
			_, n = c.DivTrunc(x, y)
		}
	case "**":
		e, ok := y.Int64()
		bs, ok2 := x.Int64()
		if !ok || !ok2 || e < 0 || e > 200 {
			in.unsup("power")
		}
		n = c.Big(new(big.Int).Exp(big.NewInt(bs), big.NewInt(e), nil))
	default:
		in.unsup("operator %s", op)
	}
	r := in.mk(n, t)
	r.Lit = lit
	return r
}

// quot is the exact quotient of two integers (JavaScript division).
type quot struct{ n, d sym.Num }

func (in *Interp) divZero(y sym.Num) {
	z := in.C.NZero(y)
	if z == sym.False {
		return
	}
	if in.Branch(z) {
		if in.exc() {
			in.throw("ArithmeticException", "division by zero")
		}
		in.fail("div", "division by zero")
	}
}

// exc reports whether the language reports run-time errors by exceptions.
func (in *Interp) exc() bool {
	switch in.M.D {
	case DC, DCpp:
		return false
	}
	return true
}

func (in *Interp) shift(op string, a, b Int) Int {
	c := in.C
	d := in.M.D
	t := promote(a.T, d)
	if d == DKt && a.T.W < 32 && a.T.W > 0 {
		in.unsup("Kotlin shift of %s", a.T)
	}
	left := op == "<<" || op == "shl"
	cnt := b.N
	switch d {
	case DJava, DCs, DKt:
		cnt = c.NAnd(cnt, c.Int(int64(t.W-1)))
	case DJs:
		if t.W == -1 {
			cnt = c.NAnd(cnt, c.Int(31))
		}
	}
	k := 0
	kb := in.Concrete(cnt)
	if !kb.IsInt64() || kb.Int64() > 1<<20 {
		k = 1 << 20
	} else {
		k = int(kb.Int64())
	}
	switch d {
	case DC, DCpp:
		if k < 0 || k >= t.W {
			in.fail("ub", "shift count %s out of range for a %d-bit operand", kb, t.W)
		}
	case DGo:
		if k < 0 {
			in.throw("panic", "negative shift amount")
		}
		if k >= t.W {
			if left || !t.S {
				return Int{N: sym.Num{sym.False}, T: t}
			}
			k = t.W - 1
		}
	case DPy:
		if k < 0 {
			in.throw("ValueError", "negative shift count")
		}
	}
	if k > 4096 {
		in.unsup("shift by %d", k)
	}
	x := a.N
	if d == DJs && t.W == -1 {
		if op == ">>>" {
			return in.mk(c.NShr(c.Wrap(x, 32, false), k), inum)
		}
		x = c.Wrap(x, 32, true)
		if left {
			return in.mk(c.Wrap(c.NShl(x, k), 32, true), inum)
		}
		return in.mk(c.NShr(x, k), inum)
	}
	if t.W > 0 {
		x = c.Wrap(x, t.W, t.S)
	}
	if left {
		return in.mk(c.NShl(x, k), t)
	}
	if (op == ">>>" || op == "ushr") && t.W > 0 {
		x = c.Wrap(x, t.W, false)
	}
	return in.mk(c.NShr(x, k), t)
}

func (in *Interp) fltConst(f Flt) (float64, bool) {
	if !f.B.Const() {
		return 0, false
	}
	if f.W == 32 {
		return float64(math.Float32frombits(uint32(f.B.Value().Uint64()))), true
	}
	return math.Float64frombits(f.B.Value().Uint64()), true
}

func (in *Interp) mkFlt(v float64, w int) Flt {
	if w == 32 {
		return Flt{32, in.C.Big(new(big.Int).SetUint64(uint64(math.Float32bits(float32(v)))))}
	}
	return Flt{64, in.C.Big(new(big.Int).SetUint64(math.Float64bits(v)))}
}

func (in *Interp) intToFlt(i Int, w int) Flt {
	if v, ok := i.N.Int64(); ok {
		return in.mkFlt(float64(v), w)
	}
	in.unsup("conversion of an unknown integer to floating point")
	return Flt{}
}

func (in *Interp) fltOp(op string, a Flt, vb Val) Val {
	var b Flt
	switch y := vb.(type) {
	case Flt:
		b = y
	case Int:
		b = in.intToFlt(y, a.W)
	default:
		in.unsup("float operand %s", describe(vb))
	}
	x, ok1 := in.fltConst(a)
	y, ok2 := in.fltConst(b)
	if !ok1 || !ok2 {
		in.unsup("floating point arithmetic on unknown values")
	}
	w := a.W
	if b.W > w {
		w = b.W
	}
	switch op {
	case "+":
		return in.mkFlt(x+y, w)
	case "-":
		return in.mkFlt(x-y, w)
	case "*":
		return in.mkFlt(x*y, w)
	case "/":
		return in.mkFlt(x/y, w)
	}
	in.unsup("float operator %s", op)
	return nil
}

func parseFloat(s string) (float64, bool) {
	v, err := strconv.ParseFloat(s, 64)
	return v, err == nil
}

// equal compares two values (== in the dialect; strict: === / is).
func (in *Interp) equal(a, b Val) sym.Lit {
	c := in.C
	null := func(v Val) bool {
		switch v.(type) {
		case Nil, Undef:
			return true
		}
		return false
	}
	if null(a) || null(b) {
		if null(a) && null(b) {
			return sym.True
		}
		if _, ok := a.(Nil); ok {
			a, b = b, a
		}
		if x, ok := a.(Int); ok && (in.M.D == DC || in.M.D == DCpp) {
			return c.NZero(x.N)
		}
		return sym.False
	}
	switch x := a.(type) {
	case *Str:
		if y, ok := b.(*Str); ok {
			return in.strEq(x, y)
		}
		return sym.False
	case EnumV:
		if y, ok := b.(EnumV); ok {
			return c.NEq(x.N, y.N)
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.B == y.B && x.A == y.A && x.C == y.C && x.Off == y.Off {
				return sym.True
			}
			return sym.False
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return c.Eq(x.L, y.L)
		}
	case Flt:
		xv, ok := in.fltConst(x)
		if y, ok2 := b.(Flt); ok2 {
			yv, ok3 := in.fltConst(y)
			if ok && ok3 {
				return litOf(xv == yv)
			}
			return in.fltEq(x, y)
		}
		if y, ok2 := b.(Int); ok2 {
			return in.equal(x, in.intToFlt(y, x.W))
		}
	case *Obj:
		if y, ok := b.(*Obj); ok {
			return litOf(x == y)
		}
		return sym.False
	case *Arr:
		if y, ok := b.(*Arr); ok {
			return litOf(x == y)
		}
		return sym.False
	case Bytes:
		if y, ok := b.(Bytes); ok {
			if in.M.D == DPy {
				if x.Len != y.Len {
					return sym.False
				}
				r := sym.True
				for i := 0; i < x.Len; i++ {
					r = c.And(r, c.NEq(x.B.B[x.Off+i], y.B.B[y.Off+i]))
				}
				return r
			}
			return litOf(x.B == y.B && x.Off == y.Off && x.Len == y.Len)
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := sym.True
			for i := range x {
				r = c.And(r, in.equal(x[i], y[i]))
			}
			return r
		}
	case ClsV:
		if y, ok := b.(ClsV); ok {
			return litOf(x.C == y.C)
		}
	case *FuncV:
		return litOf(a == b)
	case quot:
		if y, ok := b.(Int); ok {
			return c.NEq(x.n, c.Mul(y.N, x.d))
		}
	}
	if f, ok := b.(Flt); ok {
		if x, ok := a.(Int); ok {
			return in.equal(in.intToFlt(x, f.W), f)
		}
	}
	x, ok1 := in.toInt(a)
	y, ok2 := in.toInt(b)
	if ok1 && ok2 {
		if in.M.D == DC || in.M.D == DCpp || in.M.D == DJava || in.M.D == DCs || in.M.D == DKt {
			t := in.usual(x, y)
			if t.W > 0 {
				return c.NEq(c.Wrap(x.N, t.W, t.S), c.Wrap(y.N, t.W, t.S))
			}
		}
		if in.M.D == DJs && (x.T.W == 0) != (y.T.W == 0) {
			return sym.False // === between BigInt and number
		}
		return c.NEq(x.N, y.N)
	}
	if in.M.D == DPy || in.M.D == DJs {
		return sym.False
	}
	in.unsup("comparison of %s and %s", describe(a), describe(b))
	return sym.False
}

// fltEq is IEEE equality on opaque bit patterns.
func (in *Interp) fltEq(x, y Flt) sym.Lit {
	if x.W != y.W {
		in.unsup("float comparison of different widths")
	}
	c := in.C
	e, m := 8, 23
	if x.W == 64 {
		e, m = 11, 52
	}
	cls := func(f Flt) (nan, zero sym.Lit) {
		allE := sym.True
		anyM := sym.False
		anyE := sym.False
		for i := 0; i < e; i++ {
			allE = c.And(allE, f.B.Bit(m+i))
			anyE = c.Or(anyE, f.B.Bit(m+i))
		}
		for i := 0; i < m; i++ {
			anyM = c.Or(anyM, f.B.Bit(i))
		}
		return c.And(allE, anyM), c.And(anyE.Not(), anyM.Not())
	}
	nx, zx := cls(x)
	ny, zy := cls(y)
	return c.And(c.And(nx.Not(), ny.Not()), c.Or(c.And(zx, zy), c.NEq(x.B, y.B)))
}

func litOf(b bool) sym.Lit {
	if b {
		return sym.True
	}
	return sym.False
}

// less is a < b.
func (in *Interp) less(a, b Val) sym.Lit {
	if p, ok := a.(Ptr); ok {
		if q, ok := b.(Ptr); ok {
			return litOf(p.Off < q.Off)
		}
	}
	if q, ok := a.(quot); ok {
		if y, ok := b.(Int); ok && q.d.Const() && q.d.Value().Sign() > 0 {
			return in.C.NLt(q.n, in.C.Mul(y.N, q.d))
		}
	}
	x, ok1 := in.toInt(a)
	y, ok2 := in.toInt(b)
	if !ok1 || !ok2 {
		if _, ok := a.(Flt); ok {
			return in.fltLess(a, b)
		}
		if _, ok := b.(Flt); ok {
			return in.fltLess(a, b)
		}
		in.unsup("ordering of %s and %s", describe(a), describe(b))
	}
	xn, yn := x.N, y.N
	switch in.M.D {
	case DC, DCpp, DJava, DCs, DKt, DGo:
		t := in.usual(x, y)
		if t.W > 0 {
			xn, yn = in.C.Wrap(xn, t.W, t.S), in.C.Wrap(yn, t.W, t.S)
		}
	}
	return in.C.NLt(xn, yn)
}

func (in *Interp) fltLess(a, b Val) sym.Lit {
	f := func(v Val) (float64, bool) {
		switch x := v.(type) {
		case Flt:
			return in.fltConst(x)
		case Int:
			n, ok := x.N.Int64()
			return float64(n), ok
		}
		return 0, false
	}
	x, ok := f(a)
	y, ok2 := f(b)
	if !ok || !ok2 {
		in.unsup("float ordering")
	}
	return litOf(x < y)
}

func (in *Interp) compare(op string, a, b Val) Val {
	switch op {
	case "==", "===", "is":
		return Bool{in.equal(a, b)}
	case "!=", "!==", "is not":
		return Bool{in.equal(a, b).Not()}
	case "<":
		return Bool{in.less(a, b)}
	case ">":
		return Bool{in.less(b, a)}
	case "<=":
		return Bool{in.less(b, a).Not()}
	case ">=":
		return Bool{in.less(a, b).Not()}
	}
	in.unsup("comparison %s", op)
	return nil
}

// ------------------------------------------------------------- conversions

// convert adapts v to type t. explicit marks a cast.
func (in *Interp) convert(v Val, t *RT, explicit bool) Val {
	if t == nil || v == nil {
		return v
	}
	switch t.K {
	case '?', 'v':
		return v
	case 'i':
		switch x := v.(type) {
		case Int:
			return in.mk(x.N, t.I)
		case Bool:
			if in.M.D == DC || in.M.D == DCpp {
				return in.mk(sym.Num{x.L, sym.False}, t.I)
			}
		case EnumV:
			return in.mk(x.N, t.I)
		case Flt:
			if f, ok := in.fltConst(x); ok && f == math.Trunc(f) && math.Abs(f) < 1e18 {
				return in.mk(in.C.Int(int64(f)), t.I)
			}
			in.unsup("float to integer conversion")
		case Ptr:
			in.unsup("pointer to integer")
		}
	case 'b':
		switch x := v.(type) {
		case Bool:
			return x
		case Int, EnumV, Ptr:
			if in.M.D == DC || in.M.D == DCpp {
				return Bool{in.truth(x)}
			}
		}
	case 'f':
		switch x := v.(type) {
		case Flt:
			if x.W == t.W {
				return x
			}
			if f, ok := in.fltConst(x); ok {
				return in.mkFlt(f, t.W)
			}
			in.unsup("float width conversion")
		case Int:
			return in.intToFlt(x, t.W)
		}
	case 'e':
		switch x := v.(type) {
		case EnumV:
			return x
		case Int:
			if t.Cls == nil {
				break
			}
			it := in.enumIT(t.Cls)
			return EnumV{t.Cls, in.C.Wrap(x.N, it.W, it.S)}
		}
	case 'p':
		switch x := v.(type) {
		case Ptr:
			if t.E != nil && t.E.K != 'v' {
				x.T = t.E
			} else if t.E != nil && x.T == nil {
				x.T = t.E
			}
			if t.E != nil && t.E.K == 'v' {
				x.T = t.E
			}
			return x
		case *Arr:
			return Ptr{A: x, T: x.T}
		case Int:
			if x.N.Const() && x.N.Value().Sign() == 0 {
				return Nil{}
			}
		}
	case 'y':
		switch x := v.(type) {
		case Bytes:
			if t.N != "" {
				x.Kind = t.N
			}
			if t.E != nil {
				x.S = t.E.I.S
			}
			return x
		}
	case 'c':
		if o, ok := v.(*Obj); ok && in.valueStructs() {
			return in.copyObj(o)
		}
	case 'a':
		if a, ok := v.(*Arr); ok && t.Len >= 0 && in.M.D == DGo {
			return in.copyVal(a)
		}
	}
	if _, ok := v.(Undef); ok && in.M.D != DJs {
		return Nil{}
	}
	return v
}

func (in *Interp) valueStructs() bool {
	switch in.M.D {
	case DC, DCpp, DGo:
		return true
	}
	return false
}

func (in *Interp) copyObj(o *Obj) *Obj {
	n := &Obj{Cls: o.Cls, F: map[string]*Cell{}, Keys: o.Keys, Kind: o.Kind}
	for k, c := range o.F {
		n.F[k] = &Cell{V: in.copyVal(c.V), T: c.T}
	}
	return n
}
func (in *Interp) copyVal(v Val) Val {
	switch x := v.(type) {
	case *Obj:
		return in.copyObj(x)
	case *Arr:
		a := &Arr{T: x.T, Kind: x.Kind}
		for _, c := range x.E {
			a.E = append(a.E, &Cell{V: in.copyVal(c.V), T: c.T})
		}
		return a
	}
	return v
}

// bits gives the memory representation of a scalar, little-endian host.
func (in *Interp) bits(v Val) (sym.Num, int) {
	switch x := v.(type) {
	case Int:
		return in.C.Wrap(x.N, x.T.W, false), x.T.W
	case Bool:
		return sym.Num{x.L, sym.False}, 8
	case Flt:
		return x.B, x.W
	case EnumV:
		w := in.enumIT(x.Cls).W
		return in.C.Wrap(x.N, w, false), w
	}
	in.unsup("memory representation of %s", describe(v))
	return nil, 0
}

// unbits builds a value of type t from its memory representation.
func (in *Interp) unbits(n sym.Num, t *RT) Val {
	switch t.K {
	case 'i':
		return in.mk(n, t.I)
	case 'b':
		return Bool{in.C.NZero(in.C.Wrap(n, 8, false)).Not()}
	case 'f':
		return Flt{t.W, in.C.Wrap(n, t.W, false)}
	case 'e':
		it := in.enumIT(t.Cls)
		return EnumV{t.Cls, in.C.Wrap(n, it.W, it.S)}
	}
	in.unsup("reinterpretation as %s", t)
	return nil
}
