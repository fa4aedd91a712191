package util

import (
	"fmt"

	vs "github.com/xaxys/bubbler/verifspec"
)

// ---- template arithmetic ----
//
// calcSpec is the meaning of an expression: precedence climbing over the usual
// table, operators of one level from the left.

func calcPrec(op any) int {
	switch op {
	case "||", "or":
		return 1
	case "&&", "and":
		return 2
	case "|":
		return 3
	case "^":
		return 4
	case "&":
		return 5
	case "==", "!=":
		return 6
	case "<", ">", "<=", ">=":
		return 7
	case "<<", ">>":
		return 8
	case "+", "-":
		return 9
	case "*", "/", "%":
		return 10
	}
	return 0
}

type specTokens struct {
	t []any
	i int
}

func (s *specTokens) peek() any {
	if s.i < len(s.t) {
		return s.t[s.i]
	}
	return nil
}

func (s *specTokens) expr() any {
	c := s.binary(1)
	if s.peek() == "?" {
		s.i++
		a := s.expr()
		s.i++ // ":"
		b := s.expr()
		if c.(bool) {
			return a
		}
		return b
	}
	return c
}

func (s *specTokens) binary(min int) any {
	l := s.unary()
	for {
		op := s.peek()
		p := calcPrec(op)
		if p < min || p == 0 {
			return l
		}
		s.i++
		r := s.binary(p + 1)
		l = specApply(op.(string), l, r)
	}
}

func (s *specTokens) unary() any {
	switch s.peek() {
	case "+":
		s.i++
		return s.unary()
	case "-":
		s.i++
		return -s.unary().(int64)
	case "~":
		s.i++
		return ^s.unary().(int64)
	case "!":
		s.i++
		return !s.unary().(bool)
	case "(":
		s.i++
		v := s.expr()
		s.i++
		return v
	}
	v := s.peek()
	s.i++
	return v
}

func specApply(op string, l, r any) any {
	switch op {
	case "||", "or":
		return vs.Or(l.(bool), r.(bool))
	case "&&", "and":
		return vs.And(l.(bool), r.(bool))
	}
	a, b := l.(int64), r.(int64)
	switch op {
	case "|":
		return a | b
	case "^":
		return a ^ b
	case "&":
		return a & b
	case "==":
		return a == b
	case "!=":
		return a != b
	case "<":
		return a < b
	case ">":
		return a > b
	case "<=":
		return a <= b
	case ">=":
		return a >= b
	case "<<":
		vs.Assume(b >= 0)
		return a << b
	case ">>":
		vs.Assume(b >= 0)
		return a >> b
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		vs.Assume(b != 0)
		return a / b
	}
	vs.Assume(b != 0)
	return a % b
}

func calcCheck(name string, toks ...any) {
	want := (&specTokens{t: toks}).expr()
	got := Calculate(toks...)
	if w, ok := want.(bool); ok {
		g, isB := got.(bool)
		vs.Assert(name+" (truth value)", isB && g == w)
		return
	}
	vs.Assert(name, IsNumber(got) && ToInt64(got) == want.(int64))
}

var arithOps = []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|"}

func num(n string) int64 { return vs.Int(n, -1<<63, 1<<63-1) }

func Verify_C19_CalcTwo() {
	vs.BVMode()
	a, b, c := num("a"), num("b"), num("c")
	o1, o2 := vs.Pick("op1", arithOps...), vs.Pick("op2", arithOps...)
	calcCheck("two operators follow precedence and associate to the left", a, o1, b, o2, c)
}

func Verify_C19_CalcThree() {
	vs.BVMode()
	a, b, c, d := num("a"), num("b"), num("c"), num("d")
	ops := []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "^"}
	o1, o2, o3 := vs.Pick("op1", ops...), vs.Pick("op2", ops...), vs.Pick("op3", ops...)
	calcCheck("three operators follow precedence and associate to the left", a, o1, b, o2, c, o3, d)
}

func Verify_C19_CalcParens() {
	vs.BVMode()
	a, b, c := num("a"), num("b"), num("c")
	o1, o2 := vs.Pick("op1", arithOps...), vs.Pick("op2", arithOps...)
	switch vs.Choose("form", 4) {
	case 0:
		calcCheck("parentheses on the left", "(", a, o1, b, ")", o2, c)
	case 1:
		calcCheck("parentheses on the right", a, o1, "(", b, o2, c, ")")
	case 2:
		calcCheck("a minus sign binds tighter than any operator", "-", a, o1, "-", b, o2, "~", c)
	case 3:
		calcCheck("a sign before parentheses", "-", "(", a, o1, "(", b, o2, c, ")", ")")
	}
}

func Verify_C19_CalcCompare() {
	vs.BVMode()
	a, b, c, d := num("a"), num("b"), num("c"), num("d")
	cmp := vs.Pick("cmp", "==", "!=", "<", ">", "<=", ">=")
	switch vs.Choose("form", 5) {
	case 0:
		calcCheck("comparison", a, cmp, b)
	case 1:
		o1, o2 := vs.Pick("op1", "+", "*", "<<"), vs.Pick("op2", "-", "/", ">>")
		calcCheck("arithmetic binds tighter than comparison", a, o1, b, cmp, c, o2, d)
	case 2:
		l1 := vs.Pick("log1", "&&", "||", "and", "or")
		l2 := vs.Pick("log2", "&&", "||", "and", "or")
		calcCheck("logic binds looser than comparison", a, cmp, b, l1, c, "<", d, l2, a, "!=", c)
	case 3:
		calcCheck("conditional", a, cmp, b, "?", c, ":", d)
		calcCheck("nested conditional", a, cmp, b, "?", c, ">", int64(0), "?", c, ":", d, ":", a, "+", b)
	case 4:
		calcCheck("negated comparison", "!", "(", a, cmp, b, ")")
	}
}

// Operands of every integer type count as their value.
func Verify_C19_CalcTypes() {
	a := vs.Int("a", 0, 127)
	b := num("b")
	vs.Assume(b > -1000000 && b < 1000000)
	var x any
	switch vs.Choose("type", 10) {
	case 0:
		x = int(a)
	case 1:
		x = int8(a)
	case 2:
		x = int16(a)
	case 3:
		x = int32(a)
	case 4:
		x = a
	case 5:
		x = uint(a)
	case 6:
		x = uint8(a)
	case 7:
		x = uint16(a)
	case 8:
		x = uint32(a)
	case 9:
		x = uint64(a)
	}
	vs.Assert("ToInt64 keeps the value", ToInt64(x) == a)
	vs.Assert("ToInt32 keeps the value", int64(ToInt32(x)) == a)
	vs.Assert("ToInt16 keeps the value", int64(ToInt16(x)) == a)
	vs.Assert("ToInt8 keeps the value", int64(ToInt8(x)) == a)
	vs.Assert("ToInt keeps the value", int64(ToInt(x)) == a)
	vs.Assert("ToUint64 keeps the value", int64(ToUint64(x)) == a)
	vs.Assert("ToUint32 keeps the value", int64(ToUint32(x)) == a)
	vs.Assert("ToUint16 keeps the value", int64(ToUint16(x)) == a)
	vs.Assert("ToUint8 keeps the value", int64(ToUint8(x)) == a)
	vs.Assert("ToUint keeps the value", int64(ToUint(x)) == a)
	vs.Assert("ToBool tells zero", ToBool(x) == (a != 0))
	vs.Assert("a sum does not depend on the operand types", ToInt64(Calculate(x, "+", b)) == a+b)
	vs.Assert("equality does not depend on the operand types", vs.And(Calculate(x, "==", b).(bool) == (a == b), Calculate(b, "!=", x).(bool) == (a != b)))
	vs.Assert("every integer type is a number", IsNumber(x) && !IsFloat(x) && !IsBool(x) && IsIntOrUint(x) && IsInt(x) == (vs.Choose("dummy", 1) == 0 && isSigned(x)) && IsUint(x) == !isSigned(x))
}

func isSigned(x any) bool {
	switch x.(type) {
	case int, int8, int16, int32, int64:
		return true
	}
	return false
}

func Verify_C19_Iterate() {
	lo, n := vs.Int("lo", -1000, 1000), vs.Choose("n", 6)
	r := templateIterate(lo, lo+int64(n))
	vs.Assert("iterate gives one number per step", len(r) == n)
	for i := range r {
		vs.Assert("iterate counts up from the start", r[i] == lo+int64(i))
	}
	e := vs.Int("e", -2000, 2000)
	vs.Assert("iterate over nothing is empty", vs.Implies(e <= lo, len(templateIterate(lo, e)) == 0))
}

func Inv_templateIterate_1(startValue, endValue any, start, end int64, r []int64, i int64) bool {
	return vs.And(vs.Or(i <= end, i == start), vs.And(i >= start, vs.And(int64(len(r)) == i-start, vs.Forall(0, len(r), func(k int) bool { return r[k] == start+int64(k) }))))
}

func Verify_C19_IterateAll() {
	lo, hi := vs.Int("lo", -1<<40, 1<<40), vs.Int("hi", -1<<40, 1<<40)
	if !vs.Symbolic() {
		lo, hi = lo%50, hi%50
	}
	r := templateIterate(lo, hi)
	n := hi - lo
	if n < 0 {
		n = 0
	}
	vs.Assert("iterate gives every number of the range once, in order", int64(len(r)) == n && vs.Forall(0, len(r), func(k int) bool { return r[k] == lo+int64(k) }))
}

// ---- bits ----

type intT interface {
	~int8 | ~int16 | ~int32 | ~int64
}

func low[T intT](v T) {
	r := LowBit(v)
	if v == 0 {
		vs.Assert("LowBit of zero is zero", r == 0)
		return
	}
	vs.Assert("LowBit is one bit", vs.And(r != 0, r&(r-1) == 0))
	vs.Assert("LowBit is a bit of the value", v&r == r)
	vs.Assert("LowBit has no bit of the value below it", v&(r-1) == 0)
}

func high[T intT](v, top T) {
	vs.Assume(v >= 1 && v <= top)
	r := HighBit(v)
	vs.Assert("HighBit is a power of two", vs.And(r > 0, r&(r-1) == 0))
	vs.Assert("HighBit is at least the value", r >= v)
	vs.Assert("HighBit is the smallest such power", r>>1 < v)
}

func Verify_C19_Bits() {
	vs.BVMode()
	x := num("x")
	switch vs.Choose("type", 4) {
	case 0:
		low(int8(x))
		high(int8(x), 64)
	case 1:
		low(int16(x))
		high(int16(x), 1<<14)
	case 2:
		low(int32(x))
		high(int32(x), 1<<30)
	case 3:
		low(x)
		high(x, 1<<62)
	}
}

// ---- sizes ----

func Verify_C19_Size() {
	n := vs.Int("bits", 0, 1<<62)
	bytes, bits := n/8, n%8
	want := fmt.Sprintf("%d#%d", bytes, bits)
	switch {
	case n == 0:
		want = "0"
	case bytes == 0:
		want = fmt.Sprintf("#%d", bits)
	case bits == 0:
		want = fmt.Sprintf("%d", bytes)
	}
	vs.Assert("a size is written as bytes#bits", ToSizeString(n) == want)
	vs.Assert("the parts of a size add up", vs.And(bytes*8+bits == n, bits < 8))
}

func Verify_C19_SizeDynamic() {
	start, size := vs.Int("start", 0, 1<<40), vs.Int("size", 0, 1<<40)
	vs.Assert("a size of unknown length", ToSizeString(-1) == "dynamic")
	vs.Assert("a fixed position", ToSizeStringDynamic(start, false, size) == ToSizeString(start+size))
	vs.Assert("a position after something variable", ToSizeStringDynamic(start, true, size) == "dynamic+"+ToSizeString(start+size))
	vs.Assert("a variable position after a fixed start", ToSizeStringDynamic(start, false, -1) == ToSizeString(start)+"+dynamic")
	vs.Assert("a variable position after something variable", ToSizeStringDynamic(start, true, -1) == "dynamic+"+ToSizeString(start)+"+dynamic")
}

func init() {
	vs.Register("C19", "Verify_C19_CalcTwo", Verify_C19_CalcTwo)
	vs.Register("C19", "Verify_C19_CalcThree", Verify_C19_CalcThree)
	vs.Register("C19", "Verify_C19_CalcParens", Verify_C19_CalcParens)
	vs.Register("C19", "Verify_C19_CalcCompare", Verify_C19_CalcCompare)
	vs.Register("C19", "Verify_C19_CalcTypes", Verify_C19_CalcTypes)
	vs.Register("C19", "Verify_C19_Iterate", Verify_C19_Iterate)
	vs.Register("C19", "Verify_C19_IterateAll", Verify_C19_IterateAll)
	vs.Register("C19", "Verify_C19_Bits", Verify_C19_Bits)
	vs.Register("C19", "Verify_C19_Size", Verify_C19_Size)
	vs.Register("C19", "Verify_C19_SizeDynamic", Verify_C19_SizeDynamic)
}
