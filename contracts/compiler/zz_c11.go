package compiler

import (
	"math"

	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C11", "Verify_C11_Sum1", Verify_C11_Sum1)
	vs.Register("C11", "Verify_C11_Sum2", Verify_C11_Sum2)
	vs.Register("C11", "Verify_C11_Sum3", Verify_C11_Sum3)
	vs.Register("C11", "Verify_C11_Sum4", Verify_C11_Sum4)
	vs.Register("C11", "Verify_C11_Sum5", Verify_C11_Sum5)
	vs.Register("C11", "Verify_C11_Sum6", Verify_C11_Sum6)
	vs.Register("C11", "Verify_C11_Declared", Verify_C11_Declared)
	vs.Register("C11", "Verify_C11_Large", Verify_C11_Large)
	vs.Register("C11", "Verify_C11_LargeArray", Verify_C11_LargeArray)
	vs.Register("C11", "Verify_C11_Nested", Verify_C11_Nested)
	vs.Register("C11", "Verify_C11_SizeText", Verify_C11_SizeText)
}

// c11Fields is a struct body of two or three elements of any form and any
// widths, with its size, whether it is variable-length, and whether everything
// in it starts where it may.
func c11Fields(from, of int) (text string, sum int64, dyn, aligned bool) {
	aligned = true
	n := 1 + vs.Choose("fields-1", 3)
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 {
			k = from + vs.Choose("form a", of)
		} else {
			k = vs.Choose(vJoin("form ", string(rune('a'+i))), vForms)
		}
		f := vForm(i, k)
		text += f.text
		if f.must {
			aligned = vs.And(aligned, sum%8 == 0)
		}
		sum += f.size
		dyn = dyn || f.dyn
	}
	return
}

// The size of a struct is the sum of its fields' and whole bytes, by the form
// of the first element.
func Verify_C11_Sum1() { c11Sum(0, 2) }
func Verify_C11_Sum2() { c11Sum(2, 2) }
func Verify_C11_Sum3() { c11Sum(4, 2) }
func Verify_C11_Sum4() { c11Sum(6, 2) }
func Verify_C11_Sum5() { c11Sum(8, 2) }
func Verify_C11_Sum6() { c11Sum(10, 3) }

func c11Sum(from, of int) {
	text, sum, dyn, aligned := c11Fields(from, of)
	u, err := vCompile(vJoin("package p; ", vTypes, "struct S { ", text, " };"))
	vs.Assert("accepted exactly when the sum is whole bytes", vs.Implies(aligned, (err == nil) == (sum%8 == 0)))
	if err == nil {
		s := vStruct(u, "S")
		vs.Assert("the size is the sum of the fields", s.StructBitSize == sum)
		vs.Assert("variable-length exactly when a field is", s.StructDynamic == dyn)
		vs.Assert("as a type it has that size", s.GetTypeBitSize() == sum || dyn && s.GetTypeBitSize() == -1)
		vs.Assert("as a type it is variable-length alike", s.GetTypeDynamic() == dyn)
	}
}

// A declared size has to be that sum.
func Verify_C11_Declared() {
	n := vs.Int("declared", 0, math.MaxInt64)
	k := vs.Choose("form", vForms)
	f := vForm(0, k)
	g := vForm(1, vs.Choose("second", 3))
	sum := f.size + g.size
	vs.Assume(sum%8 == 0)
	text := vJoin(vTypes, "struct S [#", vs.Lit(n), "] { ", f.text, g.text, " };")
	u, err := vCompile("package p; " + text)
	vs.Assert("accepted exactly with the sum, on structs of fixed size", (err == nil) == vs.And(!f.dyn, n == sum))
	if err == nil {
		vs.Assert("the size is the declared one", vStruct(u, "S").StructBitSize == n)
	}
}

// No sum wraps around.
func Verify_C11_Large() {
	a := vs.Int("a", 1, math.MaxInt64)
	b := vs.Int("b", 1, math.MaxInt64)
	c := vs.Int("c", 1, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { void [#", vs.Lit(a), "]; void [#", vs.Lit(b), "]; void [#", vs.Lit(c), "]; };"))
	fits := false
	if a <= math.MaxInt64-b {
		fits = a+b <= math.MaxInt64-c
	}
	if fits {
		vs.Assert("accepted exactly in whole bytes", (err == nil) == ((a+b+c)%8 == 0))
	} else {
		vs.Assert("rejected", err != nil)
	}
	if err == nil {
		vs.Assert("the size is the sum", vStruct(u, "S").StructBitSize == a+b+c)
	}
}

// No array's size wraps around.
func Verify_C11_LargeArray() {
	ty := vs.Pick("type", "uint8", "int16", "float32", "int64", "Num", "T", "bool")
	w := map[string]int64{"uint8": 8, "int16": 16, "float32": 32, "int64": 64, "Num": 11, "T": 16, "bool": 8}[ty]
	n := vs.Int("length", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; ", vTypes, "struct S { ", ty, "<", vs.Lit(n), "> a; };"))
	if vs.And(n >= 1, n <= math.MaxInt64/w) {
		vs.Assert("accepted exactly in whole bytes", (err == nil) == (n*w%8 == 0))
	} else {
		vs.Assert("rejected", err != nil)
	}
	if err == nil {
		vs.Assert("the size is width times length", vStruct(u, "S").StructBitSize == n*w)
	}
}

// Structs in structs: the size and the flag carry over, through arrays and
// embedding, and an embedded struct counts once however deep.
func Verify_C11_Nested() {
	n := vs.Int("bits", 1, 64)
	dyn := vs.Bool("dyn")
	k := vs.Choose("how", 6)
	tail := ""
	if dyn {
		tail = "string s; "
	}
	one := n + 8 - n%8
	inner := vJoin("{ uint64 x [#", vs.Lit(n), "]; void [#", vs.Lit(8-n%8), "]; ", tail, "}")
	text, sum := "", one
	switch k {
	case 0:
		text = vJoin("struct A ", inner, "; struct S { A a; };")
		if dyn {
			sum = 0
		}
	case 1:
		text = vJoin("struct A ", inner, "; struct S { A<3> a; };")
		sum = 3 * one
		if dyn {
			sum = 0
		}
	case 2:
		text = vJoin("struct A ", inner, "; struct S { A; };")
	case 3:
		text = vJoin("struct S { struct A ", inner, "; };")
	case 4:
		text = vJoin("struct A ", inner, "; struct B { A; uint8 y; }; struct S { B; };")
		sum = one + 8
	case 5:
		text = vJoin("struct S { struct B { struct A ", inner, "; uint8 y; }; uint16 z; };")
		sum = one + 24
	}
	u, err := vCompile("package p; " + text)
	vs.Assert("accepted", err == nil)
	s := vStruct(u, "S")
	vs.Assert("the size is the sum", s.StructBitSize == sum)
	vs.Assert("variable-length exactly when a part is", s.StructDynamic == dyn)
	total := int64(0)
	for _, f := range s.StructFields.Values() {
		if b := f.GetFieldBitSize(); b > 0 {
			total += b
		}
	}
	vs.Assert("the fields add up to it", total == sum)
}

// A size in bytes and bits is eight times the one plus the other.
func Verify_C11_SizeText() {
	a := vs.Int("bytes", 0, math.MaxInt64)
	b := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { void [", vs.Lit(a), "#", vs.Lit(b), "]; };"))
	if a > (math.MaxInt64-b)/8 {
		vs.Assert("rejected", err != nil)
		return
	}
	n := a*8 + b
	vs.Assert("accepted exactly when positive and whole bytes", (err == nil) == vs.And(n > 0, n%8 == 0))
	if err == nil {
		vs.Assert("the size is the declared one", vStruct(u, "S").StructBitSize == n)
	}
}
