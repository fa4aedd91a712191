package compiler

import (
	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C13", "Verify_C13_Position", Verify_C13_Position)
	vs.Register("C13", "Verify_C13_Two", Verify_C13_Two)
	vs.Register("C13", "Verify_C13_Embedded", Verify_C13_Embedded)
	vs.Register("C13", "Verify_C13_AfterDynamic", Verify_C13_AfterDynamic)
	vs.Register("C13", "Verify_C13_Nested", Verify_C13_Nested)
	vs.Register("C13", "Verify_C13_Fields1", Verify_C13_Fields1)
	vs.Register("C13", "Verify_C13_Fields2", Verify_C13_Fields2)
	vs.Register("C13", "Verify_C13_Fields3", Verify_C13_Fields3)
	vs.Register("C13", "Verify_C13_Fields4", Verify_C13_Fields4)
	vs.Register("C13", "Verify_C13_Fields5", Verify_C13_Fields5)
	vs.Register("C13", "Verify_C13_Fields6", Verify_C13_Fields6)
}

// The types whose content starts on a byte boundary.
var c13Types = []string{"string", "bytes", "string<2>", "bytes<3>", "T", "struct T", "T<2>", "D", "D<4>", "struct N { uint8 q; }"}

func c13Misaligned(err error) bool {
	_, ok := vCause(err).(*definition.FieldNotAlignedError)
	return ok
}

func c13Expect(err error, aligned, whole bool) {
	misaligned := err != nil && c13Misaligned(err)
	vs.Assert("rejected as misaligned exactly when it is", misaligned == !aligned)
	vs.Assert("otherwise accepted exactly in whole bytes", vs.Implies(aligned, (err == nil) == whole))
}

// After any two fields of any width.
func Verify_C13_Position() {
	a := vForm(0, vs.Choose("first", 3))
	b := vForm(1, vs.Choose("second", 5))
	ty := vs.Pick("type", c13Types...)
	pos := a.size + b.size
	_, err := vCompile(vJoin("package p; ", vTypes, "struct S { ", a.text, b.text, ty, " x; };"))
	c13Expect(err, pos%8 == 0, true)
}

// The second use is checked as the first.
func Verify_C13_Two() {
	n := vs.Int("bits", 1, 64)
	m := vs.Int("more", 1, 64)
	t1 := vs.Pick("first", c13Types...)
	t2 := vs.Pick("second", "string", "bytes<3>", "T", "D<4>")
	_, err := vCompile(vJoin("package p; ", vTypes, "struct S { uint64 a [#", vs.Lit(n), "]; ", t1, " x; uint64 b [#", vs.Lit(m), "]; ", t2, " y; };"))
	c13Expect(err, vs.And(n%8 == 0, m%8 == 0), true)
}

// Fields brought in by embedding stand where they are embedded.
func Verify_C13_Embedded() {
	n := vs.Int("bits", 1, 64)
	m := vs.Int("inner", 1, 64)
	ty := vs.Pick("type", c13Types...)
	deep := vs.Bool("deep")
	inline := vs.Bool("inline")
	def := vJoin("struct E { uint64 a [#", vs.Lit(m), "]; void [#", vs.Lit(8-m%8), "]; ", ty, " x; }")
	use, defs := def+"; ", ""
	if !inline {
		use, defs = "E; ", def+"; "
	}
	if deep {
		use = vJoin("struct F { ", use, "uint8 z; }; ")
	}
	_, err := vCompile(vJoin("package p; ", vTypes, defs, "struct S { uint64 b [#", vs.Lit(n), "]; ", use, "void [#", vs.Lit(8-n%8), "]; };"))
	c13Expect(err, n%8 == 0, true)
}

// Positions count from the end of a variable-length field.
func Verify_C13_AfterDynamic() {
	n := vs.Int("bits", 1, 64)
	first := vs.Pick("dynamic", "string", "bytes", "D", "string<2>", "D<2>")
	ty := vs.Pick("type", c13Types...)
	_, err := vCompile(vJoin("package p; ", vTypes, "struct S { ", first, " d; uint64 b [#", vs.Lit(n), "]; ", ty, " x; };"))
	c13Expect(err, n%8 == 0, true)
}

// The rule holds inside every struct: the misaligned use is found wherever the
// struct is used.
func Verify_C13_Nested() {
	n := vs.Int("bits", 1, 64)
	ty := vs.Pick("type", "string", "bytes<3>", "T", "D<4>")
	use := vs.Pick("use", "struct I", "struct I<2>", "plain")
	inner := vJoin("{ uint64 b [#", vs.Lit(n), "]; ", ty, " x; void [#", vs.Lit(8-n%8), "]; }")
	text := ""
	switch use {
	case "struct I":
		text = vJoin("struct S { struct I ", inner, " i; };")
	case "struct I<2>":
		text = vJoin("struct S { struct I ", inner, "<2> i; };")
	default:
		text = vJoin("struct I ", inner, "; struct S { I i; };")
	}
	_, err := vCompile(vJoin("package p; ", vTypes, text))
	misaligned := err != nil && c13Misaligned(err)
	vs.Assert("rejected as misaligned exactly when it is", misaligned == (n%8 != 0))
}

// Any three elements, by the form of the first.
func Verify_C13_Fields1() { c13Fields(0, 2) }
func Verify_C13_Fields2() { c13Fields(2, 2) }
func Verify_C13_Fields3() { c13Fields(4, 2) }
func Verify_C13_Fields4() { c13Fields(6, 2) }
func Verify_C13_Fields5() { c13Fields(8, 2) }
func Verify_C13_Fields6() { c13Fields(10, 3) }

func c13Fields(from, n int) {
	text, sum, aligned := "", int64(0), true
	for i := 0; i < 3; i++ {
		k := 0
		if i == 0 {
			k = from + vs.Choose("form a", n)
		} else {
			k = vs.Choose(vJoin("form ", string(rune('a'+i))), vForms)
		}
		f := vForm(i, k)
		text += f.text
		if f.must {
			aligned = vs.And(aligned, sum%8 == 0)
		}
		sum += f.size
	}
	_, err := vCompile(vJoin("package p; ", vTypes, "struct S { ", text, " };"))
	c13Expect(err, aligned, sum%8 == 0)
}
