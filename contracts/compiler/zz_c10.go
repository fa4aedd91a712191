package compiler

import (
	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C10", "Verify_C10_Numbering", Verify_C10_Numbering)
	vs.Register("C10", "Verify_C10_First", Verify_C10_First)
	vs.Register("C10", "Verify_C10_Constant", Verify_C10_Constant)
	vs.Register("C10", "Verify_C10_TwoEnums", Verify_C10_TwoEnums)
}

// c10Entry is one entry of an enum: without number, with one, or with that of
// a value of an enum declared before.
func c10Entry(i int, prev int64, names []string) (text string, want int64) {
	id := string(rune('A' + i))
	sep := vs.Pick(vJoin("sep ", id), ",", ";")
	switch vs.Choose(vJoin("form ", id), 3) {
	case 0:
		return id + sep + " ", prev + 1
	case 1:
		v := vs.Int(vJoin("number ", id), 0, 1<<60)
		return vJoin(id, " = ", vs.Lit(v), sep, " "), v
	}
	k := vs.Choose(vJoin("name ", id), len(names))
	return vJoin(id, " = ", names[k], sep, " "), int64(-2 - k)
}

// Up to four entries of any form.
func Verify_C10_Numbering() {
	p := vs.Int("first", 0, 1<<60)
	n := 1 + vs.Choose("entries-1", 4)
	names := []string{"Pa", "Pb"}
	text := vJoin("package p; enum Prev[8] { Pa = ", vs.Lit(p), ", Pb, }; enum E[8] { ")
	want := []int64{}
	last := int64(-1)
	for i := 0; i < n; i++ {
		t, w := c10Entry(i, last, names)
		if w == -2 {
			w = p
		} else if w == -3 {
			w = p + 1
		}
		text += t
		want = append(want, w)
		last = w
	}
	u, err := vCompile(text + "};")
	vs.Assert("accepted", err == nil)
	e := u.LocalTypes.MustGet("E").(*definition.Enum)
	vals := e.EnumValues.Values()
	vs.Assert("every value is listed", len(vals) == n)
	for i, v := range vals {
		vs.Assert("in order", v.EnumValueName == string(rune('A'+i)))
		vs.Assert("with the declared number", v.EnumValue == want[i])
		vs.Assert("as a value of this enum", v.EnumValueBelongs == e)
	}
}

// The first number does not depend on what is declared before it.
func Verify_C10_First() {
	p := vs.Int("before", 0, 1<<60)
	w := vs.Int("width", 1, 64)
	u, err := vCompile(vJoin("package p; enum Prev[8] { Pa = ", vs.Lit(p), ", }; enum E[#", vs.Lit(w), "] { ;A, ; B, };"))
	vs.Assert("accepted", err == nil)
	e := u.LocalTypes.MustGet("E").(*definition.Enum)
	vs.Assert("the first is zero", e.EnumValues.First().Value.EnumValue == 0)
	vs.Assert("the second is one", e.EnumValues.Last().Value.EnumValue == 1)
	vs.Assert("the enum has its width", e.EnumBitSize == w)
}

// A constant field naming an enum value has its number.
func Verify_C10_Constant() {
	v := vs.Int("number", 0, 1<<60)
	k := vs.Choose("which", 3)
	ty := vs.Pick("type", "uint64", "int64")
	name := vs.Pick("field", "c", "")
	ref := []string{"A", "B", "C"}[k]
	want := []int64{v, v + 1, v + 7}[k]
	u, err := vCompile(vJoin("package p; enum E[8] { A = ", vs.Lit(v), ", B, C = ", vs.Lit(v+7), ", }; struct S { ", ty, " ", name, " = ", ref, "; };"))
	vs.Assert("accepted", err == nil)
	f := vStruct(u, "S").StructFields.First().Value.(*definition.ConstantField)
	vs.Assert("the constant is the value's number", f.FieldConstant.(*definition.IntLiteral).IntValue == want)
}

// Enums do not affect each other.
func Verify_C10_TwoEnums() {
	v := vs.Int("v", 0, 1<<60)
	w := vs.Int("w", 0, 1<<60)
	u, err := vCompile(vJoin("package p; enum E[8] { A, B = ", vs.Lit(v), ", C, }; enum F[8] { G = ", vs.Lit(w), ", H, I = C, J, }; enum K[1] { L, };"))
	vs.Assert("accepted", err == nil)
	num := func(e, n string) int64 {
		return u.LocalTypes.MustGet(e).(*definition.Enum).EnumValues.MustGet(n).EnumValue
	}
	vs.Assert("A", num("E", "A") == 0)
	vs.Assert("B", num("E", "B") == v)
	vs.Assert("C", num("E", "C") == v+1)
	vs.Assert("G", num("F", "G") == w)
	vs.Assert("H", num("F", "H") == w+1)
	vs.Assert("I", num("F", "I") == v+1)
	vs.Assert("J", num("F", "J") == v+2)
	vs.Assert("L", num("K", "L") == 0)
}
