package compiler

import (
	"math"

	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C12", "Verify_C12_Bits", Verify_C12_Bits)
	vs.Register("C12", "Verify_C12_BytesAndBits", Verify_C12_BytesAndBits)
	vs.Register("C12", "Verify_C12_Natural", Verify_C12_Natural)
	vs.Register("C12", "Verify_C12_Enum", Verify_C12_Enum)
	vs.Register("C12", "Verify_C12_EnumField", Verify_C12_EnumField)
	vs.Register("C12", "Verify_C12_EnumNumber", Verify_C12_EnumNumber)
	vs.Register("C12", "Verify_C12_EnumNext", Verify_C12_EnumNext)
	vs.Register("C12", "Verify_C12_Constant", Verify_C12_Constant)
	vs.Register("C12", "Verify_C12_ConstantWidth", Verify_C12_ConstantWidth)
	vs.Register("C12", "Verify_C12_ConstantEnum", Verify_C12_ConstantEnum)
	vs.Register("C12", "Verify_C12_Array", Verify_C12_Array)
	vs.Register("C12", "Verify_C12_Dynamic", Verify_C12_Dynamic)
	vs.Register("C12", "Verify_C12_Struct", Verify_C12_Struct)
	vs.Register("C12", "Verify_C12_Void", Verify_C12_Void)
}

var c12Types = []string{"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func c12Width(ty string) int64 {
	switch ty {
	case "bool", "int8", "uint8":
		return 8
	case "int16", "uint16":
		return 16
	case "int32", "uint32", "float32":
		return 32
	}
	return 64
}

func c12Pad(n int64) string { return vJoin(" void [#", vs.Lit(8-n%8), "];") }

// A field of a basic type with any width in bits.
func Verify_C12_Bits() {
	ty := vs.Pick("type", c12Types...)
	n := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { ", ty, " f [#", vs.Lit(n), "];", c12Pad(n), " };"))
	vs.Assert("accepted exactly from one bit to the type's width", (err == nil) == vs.And(n >= 1, n <= c12Width(ty)))
	if err == nil {
		vs.Assert("the field has the declared width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == n)
	}
}

// Any width in bytes and bits.
func Verify_C12_BytesAndBits() {
	ty := vs.Pick("type", "bool", "int16", "uint32", "float64")
	b := vs.Int("bytes", 0, math.MaxInt64)
	n := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { ", ty, " f [", vs.Lit(b), "#", vs.Lit(n), "];", c12Pad(n), " };"))
	small := vs.And(b <= 8, n <= 64)
	want := false
	if small {
		want = vs.And(b*8+n >= 1, b*8+n <= c12Width(ty))
	}
	vs.Assert("accepted exactly from one bit to the type's width", (err == nil) == want)
	if err == nil {
		vs.Assert("the field has the declared width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == b*8+n)
	}
}

// No width: the type's own.
func Verify_C12_Natural() {
	ty := vs.Pick("type", c12Types...)
	u, err := vCompile(vJoin("package p; struct S { ", ty, " f; };"))
	vs.Assert("accepted", err == nil)
	vs.Assert("the type's width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == c12Width(ty))
}

// An enum's width, and fields of it.
func Verify_C12_Enum() {
	w := vs.Int("width", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; enum E[#", vs.Lit(w), "] { A, }; struct S { E f;", c12Pad(w), " };"))
	vs.Assert("an enum has 1 to 64 bits", (err == nil) == vs.And(w >= 1, w <= 64))
	if err == nil {
		vs.Assert("the field has the enum's width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == w)
	}
}

func Verify_C12_EnumField() {
	w := vs.Int("width", 1, 64)
	n := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; enum E[#", vs.Lit(w), "] { A, }; struct S { E f [#", vs.Lit(n), "];", c12Pad(n), " };"))
	vs.Assert("accepted exactly from one bit to the enum's width", (err == nil) == vs.And(n >= 1, n <= w))
	if err == nil {
		vs.Assert("the field has the declared width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == n)
	}
}

func c12Fits(v, w int64, signed bool) bool {
	if signed {
		if w == 64 {
			return true
		}
		half := int64(1) << (w - 1)
		return vs.And(v >= -half, v < half)
	}
	if w >= 63 {
		return v >= 0
	}
	return vs.And(v >= 0, v < int64(1)<<w)
}

// An enum's number has to fit its width.
func Verify_C12_EnumNumber() {
	w := int64(1 + vs.Choose("width-1", 64))
	neg := vs.Bool("negative")
	v := vs.Int("number", 0, math.MaxInt64)
	sign := ""
	if neg {
		sign = "-"
		vs.Assume(v > 0)
	}
	_, err := vCompile(vJoin("package p; enum E[#", vs.Lit(w), "] { A = ", sign, vs.Lit(v), ", }; "))
	vs.Assert("accepted exactly when not negative and in the width", (err == nil) == vs.And(!neg, c12Fits(v, w, false)))
}

// Also the number that follows from the one before.
func Verify_C12_EnumNext() {
	w := int64(1 + vs.Choose("width-1", 64))
	v := vs.Int("number", 0, math.MaxInt64)
	_, err := vCompile(vJoin("package p; enum E[#", vs.Lit(w), "] { A = ", vs.Lit(v), ", B, }; "))
	vs.Assert("accepted exactly when in the width", (err == nil) == vs.And(v < math.MaxInt64, c12Fits(v+1, w, false)))
}

// A constant's value has to fit its width.
func Verify_C12_Constant() {
	ty := vs.Pick("type", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64")
	max := c12Width(ty)
	n := int64(1 + vs.Choose("bits-1", 64))
	vs.Assume(n <= max)
	neg := vs.Bool("negative")
	v := vs.Int("value", 0, math.MaxInt64)
	sign, w := "", v
	if neg {
		sign, w = "-", -v
	}
	_, err := vCompile(vJoin("package p; struct S { ", ty, " c [#", vs.Lit(n), "] = ", sign, vs.Lit(v), ";", c12Pad(n), " };"))
	vs.Assert("accepted exactly when the value fits", (err == nil) == c12Fits(w, n, ty[0] == 'i'))
}

// A constant's width is bounded as a field's.
func Verify_C12_ConstantWidth() {
	ty := vs.Pick("type", c12Types...)
	value := vs.Pick("value", "0", "true", "1.5")
	name := vs.Pick("name", "c", "")
	n := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { ", ty, " ", name, "[#", vs.Lit(n), "] = ", value, ";", c12Pad(n), " };"))
	kind := "0"
	switch ty {
	case "bool":
		kind = "true"
	case "float32", "float64":
		kind = "1.5"
	}
	vs.Assert("accepted exactly with a value of the type and a width up to the type's", (err == nil) == vs.And(kind == value, vs.And(n >= 1, n <= c12Width(ty))))
	if err == nil {
		vs.Assert("the field has the declared width", vNamed(vStruct(u, "S"), name).GetFieldBitSize() == n)
	}
}

// A constant given by an enum value.
func Verify_C12_ConstantEnum() {
	ty := vs.Pick("type", "int8", "uint16", "int64", "uint64")
	n := int64(1 + vs.Choose("bits-1", 64))
	vs.Assume(n <= c12Width(ty))
	v := vs.Int("number", 0, math.MaxInt64)
	_, err := vCompile(vJoin("package p; enum E[8] { A = ", vs.Lit(v), ", }; struct S { ", ty, " c [#", vs.Lit(n), "] = A;", c12Pad(n), " };"))
	vs.Assert("accepted exactly when the value fits", (err == nil) == c12Fits(v, n, ty[0] == 'i'))
}

// Arrays: the width is shared out evenly among the elements.
func Verify_C12_Array() {
	ty := vs.Pick("type", c12Types...)
	k := int64(1 + vs.Choose("length-1", 6))
	n := vs.Int("bits", 0, math.MaxInt64)
	u, err := vCompile(vJoin("package p; struct S { ", ty, "<", vs.Lit(k), "> f [#", vs.Lit(n), "];", c12Pad(n), " };"))
	vs.Assert("accepted exactly when every element gets one bit to the type's width", (err == nil) == vs.And(n >= 1, vs.And(n%k == 0, n <= k*c12Width(ty))))
	if err == nil {
		vs.Assert("the field has the declared width", vNamed(vStruct(u, "S"), "f").GetFieldBitSize() == n)
	}
}

// Variable-size types have no declared width.
func Verify_C12_Dynamic() {
	ty := vs.Pick("type", "string", "bytes", "string<3>", "bytes<2>", "D", "D<2>", "struct D", "struct I { string t; }")
	unit := vs.Pick("unit", "#", "")
	n := vs.Int("size", 1, math.MaxInt64)
	_, err := vCompile(vJoin("package p; struct D { bytes b; }; struct S { ", ty, " f [", unit, vs.Lit(n), "]; };"))
	vs.Assert("rejected", err != nil)
	_, err = vCompile(vJoin("package p; struct D { bytes b; }; struct S { ", ty, " f; };"))
	vs.Assert("accepted without", err == nil)
}

// A struct has its own width and no other.
func Verify_C12_Struct() {
	n := vs.Int("bits", 0, math.MaxInt64)
	a := vs.Int("a", 1, 64)
	k := int64(vs.Choose("length", 4))
	ty, one := "T", a+8-a%8
	if k > 0 {
		ty = vJoin("T<", vs.Lit(k), ">")
		one *= k
	}
	_, err := vCompile(vJoin("package p; struct T { uint64 a [#", vs.Lit(a), "];", c12Pad(a), " }; struct S { ", ty, " t [#", vs.Lit(n), "]; void [#", vs.Lit(8-n%8), "]; };"))
	_, whole := vCompile(vJoin("package p; struct T { uint64 a [#", vs.Lit(a), "];", c12Pad(a), " }; struct S { ", ty, " t [#", vs.Lit(n), "]; };"))
	vs.Assert("rejected with another width", vs.Implies(n != one, vs.And(err != nil, whole != nil)))
	vs.Assert("accepted with its own", vs.Implies(n == one, whole == nil))
}

// Unnamed filling has any width from one bit.
func Verify_C12_Void() {
	n := vs.Int("bits", 0, math.MaxInt64-8)
	u, err := vCompile(vJoin("package p; struct S { void [#", vs.Lit(n), "];", c12Pad(n), " };"))
	vs.Assert("accepted exactly from one bit", (err == nil) == (n >= 1))
	if err == nil {
		vs.Assert("the field has the declared width", vStruct(u, "S").StructFields.First().Value.GetFieldBitSize() == n)
	}
}
