package compiler

import (
	"math"

	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/util"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C21", "Verify_C21_FileOption", Verify_C21_FileOption)
	vs.Register("C21", "Verify_C21_FieldOption", Verify_C21_FieldOption)
	vs.Register("C21", "Verify_C21_TwoFileOptions", Verify_C21_TwoFileOptions)
	vs.Register("C21", "Verify_C21_TwoFieldOptions", Verify_C21_TwoFieldOptions)
	vs.Register("C21", "Verify_C21_EnumValueOption", Verify_C21_EnumValueOption)
	vs.Register("C21", "Verify_C21_NoEffect", Verify_C21_NoEffect)
	vs.Register("C21", "Verify_C21_Package", Verify_C21_Package)
	vs.Register("C21", "Verify_C21_OrderText", Verify_C21_OrderText)
	vs.Register("C21", "Verify_C21_Names", Verify_C21_Names)
	vs.Register("C21", "Verify_C21_Tables", Verify_C21_Tables)
}

// The file options with the kind of their values, and the field options.
var c21File = []string{"omit_empty", "csharp_namespace", "cpp_namespace", "go_package", "java_package", "kotlin_package"}

func c21Kind(name string) string {
	if name == "omit_empty" {
		return "bool"
	}
	for _, n := range c21File {
		if n == name {
			return "string"
		}
	}
	return ""
}

// c21Value is a literal of some kind: its text and its value.
func c21Value(tag string) (string, string, any) {
	switch vs.Choose("kind of "+tag, 7) {
	case 0:
		return "true", "bool", true
	case 1:
		return "false", "bool", false
	case 2:
		n := vs.Int("number of "+tag, 0, math.MaxInt64)
		return vs.Lit(n), "int", n
	case 3:
		n := vs.Int("negative of "+tag, 0, math.MaxInt64)
		return vJoin("-", vs.Lit(n)), "int", -n
	case 4:
		return "2.5", "float", 2.5
	case 5:
		s := vs.Pick("text of "+tag, "", "big", "a/b.c", "x y")
		return vJoin(`"`, s, `"`), "string", s
	}
	s := vs.Pick("single-quoted text of "+tag, "little", "Big", "com.x", "true")
	return vJoin("'", s, "'"), "string", s
}

// c21Warned says that unknown options, and only they, make a warning.
func c21Warned(w error) bool {
	if w == nil {
		return false
	}
	_, ok := w.(definition.TopLevelWarning)
	return ok
}

// A file option, of any name and with any value.
func Verify_C21_FileOption() {
	name := vs.Pick("option", "omit_empty", "csharp_namespace", "cpp_namespace", "go_package", "java_package", "kotlin_package", "order", "Go_package", "python_package")
	text, kind, value := c21Value("it")
	u, err, warn := vCompileW(vJoin("package p; option ", name, " = ", text, "; struct S { uint8 a; };"))
	want := c21Kind(name)
	vs.Assert("accepted exactly with a value of its kind, or unknown", (err == nil) == (want == "" || want == kind))
	vs.Assert("a warning exactly for an unknown name", c21Warned(warn) == (want == ""))
	if err != nil {
		_, ok := vCause(err).(*definition.OptionTypeError)
		vs.Assert("refused for its kind", ok)
		return
	}
	if want != "" {
		o, ok := u.Options.Get(name)
		vs.Assert("the option is there", ok)
		vs.Assert("with the value written", o.OptionValue.GetLiteralValue() == value)
	}
	for _, n := range c21File {
		if n != name {
			vs.Assert("no other option is set", !u.Options.Has(n))
		}
	}
}

func c21FieldForm(k int, opts string) string {
	switch k {
	case 0:
		return vJoin("uint16 f", opts, ";")
	case 1:
		return vJoin("uint16 f [#16]", opts, ";")
	case 2:
		return vJoin("uint16 f = 7", opts, ";")
	case 3:
		return vJoin("int32<3> f", opts, ";")
	case 4:
		return vJoin("string f", opts, ";")
	}
	switch k {
	case 5:
		return vJoin("T f", opts, ";")
	case 6:
		return vJoin("void [#8]", opts, ";")
	}
	return vJoin("T", opts, ";")
}

const c21Forms = 8

// c21Only is the options of the first field of S.
func c21Only(u *definition.CompilationUnit) *util.OrderedMap[string, *definition.Option] {
	return c21FieldOptions(vStruct(u, "S").StructFields.Values()[0])
}

func c21FieldOptions(f definition.Field) *util.OrderedMap[string, *definition.Option] {
	switch f := f.(type) {
	case *definition.NormalField:
		return f.FieldOptions
	case *definition.ConstantField:
		return f.FieldOptions
	case *definition.VoidField:
		return f.FieldOptions
	case *definition.EmbeddedField:
		return f.FieldOptions
	}
	return nil
}

// An option of a field of any form.
func Verify_C21_FieldOption() {
	name := vs.Pick("option", "order", "Order", "go_package", "endian")
	text, kind, value := c21Value("it")
	form := vs.Choose("form", c21Forms)
	u, err, warn := vCompileW(vJoin("package p; struct T { uint8 tx; }; struct S { ", c21FieldForm(form, vJoin(" [", name, " = ", text, "]")), " };"))
	known := name == "order"
	good := kind == "string" && (value == "big" || value == "little")
	vs.Assert("accepted exactly with one of the two orders, or unknown", (err == nil) == (!known || good))
	vs.Assert("a warning exactly for an unknown name", c21Warned(warn) == !known)
	if err != nil {
		switch vCause(err).(type) {
		case *definition.OptionTypeError:
			vs.Assert("refused for its kind", kind != "string")
		case *definition.OptionValueError:
			vs.Assert("refused for its value", kind == "string")
		default:
			vs.Assert("refused as an option", false)
		}
		return
	}
	os := c21Only(u)
	if known {
		o, ok := os.Get("order")
		vs.Assert("the option is there", ok)
		vs.Assert("with the value written", o.OptionValue.GetLiteralValue() == value)
	} else {
		vs.Assert("no order is set", !os.Has("order"))
	}
}

// Two file options.
func Verify_C21_TwoFileOptions() {
	a := vs.Pick("first", "omit_empty", "go_package", "java_package", "unknown")
	b := vs.Pick("second", "omit_empty", "go_package", "cpp_namespace", "unknown")
	text := func(n, s string) string {
		if n == "omit_empty" {
			return "true"
		}
		return vJoin(`"`, s, `"`)
	}
	same := vs.Bool("with the same value")
	second := "two"
	if same {
		second = "one"
	}
	apart := vs.Bool("a definition between them")
	mid := ""
	if apart {
		mid = "\nstruct Q { uint8 q; };\n"
	}
	u, err, _ := vCompileW(vJoin("package p; option ", a, " = ", text(a, "one"), ";", mid, " option ", b, " = ", text(b, second), "; struct S { uint8 a; };"))
	vs.Assert("accepted exactly when not the same option", (err == nil) == (a != b))
	if err != nil {
		_, ok := vCause(err).(*definition.OptionDuplicateError)
		vs.Assert("refused as a duplicate", ok)
		return
	}
	for _, n := range []string{a, b} {
		if c21Kind(n) == "" {
			continue
		}
		want := any(true)
		if n == a && n != "omit_empty" {
			want = "one"
		} else if n != "omit_empty" {
			want = second
		}
		o, ok := u.Options.Get(n)
		vs.Assert("each is there", ok)
		vs.Assert("with its value", o.OptionValue.GetLiteralValue() == want)
	}
}

// Two options of one field.
func Verify_C21_TwoFieldOptions() {
	names := []string{"order", "order", "other"}
	i, j := vs.Choose("first", 3), vs.Choose("second", 3)
	a, b := names[i], names[j]
	va, vb := vs.Pick("first value", "big", "little"), vs.Pick("second value", "big", "little")
	form := vs.Choose("form", c21Forms)
	u, err, _ := vCompileW(vJoin("package p; struct T { uint8 tx; }; struct S { ",
		c21FieldForm(form, vJoin(" [", a, ` = "`, va, `",`, vs.Pick("between them", " ", "\n"), b, ` = "`, vb, `"]`)), " };"))
	vs.Assert("accepted exactly when not the same option", (err == nil) == (a != b))
	if err != nil {
		_, ok := vCause(err).(*definition.OptionDuplicateError)
		vs.Assert("refused as a duplicate", ok)
		return
	}
	want := va
	if b == "order" {
		want = vb
	}
	o, ok := c21Only(u).Get("order")
	vs.Assert("the order is there", ok)
	vs.Assert("with its value", o.OptionValue.GetLiteralValue() == want)
}

// Enum values know no option.
func Verify_C21_EnumValueOption() {
	name := vs.Pick("option", "order", "alias", "omit_empty")
	text, _, _ := c21Value("it")
	n := vs.Int("number", 0, 255)
	u, err := vCompile(vJoin("package p; enum E[1] { A = ", vs.Lit(n), " [", name, " = ", text, "]; }; struct S { E e; };"))
	vs.Assert("accepted", err == nil)
	e := u.LocalTypes.MustGet("E").(*definition.Enum)
	vs.Assert("and no effect", e.EnumValues.MustGet("A").EnumValue == n)
}

// Unknown options change nothing of the structs.
func Verify_C21_NoEffect() {
	text, _, _ := c21Value("it")
	n := vs.Int("bits", 1, 16)
	u, err, _ := vCompileW(vJoin("package p; option strange = ", text, "; struct S { uint16 f [#", vs.Lit(n), "] [odd = ", text, "]; void [#", vs.Lit(16-n), "]; uint8 g; };"))
	vs.Assert("accepted", err == nil || n == 16)
	if err != nil {
		return
	}
	s := vStruct(u, "S")
	vs.Assert("the sizes are the same", vs.And(s.StructBitSize == 24, vNamed(s, "f").GetFieldBitSize() == n))
	vs.Assert("no known option is set", c21Only(u).Has("order") == false)
}

// Package statements.
func Verify_C21_Package() {
	k := vs.Choose("statements", 3)
	first, second := vs.Pick("first", "a", "a.b"), vs.Pick("second", "a", "a.c")
	text := ""
	if k > 0 {
		text = vJoin("package ", first, "; ")
	}
	text = vJoin(text, "struct S { uint8 a; }; ")
	if k > 1 {
		text = vJoin(text, "package ", second, "; ")
	}
	u, err, _ := vCompileW(text)
	vs.Assert("exactly one", (err == nil) == (k == 1))
	if err == nil {
		vs.Assert("is the one used", u.Package.String() == first)
	}
}

// The orders are these two texts and no other one.
func Verify_C21_OrderText() {
	s := vs.Str("value", "bigltefB ", 7)
	o := &definition.Option{OptionName: "order", OptionValue: &definition.StringLiteral{StringValue: s}}
	err := FieldOptionValidator.ValidateOption(o)
	vs.Assert("exactly big and little", (err == nil) == vs.Or(s == "big", s == "little"))
}

// The option names are these and no other one.
func Verify_C21_Names() {
	s := vs.Str("name", "omit_epycrd", 10)
	o := &definition.Option{OptionName: s, OptionValue: &definition.BoolLiteral{BoolValue: vs.Bool("value")}}
	err := FileOptionValidator.ValidateOption(o)
	vs.Assert("only omit_empty takes a truth value", (err == nil) == (s == "omit_empty"))
	err = EnumValueOptionValidator.ValidateOption(o)
	_, warned := err.(*definition.CompileWarning)
	vs.Assert("enum values know none", warned)
}

// The tables of the known options: each documented one has its kind, and only
// the order restricts its values, to the two.
func Verify_C21_Tables() {
	for _, n := range c21File {
		k, ok := FileOptionValidator.OptionType.Get(n)
		vs.Assert("documented options are known", ok)
		vs.Assert("with their kind", k.String() == c21Kind(n))
		vs.Assert("and any value of it", !FileOptionValidator.OptionValues.Has(n))
	}
	k, ok := FieldOptionValidator.OptionType.Get("order")
	vs.Assert("the order is known", ok && k == definition.LiteralKindID_String)
	values, ok := FieldOptionValidator.OptionValues.Get("order")
	vs.Assert("with its two values", ok && values.Len() == 2 && values.Has("big") && values.Has("little"))
}
