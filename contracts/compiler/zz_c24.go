package compiler

import (
	"math"
	"strings"

	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C24", "Verify_C24_Fields", Verify_C24_Fields)
	vs.Register("C24", "Verify_C24_Arrays", Verify_C24_Arrays)
	vs.Register("C24", "Verify_C24_Constants", Verify_C24_Constants)
	vs.Register("C24", "Verify_C24_Options", Verify_C24_Options)
	vs.Register("C24", "Verify_C24_Enums", Verify_C24_Enums)
	vs.Register("C24", "Verify_C24_EnumValues", Verify_C24_EnumValues)
	vs.Register("C24", "Verify_C24_Structs", Verify_C24_Structs)
	vs.Register("C24", "Verify_C24_Pairs1", Verify_C24_Pairs1)
	vs.Register("C24", "Verify_C24_Pairs2", Verify_C24_Pairs2)
	vs.Register("C24", "Verify_C24_Top", Verify_C24_Top)
	vs.Register("C24", "Verify_C24_Unary", Verify_C24_Unary)
	vs.Register("C24", "Verify_C24_Binary1", Verify_C24_Binary1)
	vs.Register("C24", "Verify_C24_Binary2", Verify_C24_Binary2)
	vs.Register("C24", "Verify_C24_Ternary", Verify_C24_Ternary)
	vs.Register("C24", "Verify_C24_Methods", Verify_C24_Methods)
	vs.Register("C24", "Search_C24_Compile", Search_C24_Compile)
}

// c24Placed says that an error names the file, and the line where it is about
// a part of it: one of the lines from lo to hi, or a later one for what the
// parser stops at.
func c24Placed(err error, lo, hi int) bool {
	switch e := err.(type) {
	case *definition.CompileError:
		_, file := e.Err.(*definition.PackageNameNotSetError)
		return e.Position != nil && e.GetFile() == "/v/a.bb" && (file || e.GetLine() >= lo && e.GetLine() <= hi)
	case *definition.SyntaxError:
		return e.Position != nil && e.GetFile() == "/v/a.bb" && e.GetLine() >= lo
	case *definition.JoinTopLevelErrors:
		ok := len(e.Errs) > 0
		for _, x := range e.Errs {
			ok = ok && c24Placed(x, lo, hi)
		}
		return ok
	}
	// where the verifier takes the parse from the real parser, its errors too
	return vs.Symbolic() && strings.HasPrefix(err.Error(), "syntax ")
}

// c24Done is what every text leads to: a unit of sound sizes, or an error.
func c24Done(text string) *definition.CompilationUnit { return c24At(text, 1, math.MaxInt32) }

// c24At also says on which lines an error is to be.
func c24At(text string, lo, hi int) *definition.CompilationUnit {
	u, err := vCompile(text)
	if err != nil {
		vs.Assert("an error has its place", c24Placed(err, lo, hi))
		return nil
	}
	vs.Assert("a unit without an error", u != nil)
	for _, t := range u.LocalTypes.Values() {
		switch t := t.(type) {
		case *definition.Struct:
			vs.Assert("a struct's size is not negative", t.StructBitSize >= 0)
			for _, f := range t.StructFields.Values() {
				n := f.GetFieldBitSize()
				vs.Assert("a field is within its struct", vs.And(n >= -1, n <= t.StructBitSize))
			}
		case *definition.Enum:
			vs.Assert("an enum's size is 1 to 64", vs.And(t.EnumBitSize >= 1, t.EnumBitSize <= 64))
		}
	}
	return u
}

const c24Types = "enum Num[#11] { Na, Nb, }; struct T { uint8 a; uint16 b [#3]; void [#5]; }; struct D { uint8 a; string s; uint16 b; };\n"

func c24Type(name string) string {
	return vs.Pick(name, "bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "bytes", "Num", "enum Num", "T", "struct T", "D", "Nope", "enum T", "struct Num", "S", "struct X { uint8 a; }", "struct low", "enum low", "low")
}

func c24Size(name string, n, m int64) string {
	switch vs.Choose(name, 4) {
	case 1:
		return vJoin("[", vs.Lit(n), "]")
	case 2:
		return vJoin("[#", vs.Lit(n), "]")
	case 3:
		return vJoin("[", vs.Lit(n), "#", vs.Lit(m), "]")
	}
	return ""
}

func c24Num(name string) int64 { return vs.Int(name, 0, math.MaxInt64) }

// A field of every type with every size.
func Verify_C24_Fields() {
	n, m := c24Num("n"), c24Num("m")
	c24At(vJoin("package p; ", c24Types, "struct S {\n", c24Type("type"), " f ", c24Size("size", n, m), ";\n};"), 2, 3)
}

func Verify_C24_Arrays() {
	n, m, l := c24Num("n"), c24Num("m"), c24Num("length")
	c24At(vJoin("package p; ", c24Types, "struct S {\n", c24Type("type"), "<", vs.Lit(l), "> f ", c24Size("size", n, m), ";\n};"), 2, 3)
}

func c24Constant(name string, n int64) string {
	return vs.Pick(name, vs.Lit(n), vJoin("-", vs.Lit(n)), vJoin("+", vs.Lit(n)), "1.5", "-inf", "nan", "1e999", "true", `"x"`, `'\x00'`, "Na", "T", "Nope", "f", "9223372036854775808", "08")
}

func Verify_C24_Constants() {
	n, m, v := c24Num("n"), c24Num("m"), c24Num("value")
	name := vs.Pick("name", "", " f")
	c24At(vJoin("package p; ", c24Types, "struct S {\n", vs.Pick("type", "bool", "int8", "int64", "uint8", "uint64", "float32", "float64"), name, c24Size("size", n, m), " = ", c24Constant("constant", v), ";\n};"), 2, 3)
}

func Verify_C24_Options() {
	v := c24Num("value")
	opt := vJoin(vs.Pick("option", "order", "Order", "go_package", "x"), "=", vs.Pick("option value", vs.Lit(v), `"big"`, `"little"`, `"middle"`, `""`, "true", "1.5"))
	more := vs.Pick("more", "", `, order="little"`)
	f := vs.Pick("field", "uint16 f", "void [#8]", "uint16 f = 3", "T", "T f", "string f", "Num<2> f", "float64 f", "struct X { uint8 a; }", "struct low", "enum low", "low")
	c24At(vJoin("package p; ", c24Types, "struct S {\n", f, " [", opt, more, "];\nuint8 g; };"), 2, 3)
	c24At(vJoin("package p;\noption ", opt, ";\n", c24Types), 2, 2)
}

func Verify_C24_Enums() {
	n, m := c24Num("n"), c24Num("m")
	size := c24Size("size", n, m)
	vs.Assume(size != "")
	c24At(vJoin("package p;\nenum E", size, " {\n", vs.Pick("values", "", "A,", "A; B;", "A = 1, B,", "A, A,", "E,", "A[x=1];", ";"), "\n};"), 2, 3)
}

func Verify_C24_EnumValues() {
	n, v, w := vs.Int("bits", 1, 64), c24Num("value"), c24Num("other")
	c24At(vJoin("package p; enum O[#8] { Oa = 7, };\nenum E[#", vs.Lit(n), "] {\nA = ", vs.Pick("first", vs.Lit(v), vJoin("-", vs.Lit(v)), "1.5", "true", `"x"`, "Oa", "A", "B", "E", "Nope"), ", B = ", vs.Pick("second", vs.Lit(w), "A", "Oa"), ", C,\n};"), 2, 3)
}

// Structs of a declared size, in each other and in themselves.
func Verify_C24_Structs() {
	n, m, a := c24Num("n"), c24Num("m"), c24Num("a")
	body := vs.Pick("body", "", ";", "S s;", "S;", "S<2> s;", "struct S { };", "T;", "T; T;", "T; uint8 b;", "D; string t;", "struct X { struct Y { T; }; };", "struct X { X x; };",
		vJoin("uint8 q[#", vs.Lit(a), "];"), vJoin("void [", vs.Lit(a), "]; string t;"), vJoin("struct X { void [", vs.Lit(a), "]; }; X<3> x;"), vJoin("struct X { void [", vs.Lit(a), "]; }; void [", vs.Lit(a), "];"))
	c24At(vJoin("package p; ", c24Types, "struct S ", c24Size("size", n, m), "{\n", body, "\n};"), 2, 3)
}

// Two elements of every kind, the first where it may not be aligned.
func Verify_C24_Pairs1() { c24Pairs(0, 6) }
func Verify_C24_Pairs2() { c24Pairs(6, 7) }

func c24Pairs(from, of int) {
	a := vForm(0, from+vs.Choose("first", of))
	b := vForm(1, vs.Choose("second", vForms))
	c24At(vJoin("package p; ", vTypes, "\nstruct S {\n", a.text, "\n", b.text, "\n};"), 2, 4)
}

// Statements of a file in every order of two, and what is no schema.
func Verify_C24_Top() {
	all := []string{"", ";", "package p;", "package p.q;", "option x = 1;", `option go_package = "a/b";`, `option go_package = "";`, "option x = -inf;", "struct A { uint8 a; };", "struct A { };",
		"enum A[1] { B, };", "enum A[1] { };", "struct A { C c; };", "struct C { A a; };", "struct A { A a; };", "enum B[9] { };", "struct", "enum A { };", "package ;", "}", "option x = ;", "$", `"`, "/*", "//"}
	i, j := vs.Choose("first", len(all)), vs.Choose("second", len(all))
	p := vs.Pick("package", "package z; ", "")
	c24Done(vJoin(p, all[i], " ", all[j]))
}

func c24Expr(field, kind, ret, expr string) {
	c24At(vJoin("package p; ", c24Types, "struct S {\n", field, " f {\n", kind, " g(", ret, "): ", expr, ";\n}; };"), 4, 4)
}

var c24Basic = []string{"bool", "int8", "uint8", "int64", "uint64", "float32", "float64"}

func c24Atom(name string, n int64) string {
	return vs.Pick(name, "value", vs.Lit(n), vJoin("-", vs.Lit(n)), "1.5", "true", `"x"`, "(value)", "(int8) value", "(float64) 3", "inf")
}

func Verify_C24_Unary() {
	n := c24Num("n")
	op := vs.Pick("op", "", "-", "+", "~", "!", "- -", "! ~", "(bool)", "(int16)", "(uint64)", "(float32)", "((")
	e := vJoin(op, " ", c24Atom("atom", n))
	if op == "((" {
		e += "))"
	}
	c24Expr(vs.Pick("field", c24Basic...), vs.Pick("kind", "get", "set"), vs.Pick("type", "bool", "int8", "uint64", "float64"), e)
}

var c24Ops = []string{"**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}

func Verify_C24_Binary1() { c24Binary(c24Ops[:10]) }
func Verify_C24_Binary2() { c24Binary(c24Ops[10:]) }

func c24Binary(ops []string) {
	n := c24Num("n")
	op := vs.Pick("op", ops...)
	c24Expr(vs.Pick("field", "bool", "int8", "uint64", "float64"), "get", vs.Pick("type", "bool", "int32", "float64"), vJoin(c24Atom("left", n), " ", op, " ", vs.Pick("right", "value", vs.Lit(n), "1.5", "true", `"x"`, "0")))
}

func Verify_C24_Ternary() {
	n := c24Num("n")
	c24Expr(vs.Pick("field", "bool", "int8", "float64"), "set", vs.Pick("type", "bool", "int32", "float64"), vJoin(vs.Pick("condition", "value", "value > 3", "1", "true", `"x"`), " ? ", c24Atom("left", n), " : ", vs.Pick("right", "value", vs.Lit(n), "1.5", "true", `"x"`, "value ? 1 : 2")))
}

// Accessors of fields of every type, and pairs of them.
func Verify_C24_Methods() {
	one := vs.Pick("one", "get(uint8): value;", "set(uint8): value;", "get a(int8): value;", "get f(int8): value;", "set a(int8): value;", "get b(bool): !value;", "get T(bool): value;", "get(")
	two := vs.Pick("two", "", "get(uint8): value;", "set(uint8): value;", "get a(int8): value;", "set a(uint8): value + 1;", "get a(int16): Na;", "get a(int8):;")
	c24At(vJoin("package p; ", c24Types, "struct S {\n", c24Type("type"), " f {\n", one, "\n", two, "\n};\nuint8 a; };"), 3, 7)
}

// Texts made by the grammar, damaged ones and ones of tokens in any order.
func Search_C24_Compile() {
	if vs.Symbolic() {
		return
	}
	g := &vs.Grammar{Name: "g", Expr: vs.Bool("expr")}
	text := ""
	switch vs.Choose("kind", 4) {
	case 0, 1:
		text = g.Schema()
	case 2:
		text = g.Damage(g.Schema())
	case 3:
		text = g.Tokens(14)
	}
	vs.Note("schema", text)
	c24Done(text)
}
