package compiler

import (
	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C09", "Verify_C09_Unary", Verify_C09_Unary)
	vs.Register("C09", "Verify_C09_Binary", Verify_C09_Binary)
	vs.Register("C09", "Verify_C09_Cast", Verify_C09_Cast)
	vs.Register("C09", "Verify_C09_Conditional", Verify_C09_Conditional)
	vs.Register("C09", "Verify_C09_Levels", Verify_C09_Levels)
	vs.Register("C09", "Verify_C09_Methods", Verify_C09_Methods)
}

// c09E is an expression of a schema and the test for the tree it has to be.
type c09E struct {
	text string
	is   func(e definition.Expr) bool
}

func c09Value() c09E {
	return c09E{"value", func(e definition.Expr) bool { _, ok := e.(*definition.ValueExpr); return ok }}
}

func c09Int(n int64) c09E {
	return c09E{vs.Lit(n), func(e definition.Expr) bool {
		c, ok := e.(*definition.ConstantExpr)
		if !ok {
			return false
		}
		l, ok := c.ConstantValue.(*definition.IntLiteral)
		return ok && l.IntValue == n
	}}
}

func c09Paren(a c09E) c09E { return c09E{vJoin("(", a.text, ")"), a.is} }

func c09Un(op string, a c09E) c09E {
	return c09E{vJoin(op, " ", a.text), func(e definition.Expr) bool {
		u, ok := e.(*definition.UnopExpr)
		return ok && u.Op.String() == op && a.is(u.Expr1)
	}}
}

func c09Bin(op string, a, b c09E) c09E {
	return c09E{vJoin(a.text, " ", op, " ", b.text), func(e definition.Expr) bool {
		x, ok := e.(*definition.BinopExpr)
		return ok && x.Op.String() == op && a.is(x.Expr1) && b.is(x.Expr2)
	}}
}

func c09CastTo(t string, a c09E) c09E {
	return c09E{vJoin("(", t, ") ", a.text), func(e definition.Expr) bool {
		c, ok := e.(*definition.CastExpr)
		return ok && c.ToType.TypeName == t && a.is(c.Expr1)
	}}
}

func c09If(a, b, c c09E) c09E {
	return c09E{vJoin(a.text, " ? ", b.text, " : ", c.text), func(e definition.Expr) bool {
		x, ok := e.(*definition.TenaryExpr)
		return ok && a.is(x.Cond) && b.is(x.Expr1) && c.is(x.Expr2)
	}}
}

// c09Any is an operand that stands for any: the trees of all its kinds differ.
func c09Any(name string, n int64) c09E {
	switch vs.Choose(name, 6) {
	case 0:
		return c09Value()
	case 1:
		return c09Int(n)
	case 2:
		return c09Paren(c09Un("~", c09Int(n)))
	case 3:
		return c09Paren(c09Bin("-", c09Value(), c09Int(n)))
	case 4:
		return c09Paren(c09CastTo("uint8", c09Int(n)))
	}
	return c09Paren(c09If(c09Value(), c09Int(n), c09Value()))
}

var c09Bins = []string{"**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}

// c09Accessors compiles accessors of one field and tells whether each has its
// expression.
func c09Of(e c09E) {
	kind := vs.Pick("kind", "get", "set")
	u, err := vCompile(vJoin("package p; struct S { uint8 f { ", kind, " zq(int32): ", e.text, "; }; };"))
	vs.Assert("accepted", err == nil)
	f := vNamed(vStruct(u, "S"), "f").(*definition.NormalField)
	g := f.FieldMethods.MustGet("zq")
	vs.Assert("one accessor", f.FieldMethods.Len() == 1 && g.Len() == 1)
	m := g.Values()[0]
	vs.Assert("it belongs to its field", m.GetMethodBelongs() == f)
	switch m := m.(type) {
	case *definition.GetMethod:
		vs.Assert("it is of its kind", kind == "get")
		vs.Assert("the tree of the getter is that of the expression", e.is(m.MethodExpr))
	case *definition.SetMethod:
		vs.Assert("it is of its kind", kind == "set")
		vs.Assert("the tree of the setter is that of the expression", e.is(m.MethodExpr))
	}
}

func c09Num(name string) int64 { return vs.Int(name, 0, 1<<62) }

func Verify_C09_Unary() {
	c09Of(c09Un(vs.Pick("op", "-", "+", "~", "!"), c09Paren(c09Any("operand", c09Num("n")))))
}

func Verify_C09_Binary() {
	n, m := c09Num("n"), c09Num("m")
	c09Of(c09Bin(vs.Pick("op", c09Bins...), c09Any("left", n), c09Any("right", m)))
}

func Verify_C09_Cast() {
	t := vs.Pick("type", "bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64")
	c09Of(c09CastTo(t, c09Any("operand", c09Num("n"))))
}

func Verify_C09_Conditional() {
	n, m := c09Num("n"), c09Num("m")
	c09Of(c09If(c09Any("condition", n), c09Any("then", m), c09Any("else", n)))
}

// Two binary operators group as the table of the language says, the tighter
// first and equal ones from the left.
func Verify_C09_Levels() {
	level := func(op string) int {
		switch op {
		case "**":
			return 10
		case "*", "/", "%":
			return 9
		case "+", "-":
			return 8
		case "<<", ">>":
			return 7
		case "<", "<=", ">", ">=":
			return 6
		case "==", "!=":
			return 5
		case "&":
			return 4
		case "^":
			return 3
		case "|":
			return 2
		case "&&":
			return 1
		}
		return 0
	}
	n := c09Num("n")
	one, two := vs.Pick("one", c09Bins...), vs.Pick("two", c09Bins...)
	a, b, c := c09Value(), c09Int(n), c09Value()
	text := vJoin(a.text, " ", one, " ", b.text, " ", two, " ", c.text)
	is := c09Bin(two, c09Bin(one, a, b), c).is
	if level(two) > level(one) {
		is = c09Bin(one, a, c09Bin(two, b, c)).is
	}
	c09Of(c09E{text, is})
}

// Accessors of several fields, those of embedded structs among them, keep to
// their field and to the struct that has it.
func Verify_C09_Methods() {
	n, m := c09Num("n"), c09Num("m")
	a, b, c := c09Bin("+", c09Value(), c09Int(n)), c09Bin("-", c09Value(), c09Int(m)), c09Bin("*", c09Int(n), c09Value())
	fa := vJoin("uint8 fa { get za(int8): ", a.text, "; set za(int8): ", b.text, "; get zb(bool): ", c.text, "; }; ")
	fb := vJoin("uint16 fb { set zc(int16): ", c.text, "; }; ")
	types, head, tail := "", "", ""
	switch vs.Choose("place", 4) {
	case 0:
		head = fa
	case 1:
		types, head = vJoin("struct T { ", fa, "}; "), "T; "
	case 2:
		head = vJoin("struct E { ", fa, "}; ")
	case 3:
		types, head = vJoin("struct T { ", fa, "}; struct U { T; }; "), "U; "
	}
	tail = fb
	u, err := vCompile(vJoin("package p; ", types, "struct S { ", head, tail, "};"))
	vs.Assert("accepted", err == nil)
	for _, name := range []string{"S", "T", "U"} {
		t, ok := u.LocalTypes.Get(name)
		if !ok {
			continue
		}
		s := t.(*definition.Struct)
		x := vNamed(s, "fa").(*definition.NormalField)
		vs.Assert("the field belongs to its struct", x.FieldBelongs == s)
		za, zb := x.FieldMethods.MustGet("za"), x.FieldMethods.MustGet("zb")
		vs.Assert("it has its accessors", x.FieldMethods.Len() == 2 && za.Len() == 2 && zb.Len() == 1)
		g1 := za.MustGet(definition.MethodKindID_Get).(*definition.GetMethod)
		g2 := za.MustGet(definition.MethodKindID_Set).(*definition.SetMethod)
		g3 := zb.MustGet(definition.MethodKindID_Get).(*definition.GetMethod)
		vs.Assert("they belong to it", g1.MethodBelongs == x && g2.MethodBelongs == x && g3.MethodBelongs == x)
		vs.Assert("they have their expressions", a.is(g1.MethodExpr) && b.is(g2.MethodExpr) && c.is(g3.MethodExpr))
		vs.Assert("they have their names and types", g1.MethodName == "za" && g2.MethodName == "za" && g3.MethodName == "zb" && g1.MethodRetType.GetTypeID() == definition.TypeID_Int8 && g2.MethodParamType.GetTypeID() == definition.TypeID_Int8 && g3.MethodRetType.GetTypeID() == definition.TypeID_Bool)
	}
	y := vNamed(vStruct(u, "S"), "fb").(*definition.NormalField)
	zc := y.FieldMethods.MustGet("zc").MustGet(definition.MethodKindID_Set).(*definition.SetMethod)
	vs.Assert("another field's accessor is its own", y.FieldMethods.Len() == 1 && zc.MethodBelongs == y && c.is(zc.MethodExpr))
}
