package compiler

import (
	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C14", "Verify_C14_Fields", Verify_C14_Fields)
	vs.Register("C14", "Verify_C14_Embedding", Verify_C14_Embedding)
	vs.Register("C14", "Verify_C14_Nested", Verify_C14_Nested)
	vs.Register("C14", "Verify_C14_Accessors", Verify_C14_Accessors)
	vs.Register("C14", "Verify_C14_EnumValues", Verify_C14_EnumValues)
	vs.Register("C14", "Verify_C14_Unit", Verify_C14_Unit)
	vs.Register("C14", "Verify_C14_Unit3", Verify_C14_Unit3)
	vs.Register("C14", "Verify_C14_Import", Verify_C14_Import)
	vs.Register("C14", "Verify_C14_ImportTwice", Verify_C14_ImportTwice)
	vs.Register("C14", "Verify_C14_ImportChain", Verify_C14_ImportChain)
	vs.Register("C14", "Search_C14_Many", Search_C14_Many)
}

func c14Distinct(names []string) bool {
	for i, n := range names {
		for _, o := range names[:i] {
			if n == o {
				return false
			}
		}
	}
	return true
}

// c14Judge compares what the compiler says about a schema with whether the
// names declared in one of its scopes are distinct.
func c14Judge(err error, names []string) {
	if c14Distinct(names) {
		vs.Assert("distinct names are accepted", err == nil)
	} else {
		vs.Assert("a second declaration of a name is rejected", err != nil)
	}
}

// Names are only compared for equality, so a few names stand for all of them.
func c14Name(what string, set ...string) string { return vs.Pick(what, set...) }

func Verify_C14_Fields() {
	n := 2 + vs.Choose("fields-2", 3)
	text := "package p; enum Num[8] { NA, }; struct T { uint8 x; }; struct S { "
	names := []string{}
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		if i == 1 && n > 2 {
			switch vs.Choose("between", 3) {
			case 1:
				text += "void [1]; uint8 = 1; "
			case 2:
				text += "; "
			}
		}
		name := c14Name("name "+id, "f", "fG", "fg")
		k := i
		if i < 2 || n < 4 {
			k = vs.Choose("kind "+id, 4)
		}
		switch k {
		case 0:
			text += "uint8 " + name + "; "
		case 1:
			text += "uint8 " + name + " = 3; "
		case 2:
			text += "T<2> " + name + "; "
		case 3:
			text += "string " + name + "; "
		}
		names = append(names, name)
		text += c14Break(i, n)
	}
	_, err := vCompile(text + "};")
	c14Judge(err, names)
}

// c14Break puts some of the declarations on lines of their own.
func c14Break(i, n int) string {
	if i == n-2 {
		return "\n"
	}
	return ""
}

// Fields of an embedded struct are fields of the struct.
func Verify_C14_Embedding() {
	a := c14Name("inner", "f", "g")
	b := c14Name("inner 2", "g", "h")
	o := c14Name("outer", "f", "g", "h", "i", "t", "T")
	k := vs.Choose("order", 3)
	twice := vs.Choose("second", 3)
	if o == "T" {
		return // not a field name
	}
	text := vJoin("package p; struct T { uint8 ", a, "; uint16 ", b, " = 5; }; struct U { uint8 u; T; }; struct S { ")
	names := []string{a, b, o}
	own := vJoin("uint8 ", o, "; ")
	emb := "T; "
	switch twice {
	case 1:
		emb = "T; T; "
		names = append(names, a)
	case 2:
		emb = "T; U; " // U brings T again
		names = append(names, a)
	}
	switch k {
	case 0:
		text += own + emb
	case 1:
		text += emb + own
	case 2:
		text += emb + "void [1]; " + own
	}
	_, err := vCompile(text + "};")
	c14Judge(err, names)
}

// Embedding of embedding.
func Verify_C14_Nested() {
	a := c14Name("innermost", "f", "g", "h")
	b := c14Name("middle", "f", "g", "h")
	c := c14Name("outer", "f", "g", "h")
	d := c14Name("accessor", "f", "q")
	inline := vs.Choose("inline", 2) == 1
	var text string
	if inline {
		text = vJoin("package p; struct S { uint8 ", c, "; struct M { uint8 ", b, "; struct I { uint8 ", a, " { get ", d, "(float64): value; }; }; }; };")
	} else {
		text = vJoin("package p; struct I { uint8 ", a, " { get ", d, "(float64): value; }; }; struct M { uint8 ", b, "; I; }; struct S { M; uint8 ", c, "; };")
	}
	_, err := vCompile(text)
	c14Judge(err, []string{a, b, c, d})
}

func Verify_C14_Accessors() {
	f := c14Name("field", "a", "aB")
	g := c14Name("field 2", "aB", "ab")
	m := c14Name("accessor", "a", "aB", "ab", "d")
	n := c14Name("accessor 2", "a", "aB", "ab", "d")
	kinds := vs.Choose("kinds", 3)
	two := vs.Choose("on the second field", 2) == 1
	k, l := "get", "get"
	switch kinds {
	case 1:
		l = "set"
	case 2:
		k = "set"
	}
	one := func(k, n string) string { return vJoin(k, " ", n, "(int32): value + 1; ") }
	text := "package p; struct S { "
	names := []string{f, g, m}
	if two {
		text += vJoin("uint8 ", f, " { ", one(k, m), "}; uint8 ", g, " { ", one(l, n), "}; ")
		names = append(names, n)
	} else {
		text += vJoin("uint8 ", f, " { ", one(k, m), one(l, n), "}; uint8 ", g, "; ")
		if m != n || k == l {
			names = append(names, n) // a getter and a setter share their name
		}
	}
	_, err := vCompile(text + "};")
	c14Judge(err, names)
}

func Verify_C14_EnumValues() {
	n := 1 + vs.Choose("values-1", 4)
	text := "package p; enum E[8] { "
	names := []string{}
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		name := c14Name("name "+id, "A", "AB", "Ab", "A_B")
		names = append(names, name)
		switch vs.Choose("number "+id, 2) {
		case 0:
			text += name + ", "
		case 1:
			text += name + " = 7; "
		}
		text += c14Break(i, n)
	}
	_, err := vCompile(text + "}; struct S { E e; };")
	c14Judge(err, names)
}

// Structs, enums, inner structs and enum values of one unit.
func Verify_C14_Unit() {
	c14Unit(2, "A", "Ab", "AB", "A1")
}

func Verify_C14_Unit3() { c14Unit(3, "A", "Aa", "AA") }

func c14Unit(n int, set ...string) {
	text := "package p; "
	names := []string{}
	add := func(what string) string {
		s := c14Name(what, set...)
		names = append(names, s)
		return s
	}
	for i := 0; i < n; i++ {
		id := string(rune('0' + i))
		a := add("name " + id)
		k := 0
		if i < 2 {
			k = vs.Choose("kind "+id, 3)
		}
		switch k {
		case 0:
			text += vJoin("struct ", a, " { uint8 a; }; ")
		case 1:
			text += vJoin("enum ", a, "[8] { ", add("value "+id), ", }; ")
		case 2:
			text += vJoin("struct ", a, " { struct ", add("inner "+id), " { uint8 x; }; uint8 y; }; ")
		}
		text += c14Break(i, n)
	}
	r := NewCompilationRuntime()
	u, err, _ := r.compile(&definition.FileIdentifer{Name: "a.bb", Path: "/v/a.bb"}, text)
	c14Judge(err, names)
	if err == nil {
		vs.Assert("every name is known", u.LocalNames.Len() == len(names))
	}
	first, ok := r.Units.Get("/v/a.bb")
	if ok {
		p := first.LocalNames.MustGet(names[0])
		vs.Assert("the first declaration stays in force", p.GetLine() == 1 && p.GetColumn() < 20)
	}
}

func c14Files(a, b, c string) error {
	vs.File("b.bb", b)
	vs.File("c.bb", c)
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(vs.File("a.bb", a))
	return err
}

// A unit and one that it imports.
func Verify_C14_Import() {
	a := c14Name("struct", "A", "Aa", "AA")
	v := c14Name("value", "A", "Aa", "AA", "D")
	in := c14Name("imported struct", "A", "Aa", "AA", "E")
	iv := c14Name("imported value", "A", "Aa", "AA", "E")
	deep := c14Name("imported inner struct", "A", "D", "E", "F")
	b := vJoin("package b; struct ", in, " { struct ", deep, " { uint8 x; }; uint8 y; }; enum Num[8] { ", iv, ", };")
	err := c14Files(vJoin("package a; import \"b.bb\"; enum Own[8] { ", v, ", }; struct ", a, " { uint8 a; };"), b, "package c;")
	c14Judge(err, []string{a, v, in, iv, deep})
}

// Two imports, which may import each other.
func Verify_C14_ImportTwice() {
	x := c14Name("in a", "A", "B", "C")
	y := c14Name("in b", "A", "B", "C")
	z := c14Name("in c", "A", "B", "C")
	k := c14Name("kind in c", "struct ", "inner ", "value ")
	link := vs.Choose("b imports c", 2) == 1
	order := c14Name("order", "import \"b.bb\"; import \"c.bb\"; ", "import \"c.bb\"; import \"b.bb\"; ", "import \"b.bb\"; import \"c.bb\"; import \"b.bb\"; ", "import \"./b.bb\"; import \"../"+c14Base()+"/c.bb\"; ", "import \""+vs.Dir()+"/./b.bb\"; import \"c.bb\"; ")
	c := "package c; "
	switch k {
	case "struct ":
		c += vJoin("struct ", z, " { uint8 x; };")
	case "inner ":
		c += vJoin("struct Out { struct ", z, " { uint8 x; }; };")
	case "value ":
		c += vJoin("enum Enu[8] { ", z, ", };")
	}
	b := "package b; "
	if link {
		b += "import \"c.bb\"; "
	}
	err := c14Files(vJoin("package a; ", order, "struct ", x, " { uint8 x; };"), vJoin(b, "struct ", y, " { uint8 x; };"), c)
	c14Judge(err, []string{x, y, z})
}

func c14Base() string {
	d := vs.Dir()
	i := len(d)
	for d[i-1] != '/' {
		i--
	}
	return d[i:]
}

// Names of a unit imported by an imported one.
func Verify_C14_ImportChain() {
	x := c14Name("in a", "A", "B", "C")
	y := c14Name("in b", "A", "B", "C")
	z := c14Name("in c", "A", "B", "C")
	both := vs.Choose("a imports c", 2) == 1
	a := "package a; import \"b.bb\"; "
	if both {
		a += "import \"c.bb\"; "
	}
	use := vs.Choose("use", 2) == 1
	body := "uint8 x; "
	if use && c14Distinct([]string{x, y, z}) {
		body = vJoin("uint8 x; ", z, " z; ", y, " y; ") // imported types are visible
	}
	err := c14Files(vJoin(a, "struct ", x, " { ", body, "};"), vJoin("package b; import \"c.bb\"; struct ", y, " { uint8 y; };"), vJoin("package c; struct ", z, " { uint8 z; };"))
	c14Judge(err, []string{x, y, z})
}

// Many declarations of random names.
func Search_C14_Many() {
	if vs.Symbolic() {
		return
	}
	names := []string{}
	n := int(vs.Int("declarations", 1, 9))
	text := "package p; "
	for i := 0; i < n; i++ {
		nm := func(what string, set string) string {
			s := vs.Str(what, set, 3)
			return s
		}
		top := "T" + nm("name", "Ab1_")
		names = append(names, top)
		fields := []string{}
		m := int(vs.Int("fields", 1, 4))
		body := ""
		for j := 0; j < m; j++ {
			f := "f" + nm("field", "aB1_")
			fields = append(fields, f)
			body += "uint8 " + f + "; "
		}
		if !c14Distinct(fields) {
			names = append(names, top) // rejected because of a field
		}
		text += "struct " + top + " { " + body + "}; "
	}
	_, err := vCompile(text)
	c14Judge(err, names)
}
