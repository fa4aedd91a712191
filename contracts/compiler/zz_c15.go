package compiler

import (
	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C15", "Verify_C15_Three", Verify_C15_Three)
	vs.Register("C15", "Verify_C15_FourA", Verify_C15_FourA)
	vs.Register("C15", "Verify_C15_FourB", Verify_C15_FourB)
	vs.Register("C15", "Verify_C15_Packages", Verify_C15_Packages)
	vs.Register("C15", "Verify_C15_Broken", Verify_C15_Broken)
	vs.Register("C15", "Verify_C15_Spelling", Verify_C15_Spelling)
	vs.Register("C15", "Verify_C15_SpelledCycle", Verify_C15_SpelledCycle)
	vs.Register("C15", "Verify_C15_Prechecks", Verify_C15_Prechecks)
	vs.Register("C15", "Search_C15_Large", Search_C15_Large)
}

func c15Name(i int) string { return string(rune('a' + i)) }

// c15Judge compiles file 0 of a graph and compares the outcome with the graph.
func c15Judge(imports [][]int, spell func(i int) string) {
	n := len(imports)
	paths := []string{}
	for i := 0; i < n; i++ {
		text := vJoin("package p", c15Name(i), "; ")
		for _, j := range imports[i] {
			text += vJoin("import \"", spell(j), "\"; ")
		}
		text += vJoin("struct S", c15Name(i), " { uint8 x; ")
		for k, j := range imports[i] {
			text += vJoin("Enu", c15Name(j), " y", c15Name(k), " [#8]; ")
		}
		text += vJoin("}; enum Enu", c15Name(i), "[8] { V", c15Name(i), ", };")
		paths = append(paths, vs.File(vJoin(c15Name(i), ".bb"), text))
	}
	// state: 0 not seen, 1 open, 2 done
	state := make([]int, n)
	cyclic := false
	var walk func(i int)
	walk = func(i int) {
		state[i] = 1
		for _, j := range imports[i] {
			if state[j] == 1 {
				cyclic = true
			} else if state[j] == 0 {
				walk(j)
			}
		}
		state[i] = 2
	}
	walk(0)
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(paths[0])
	if cyclic {
		vs.Assert("a cycle is an error", err != nil)
		return
	}
	vs.Assert("an acyclic graph is accepted", err == nil)
	units := r.Units.Values()
	at := map[string]int{}
	for k, u := range units {
		_, twice := at[u.UnitName.Path]
		vs.Assert("no file is compiled twice", !twice)
		at[u.UnitName.Path] = k
	}
	for i := 0; i < n; i++ {
		k, in := at[paths[i]]
		vs.Assert("exactly the reachable files are compiled", in == (state[i] == 2))
		if !in {
			continue
		}
		for _, j := range imports[i] {
			vs.Assert("imports come first", at[paths[j]] < k)
		}
		vs.Assert("with its direct imports", units[k].LocalImports.Len() == c15Count(imports[i]))
		own := units[k].LocalTypes
		vs.Assert("with its own types", own.Len() == 2 && own.Has(vJoin("S", c15Name(i))))
	}
}

func c15Count(xs []int) int {
	n := 0
	for i, x := range xs {
		first := true
		for _, y := range xs[:i] {
			first = first && x != y
		}
		if first {
			n++
		}
	}
	return n
}

func c15Plain(i int) string { return c15Name(i) + ".bb" }

// Every graph of three files, in two orders of imports.
func Verify_C15_Three() {
	down := vs.Choose("order", 2) == 1
	g := make([][]int, 3)
	for i := range g {
		for k := range g {
			j := k
			if down {
				j = 2 - k
			}
			if vs.Choose(vJoin(c15Name(i), " imports ", c15Name(j)), 2) == 1 {
				g[i] = append(g[i], j)
			}
		}
	}
	c15Judge(g, c15Plain)
}

// Every graph of four files without self-imports.
func Verify_C15_FourA() { c15Four(0) }
func Verify_C15_FourB() { c15Four(1) }

func c15Four(first int) {
	g := make([][]int, 4)
	for i := range g {
		for j := range g {
			if i == j {
				continue
			}
			if i == 0 && j == 1 {
				if first == 1 {
					g[i] = append(g[i], j)
				}
				continue
			}
			if vs.Choose(vJoin(c15Name(i), " imports ", c15Name(j)), 2) == 1 {
				g[i] = append(g[i], j)
			}
		}
	}
	c15Judge(g, c15Plain)
}

// Random graphs of more files, with repeated imports.
func Search_C15_Large() {
	if vs.Symbolic() {
		return
	}
	n := 3 + vs.Choose("files-3", 6)
	g := make([][]int, n)
	back := vs.Choose("back", 3) == 0
	for i := range g {
		m := vs.Choose("imports", 4)
		for k := 0; k < m; k++ {
			j := vs.Choose("import", n)
			if j <= i && !(back && vs.Choose("keep", 4) == 0) {
				continue
			}
			g[i] = append(g[i], j)
		}
	}
	c15Judge(g, func(i int) string {
		return []string{"", "./", "././", "x/../"}[vs.Choose("spelling", 4)] + c15Plain(i)
	})
}

// Two files of one package are rejected, others are not.
func Verify_C15_Packages() {
	set := []string{"p", "q", "p.q", "pq"}
	pa := vs.Pick("package a", set...)
	pb := vs.Pick("package b", set...)
	pc := vs.Pick("package c", set...)
	shape := vs.Choose("shape", 3)
	ia, ib := "import \"b.bb\"; ", ""
	switch shape {
	case 0:
		ia += "import \"c.bb\"; "
	case 1:
		ib = "import \"c.bb\"; "
	case 2:
		ia = "import \"c.bb\"; import \"b.bb\"; import \"c.bb\"; "
		ib = "import \"c.bb\"; "
	}
	a := vs.File("a.bb", vJoin("package ", pa, "; ", ia, "struct A { uint8 x; };"))
	vs.File("b.bb", vJoin("package ", pb, "; ", ib, "struct B { uint8 x; };"))
	vs.File("c.bb", vJoin("package ", pc, "; struct C { uint8 x; };"))
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(a)
	if pa == pb || pb == pc || pa == pc {
		vs.Assert("two files of one package are rejected", err != nil)
	} else {
		vs.Assert("files of different packages are accepted", err == nil)
		vs.Assert("all of them are compiled", r.Units.Len() == 3)
	}
}

// What is wrong in an imported file is reported wherever it is imported.
func Verify_C15_Broken() {
	bad := vs.Pick("bad", "missing", "package c; struct C { uint8 x }", "package c; struct C { uint8 x [9]; };", "struct C { uint8 x; };", "package c; import \"nowhere.bb\"; struct C { uint8 x; };", "package c; struct A { uint8 x; };")
	shape := vs.Choose("shape", 4)
	ia, ib := "import \"b.bb\"; ", ""
	switch shape {
	case 0:
		ia += "import \"c.bb\"; "
	case 1:
		ib = "import \"c.bb\"; "
	case 2:
		ia = "import \"c.bb\"; import \"b.bb\"; "
		ib = "import \"c.bb\"; "
	case 3:
		ia = "import \"b.bb\"; import \"c.bb\"; import \"c.bb\"; "
		ib = "import \"c.bb\"; "
	}
	a := vs.File("a.bb", vJoin("package a; ", ia, "struct A { uint8 x; };"))
	vs.File("b.bb", vJoin("package b; ", ib, "struct B { uint8 x; };"))
	if bad != "missing" {
		vs.File("c.bb", bad)
	}
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(a)
	vs.Assert("a broken import is an error", err != nil)
}

var c15Spellings = []string{"b.bb", "./b.bb", ".//b.bb", "x/../b.bb", "DIR/b.bb", "DIR/./b.bb", "DIR//b.bb", "DIR/x/../b.bb"}

func c15Spell(what string) string {
	s := vs.Pick(what, c15Spellings...)
	if len(s) > 3 && s[:3] == "DIR" {
		return vs.Dir() + s[3:]
	}
	return s
}

// One file is one file, however it is spelled.
func Verify_C15_Spelling() {
	s, t := c15Spell("first"), c15Spell("second")
	via := vs.Choose("by", 3)
	a, c := "", ""
	switch via {
	case 0:
		a = vJoin("import \"", s, "\"; import \"", t, "\"; import \"c.bb\"; ")
	case 1:
		a = vJoin("import \"", s, "\"; import \"c.bb\"; ")
		c = vJoin("import \"", t, "\"; ")
	case 2:
		a = vJoin("import \"c.bb\"; import \"", s, "\"; ")
		c = vJoin("import \"", t, "\"; ")
	}
	vs.File("b.bb", "package b; struct B { uint8 x; };")
	vs.File("c.bb", vJoin("package c; ", c, "struct C { uint8 x; };"))
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(vs.File("a.bb", vJoin("package a; ", a, "struct A { B b; };")))
	vs.Assert("a file imported along several paths is accepted", err == nil)
	vs.Assert("it is compiled once", r.Units.Len() == 3)
}

func Verify_C15_SpelledCycle() {
	s := c15Spell("import")
	main := vs.Pick("file", "b.bb", "./b.bb", "x/../b.bb")
	self := vs.Choose("self", 2) == 1
	if self {
		vs.File("b.bb", vJoin("package b; import \"", s, "\"; struct B { uint8 x; };"))
	} else {
		vs.File("b.bb", "package b; import \"c.bb\"; struct B { uint8 x; };")
		vs.File("c.bb", vJoin("package c; import \"", s, "\"; struct C { uint8 x; };"))
	}
	vs.File("x/y.bb", "package y;")
	r := NewCompilationRuntime()
	_, err, _ := r.CompileFile(vs.Dir() + "/" + main)
	vs.Assert("a cycle is an error however it is spelled", err != nil)
}

// The two checks before a file is read, from any state with up to two files
// open and two compiled.
func Verify_C15_Prechecks() {
	r := NewCompilationRuntime()
	set := []string{"/v/a.bb", "/v/b.bb", "/v/c.bb"}
	unit := func(p string) *definition.CompilationUnit {
		return definition.NewCompilationUnit(&definition.FileIdentifer{Name: p, Path: p})
	}
	open, done := vs.Choose("open", 3), vs.Choose("compiled", 3)
	var stack, units []string
	for i := 0; i < open; i++ {
		p := vs.Pick(vJoin("open ", c15Name(i)), set...)
		if r.ParseStack.Put(p, unit(p)) {
			stack = append(stack, p)
		}
	}
	for i := 0; i < done; i++ {
		p := vs.Pick(vJoin("compiled ", c15Name(i)), set...)
		if !r.ParseStack.Has(p) && r.Units.Put(p, unit(p)) {
			units = append(units, p)
		}
	}
	f := vs.Pick("file", set...)
	in := func(s []string) bool {
		for _, p := range s {
			if p == f {
				return true
			}
		}
		return false
	}
	skip, err := r.precheckFilePath(&definition.FileIdentifer{Name: f, Path: f})
	vs.Assert("a file that is open is refused", (err != nil) == in(stack))
	vs.Assert("a file that is compiled is not compiled again", err != nil || skip == in(units))
	vs.Assert("nothing changes", r.ParseStack.Len() == len(stack) && r.Units.Len() == len(units))
}
