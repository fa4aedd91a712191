package generator

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/xaxys/bubbler/compiler"
	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/generator/gen"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C23", "Search_C23_Repeated", Search_C23_Repeated)
	vs.Register("C23", "Search_C23_History", Search_C23_History)
	vs.Register("C23", "Search_C23_Processes", Search_C23_Processes)
}

func c23Same(a, b map[string]string) bool {
	for n, t := range a {
		u, ok := b[n]
		if !ok || t != u {
			return false
		}
	}
	return len(a) == len(b)
}

func c23Options() []gen.GenOptionSetter {
	o := append(vOptions(), gen.MemoryCopy(vs.Bool("memcpy")), gen.RelativePath(vs.Bool("relpath")))
	n, err := gen.LoopUnroll(vs.Choose("unroll", 5))
	if err != nil {
		panic(err)
	}
	return append(o, n)
}

// c23Schema is a schema of three files with some of everything and, in the
// first, what the grammar makes.
var c23Large bool

func c23Schema() map[string]string {
	c23Large = vs.Bool("large")
	text := ""
	if !c23Large {
		g := &vs.Grammar{Name: "g", Small: true, Expr: vs.Bool("expr")}
		text = g.Schema()
	} else {
		text = `package p.q; option go_package = "example.com/p"; import "sub/b.bb"; import "c.bb"; import "d.bb"; import "e.bb"; import "f.bb"; ` +
			`enum Num[#11] { Na = 3, Nb, Nc = 70, }; struct T { uint8 a { get x(int16): value + 1; set x(int16): value - 1; get y(bool): value > 3; }; uint16 b [#3] [order="big"]; void [#5]; }; ` +
			`struct S { Num e; void [#5]; T t; T<3> ts; InB ib; InC<2> ic; string s; bytes<2> bs; float32 f; int64<40> l; uint16 k = 0xABCD; Num<8> es; struct Em { uint8 z1; bool<8> z2 [1]; }; Ec ec; void [#4]; Dd d1; Ee<2> e1; Ff f1; };`
	}
	vs.Note("schema", text)
	return map[string]string{
		"main.bb":  text,
		"sub/b.bb": `package p.b; option go_package = "example.com/b"; import "../c.bb"; struct InB { InC c; uint32 d [#20]; Ec e; void [#8]; };`,
		"c.bb":     `package p.c; option go_package = "example.com/c"; struct InC { int8 a [#4]; void [#4]; }; enum Ec[#4] { Ca, Cb; };`,
		"d.bb":     `package p.d; option go_package = "example.com/d"; struct Dd { int8 a; string s; };`,
		"e.bb":     `package p.e; option go_package = "example.com/e"; struct Ee { float64 a; };`,
		"f.bb":     `package p.f.f; option go_package = "example.com/f"; struct Ff { bool a; };`,
	}
}

// The same schema and options, compiled and generated twice.
func Search_C23_Repeated() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	src := c23Schema()
	o := c23Options()
	a, err := vGenerate(src, target, o...)
	for i := 0; i < 3; i++ {
		b, err2 := vGenerate(src, target, o...)
		vs.Assert("both succeed or fail", (err == nil) == (err2 == nil))
		if err != nil && c23Large {
			panic(err)
		}
		if err != nil {
			vs.Assert("with the same message", err.Error() == err2.Error())
			return
		}
		vs.Assert("the same files", c23Same(a, b))
	}
}

// c23Run generates for a target in a directory.
func c23Run(target, dir string, src map[string]string, o []gen.GenOptionSetter) (map[string]string, error) {
	os.RemoveAll(dir)
	for n, t := range src {
		p := filepath.Join(dir, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	units, err, _ := compiler.Compile(filepath.Join(dir, "main.bb"))
	if err != nil {
		return nil, err
	}
	err, _ = Generate(target, filepath.Join(dir, "out"), gen.NewGenOptions(o...), []*definition.CompilationUnit(units)...)
	if err != nil {
		return nil, err
	}
	return c23Read(dir, src), nil
}

func c23Read(dir string, src map[string]string) map[string]string {
	files := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if _, ok := src[rel]; !ok {
			b, _ := os.ReadFile(p)
			files[rel] = string(b)
		}
		return nil
	})
	return files
}

// What was generated before, with other options too, leaves no trace.
func Search_C23_History() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	dir := vs.Dir()
	src := c23Schema()
	o := c23Options()
	fresh, err := c23Run(target, filepath.Join(dir, "a"), src, o)
	other := map[string]string{"main.bb": vs.Pick("other", `package z; option go_package = "example.com/z"; struct Q { string s; uint8 k = 3; }; enum Num[8] { Na; };`, `package p.q; struct S { uint8 a { get x(bool): value > 0; }; };`, src["main.bb"])}
	c23Run(vs.Pick("target before", vTargets...), filepath.Join(dir, "b"), other, []gen.GenOptionSetter{gen.SingleFile(vs.Bool("single before")), gen.MinimalCode(vs.Bool("minimal before"))})
	again, err2 := c23Run(target, filepath.Join(dir, "a"), src, o)
	vs.Assert("both succeed or fail", (err == nil) == (err2 == nil))
	if err != nil {
		return
	}
	vs.Assert("the same files", c23Same(fresh, again))
}

// The command, run from other directories with other spellings of the path.
func Search_C23_Processes() {
	if vs.Symbolic() {
		return
	}
	bin, _ := vCommand()
	target := vs.Pick("target", vTargets...)
	dir := vs.Dir()
	src := c23Schema()
	for n, t := range src {
		vs.File(n, t)
	}
	os.MkdirAll(filepath.Join(dir, "sub", "deep"), 0o755)
	var flags []string
	for _, f := range []string{"-single", "-minimal", "-inner", "-decnum", "-compat", "-memcpy", "-relpath"} {
		if vs.Bool(f) {
			flags = append(flags, f)
		}
	}
	run := func(cwd, in, out, env string) (map[string]string, bool) {
		o := filepath.Join(dir, "o")
		os.RemoveAll(o)
		cmd := exec.Command(bin, append(append([]string{"-t", target, "-o", out}, flags...), in)...)
		cmd.Dir = filepath.Join(dir, cwd)
		cmd.Env = append(os.Environ(), "HOME=/"+env, "TZ="+env, "PWD="+cmd.Dir)
		if err := cmd.Run(); err != nil {
			return nil, false
		}
		return c23Read(dir, src), true
	}
	a, ok := run("", "main.bb", filepath.Join(dir, "o"), "UTC")
	how := [][]string{{"", "./main.bb", "o"}, {"", filepath.Join(dir, "main.bb"), "./o"}, {"sub", "../main.bb", "../o"}, {"sub/deep", "../../main.bb", filepath.Join(dir, "o")}, {"", "sub/../main.bb", "sub/../o"}, {"sub/deep", filepath.Join(dir, "sub", "..", "main.bb"), "../../o/"}}
	h := how[vs.Choose("how", len(how))]
	vs.Note("run", strings.Join(h, " "))
	b, ok2 := run(h[0], h[1], h[2], "Asia/Tokyo")
	vs.Assert("both succeed or fail", ok == ok2)
	vs.Assert("the same files", c23Same(a, b))
}
