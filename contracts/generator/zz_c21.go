package generator

import (
	"github.com/xaxys/bubbler/generator/target/c"
	"github.com/xaxys/bubbler/generator/target/commonjs"
	"github.com/xaxys/bubbler/generator/target/cpp"
	"github.com/xaxys/bubbler/generator/target/csharp"
	"github.com/xaxys/bubbler/generator/target/esm"
	"github.com/xaxys/bubbler/generator/target/golang"
	"github.com/xaxys/bubbler/generator/target/java"
	"github.com/xaxys/bubbler/generator/target/kotlin"
	"github.com/xaxys/bubbler/generator/target/python"

	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/xaxys/bubbler/generator/gen"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C21", "Verify_C21_Target", Verify_C21_Target)
	vs.Register("C21", "Search_C21_Namespace", Search_C21_Namespace)
	vs.Register("C21", "Search_C21_OmitEmpty", Search_C21_OmitEmpty)
	vs.Register("C21", "Search_C21_CommandLine", Search_C21_CommandLine)
	vs.Register("C21", "Search_C21_CommandSettings", Search_C21_CommandSettings)
}

// c21Kind is the target a generator is for.
func c21Kind(g Generator) string {
	switch g.(type) {
	case *c.CGenerator:
		return "c"
	case *cpp.CppGenerator:
		return "cpp"
	case *csharp.CSharpGenerator:
		return "csharp"
	case *commonjs.CommonJSGenerator:
		return "commonjs"
	case *esm.ESModuleGenerator:
		return "esmodule"
	case *golang.GoGenerator:
		return "go"
	case *java.JavaGenerator:
		return "java"
	case *kotlin.KotlinGenerator:
		return "kotlin"
	case *python.PythonGenerator:
		return "python"
	}
	return ""
}

// The targets are the documented names and no other one.
func Verify_C21_Target() {
	s := vs.Pick("target", "", "c", "cpp", "csharp", "cs", "commonjs", "cjs", "esmodule", "javascript", "js", "mjs", "esm", "go", "java", "kotlin", "kt", "python", "py",
		"C", "c ", "golang", "rust", "dump", "pyt", "ts", "h", "cpp,c", "Go")
	good := false
	for _, n := range []string{"c", "cpp", "csharp", "cs", "commonjs", "cjs", "esmodule", "javascript", "js", "mjs", "esm", "go", "java", "kotlin", "kt", "python", "py"} {
		good = good || n == s
	}
	g, err := GetGenerator(s)
	vs.Assert("accepted exactly when documented", (err == nil) == good)
	vs.Assert("with a generator exactly then", (g != nil) == good)
	for _, same := range [][]string{{"c"}, {"cpp"}, {"go"}, {"java"}, {"csharp", "cs"}, {"commonjs", "cjs"}, {"esmodule", "javascript", "js", "mjs", "esm"}, {"kotlin", "kt"}, {"python", "py"}} {
		for _, n := range same {
			if n == s {
				first, _ := GetGenerator(same[0])
				vs.Assert("it is the target's", c21Kind(g) == same[0])
				vs.Assert("the names of one target mean the same", c21Kind(g) == c21Kind(first))
			}
		}
	}
}

func c21Find(text, re string) string {
	m := regexp.MustCompile(re).FindStringSubmatch(text)
	if m == nil {
		return ""
	}
	return m[1]
}

// The namespace options decide the namespace of their target and of no other
// one; without them it is the schema's package.
func Search_C21_Namespace() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", "cpp", "csharp", "java", "go", "kotlin")
	single := vs.Bool("single")
	names := map[string]string{"cpp": "cpp_namespace", "csharp": "csharp_namespace", "java": "java_package", "go": "go_package", "kotlin": "kotlin_package"}
	vals := map[string]string{"cpp": "cx::ns", "csharp": "Cs.Nsp", "java": "com.ex.jv", "go": "example.com/x/yy", "kotlin": "org.kt"}
	schema := "package aa.bb; "
	given := map[string]bool{}
	for _, t := range []string{"cpp", "csharp", "java", "go", "kotlin"} {
		given[t] = vs.Bool("option of " + t)
		if given[t] {
			schema += fmt.Sprintf("option %s = \"%s\"; ", names[t], vals[t])
		}
	}
	unknown := vs.Bool("an unknown option")
	if unknown {
		schema += "option python_package = \"zz.unknown\"; "
	}
	schema += "struct Sx { uint8 a; };"
	files, err := vGenerate(map[string]string{"main.bb": schema}, target, gen.SingleFile(single))
	if err != nil {
		vs.Assert("accepted by "+target+": "+err.Error(), false)
	}
	text := vText(files)
	got, want, dir := "", "", ""
	switch target {
	case "cpp":
		got, want = c21Find(text, `(?m)^namespace ([\w:]+)`), "aa::bb"
	case "csharp":
		got, want = c21Find(text, `(?m)^namespace ([\w.]+)`), "Aa.Bb"
	case "java":
		got, want, dir = c21Find(text, `(?m)^package ([\w.]+);`), "aa.bb", "aa/bb"
	case "kotlin":
		got, want, dir = c21Find(text, `(?m)^package ([\w.]+)$`), "aa.bb", "aa/bb"
	case "go":
		got, want, dir = c21Find(text, `(?m)^package (\w+)$`), "bb", "aa/bb"
	}
	if given[target] {
		want = vals[target]
		switch target {
		case "go":
			want, dir = "yy", want
		case "java", "kotlin":
			dir = strings.ReplaceAll(want, ".", "/")
		}
	}
	vs.Assert("the namespace is the one of the option or of the package", got == want)
	for n := range files {
		if dir != "" && (!single || target == "java" || target == "kotlin") {
			vs.Assert("the files are in its directory", filepath.ToSlash(filepath.Dir(n)) == "out/"+dir)
		}
	}
	vs.Assert("an unknown option has no effect", !strings.Contains(text, "unknown"))
	for t, v := range vals {
		vs.Assert("the options of other targets have no effect", t == target || !strings.Contains(text, v))
	}
}

// A file without definitions yields no output exactly when it says so.
func Search_C21_OmitEmpty() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	opt := vs.Choose("option", 3)
	empty := vs.Bool("without definitions")
	imports := vs.Bool("with an import")
	src := map[string]string{"b.bb": "package pb; option go_package = \"example.com/pb\"; struct InB { uint8 a; };"}
	main := "package pm; option go_package = \"example.com/pm\"; " + []string{"", "option omit_empty = true; ", "option omit_empty = false; "}[opt]
	if imports {
		main += "import \"b.bb\"; "
	}
	if !empty {
		main += "struct InMain { uint8 a; }; "
	}
	src["main.bb"] = main
	files, err := vGenerate(src, target)
	if err != nil {
		vs.Assert("accepted by "+target+": "+err.Error(), false)
	}
	own, b := 0, 0
	for n, t := range files {
		inB := strings.Contains(n, "pb")
		switch {
		case !strings.HasPrefix(n, "out/"):
		case inB:
			b++
			_ = t
		case strings.Contains(n, "pm"):
			own++
		}
	}
	vs.Assert("the imported file has its output", (b > 0) == imports)
	perType := target == "java" || target == "kotlin"
	if empty && opt == 1 || empty && perType {
		vs.Assert("no output for the omitted file", own == 0)
	} else {
		vs.Assert("output for the others", own > 0)
	}
}

// c21Build builds the command and two inputs.
func c21Build() {
	if _, dir := vCommand(); !c21Inputs {
		os.WriteFile(filepath.Join(dir, "a.bb"), []byte("package p; struct S { uint8 a; int8 b [#4]; void [#4]; };"), 0o644)
		os.WriteFile(filepath.Join(dir, "bad.bb"), []byte("package p; struct S { uint8 a [#9]; };"), 0o644)
		c21Inputs = true
	}
}

var c21Inputs bool

// The command refuses bad settings before it writes anything.
func Search_C21_CommandLine() {
	if vs.Symbolic() {
		return
	}
	c21Build()
	var args []string
	good := true
	pick := func(name, flag string, ok []string, bad []string) {
		all := append(append([]string{"<none>"}, ok...), bad...)
		i := vs.Choose(name, len(all))
		if i > 0 {
			args = append(args, flag, all[i])
			good = good && i <= len(ok)
		} else if flag == "-t" {
			good = false
		}
	}
	pick("target", "-t", []string{"c", "py"}, []string{"cobol", ""})
	pick("signext", "-signext", []string{"shift", "arith", "ARITH"}, []string{"sar"})
	pick("unroll", "-unroll", []string{"-1", "0", "9"}, []string{"-2", "x", "-9223372036854775808", "9223372036854775808"})
	switch vs.Choose("flag", 3) {
	case 1:
		args = append(args, "-decnum")
	case 2:
		args = append(args, "-decimal")
		good = false
	}
	out := filepath.Join(vBinaryDir, "out")
	os.RemoveAll(out)
	args = append(args, "-o", out)
	switch vs.Choose("inputs", 5) {
	case 0:
		args = append(args, filepath.Join(vBinaryDir, "a.bb"))
	case 1:
		good = false
	case 2:
		args = append(args, filepath.Join(vBinaryDir, "a.bb"), filepath.Join(vBinaryDir, "a.bb"))
		good = false
	case 3:
		args = append(args, filepath.Join(vBinaryDir, "bad.bb"))
		good = false
	case 4:
		args = append(args, filepath.Join(vBinaryDir, "missing.bb"))
		good = false
	}
	cmd := exec.Command(vBinary, args...)
	cmd.Dir = vBinaryDir
	text, err := cmd.CombinedOutput()
	vs.Assert("succeeds exactly with good settings", (err == nil) == good)
	_, stat := os.Stat(out)
	vs.Assert("writes output exactly then", (stat == nil) == good)
	vs.Assert("and says what is wrong otherwise", good || len(text) > 0)
}

// Every flag of the command is the setting of that name.
func Search_C21_CommandSettings() {
	if vs.Symbolic() {
		return
	}
	c21Build()
	target := vs.Pick("target", vTargets...)
	src := map[string]string{
		"main.bb":  "package x.y.pm; option go_package = \"ex.com/m/pm\"; import \"sub/b.bb\"; struct InMain { uint8 a; InB b; int8 c [#4]; void [#4]; uint8<6> d; uint16 k = 0xAB; string s; bytes<2> t; enum En { Q1; Q2 = 0x7; } e; };",
		"sub/b.bb": "package x.z.pb; option go_package = \"ex.com/m/sub/pb\"; struct InB { uint8 a; };",
	}
	src["main.bb"] = strings.Replace(src["main.bb"], "enum En { Q1; Q2 = 0x7; } e; ", "", 1)
	src["main.bb"] += " enum En[1] { Q1; Q2 = 0x7; };"
	var args []string
	var opts []gen.GenOptionSetter
	for _, f := range []struct {
		flag string
		set  func(bool) gen.GenOptionSetter
	}{{"-single", gen.SingleFile}, {"-relpath", gen.RelativePath}, {"-inner", gen.InnerClass}, {"-minimal", gen.MinimalCode}, {"-decnum", gen.DecimalNumber}, {"-memcpy", gen.MemoryCopy}, {"-compat", gen.CompatibleMode}} {
		if vs.Bool(f.flag) {
			args = append(args, f.flag)
			opts = append(opts, f.set(true))
		}
	}
	if m := vs.Pick("signext", "", "shift", "arith"); m != "" {
		set, _ := gen.SignExtMethod(m)
		args, opts = append(args, "-signext", m), append(opts, set)
	}
	if n := vs.Choose("unroll", 9); n != 5 {
		set, _ := gen.LoopUnroll(n - 1)
		args, opts = append(args, "-unroll", fmt.Sprint(n-1)), append(opts, set)
	}
	if p := vs.Pick("rmpath", "", "x", "x/y,x/z", "ex.com/m/"); p != "" {
		args, opts = append(args, "-rmpath", p), append(opts, gen.RemovePath(p))
	} else {
		opts = append(opts, gen.RemovePath(""))
	}
	dir, _ := os.MkdirTemp("", "cli")
	defer os.RemoveAll(dir)
	for n, t := range src {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755)
		os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644)
	}
	out := filepath.Join(dir, "o", "out")
	cmd := exec.Command(vBinary, append(args, "-t", target, "-o", out, filepath.Join(dir, "main.bb"))...)
	cmd.Dir = dir
	_, err := cmd.CombinedOutput()
	want, werr := vGenerate(src, target, opts...)
	vs.Assert("succeeds exactly when the generator does", (err == nil) == (werr == nil))
	if err != nil {
		return
	}
	n := 0
	same := true
	filepath.Walk(filepath.Join(dir, "o"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(filepath.Join(dir, "o"), p)
		b, _ := os.ReadFile(p)
		n++
		same = same && want[filepath.ToSlash(rel)] == string(b)
		return nil
	})
	vs.Assert("the files are the ones of these settings", same && n == len(want))
}
