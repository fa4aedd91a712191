package generator

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/xaxys/bubbler/compiler"
	"github.com/xaxys/bubbler/generator/gen"
	"github.com/xaxys/bubbler/generator/target/c"
	"github.com/xaxys/bubbler/generator/target/commonjs"
	"github.com/xaxys/bubbler/generator/target/cpp"
	"github.com/xaxys/bubbler/generator/target/csharp"
	"github.com/xaxys/bubbler/generator/target/esm"
	"github.com/xaxys/bubbler/generator/target/golang"
	"github.com/xaxys/bubbler/generator/target/java"
	"github.com/xaxys/bubbler/generator/target/kotlin"
	"github.com/xaxys/bubbler/generator/target/python"
	vs "github.com/xaxys/bubbler/verifspec"
)

// vTargets are the targets without their aliases.
var vTargets = []string{"c", "cpp", "csharp", "java", "go", "cjs", "esm", "python", "kotlin"}

// vGenerator is a generator as a fresh process has it.
func vGenerator(target string) Generator {
	switch target {
	case "c":
		return c.NewCGenerator()
	case "cpp":
		return cpp.NewCppGenerator()
	case "csharp":
		return csharp.NewCSharpGenerator()
	case "java":
		return java.NewJavaGenerator()
	case "go":
		return golang.NewGoGenerator()
	case "cjs":
		return commonjs.NewCommonJSGenerator()
	case "esm":
		return esm.NewESModuleGenerator()
	case "python":
		return python.NewPythonGenerator()
	case "kotlin":
		return kotlin.NewKotlinGenerator()
	}
	panic("unknown target " + target)
}

// vGenerate compiles main.bb of the given files and generates for one target,
// all inside a scratch directory. It returns the generated files.
func vGenerate(src map[string]string, target string, opts ...gen.GenOptionSetter) (map[string]string, error) {
	dir, err := os.MkdirTemp("", "gen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	for n, t := range src {
		p := filepath.Join(dir, "src", n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	units, err, _ := compiler.Compile(filepath.Join(dir, "src", "main.bb"))
	if err != nil {
		return nil, fmt.Errorf("%s", strings.ReplaceAll(err.Error(), dir, ""))
	}
	g := vGenerator(target)
	out := filepath.Join(dir, "out")
	err, _ = g.Generate(&gen.GenCtx{Units: units, GenOptions: gen.NewGenOptions(opts...), OutputPath: out})
	if err != nil {
		return nil, fmt.Errorf("%s", strings.ReplaceAll(err.Error(), dir, ""))
	}
	files := map[string]string{}
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if strings.HasPrefix(rel, "src"+string(filepath.Separator)) {
			if _, ok := src[filepath.ToSlash(rel[4:])]; ok {
				return nil
			}
		}
		b, err := os.ReadFile(p)
		files[filepath.ToSlash(rel)] = string(b)
		return err
	})
	if err != nil {
		panic(err)
	}
	return files, nil
}

// vText is all generated text, in the order of the file names.
func vText(files map[string]string) string {
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sortStrings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(files[n])
		b.WriteByte('\n')
	}
	return b.String()
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// vOptions are generation options, any combination of them.
func vOptions() []gen.GenOptionSetter {
	var o []gen.GenOptionSetter
	for i, f := range []func(bool) gen.GenOptionSetter{gen.SingleFile, gen.InnerClass, gen.MinimalCode, gen.DecimalNumber, gen.CompatibleMode} {
		o = append(o, f(vs.Bool([]string{"single", "inner", "minimal", "decnum", "compat"}[i])))
	}
	return o
}
