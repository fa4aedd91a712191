package generator

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/generator/gen"
	"github.com/xaxys/bubbler/generator/target/c"
	"github.com/xaxys/bubbler/generator/target/commonjs"
	"github.com/xaxys/bubbler/generator/target/cpp"
	"github.com/xaxys/bubbler/generator/target/csharp"
	"github.com/xaxys/bubbler/generator/target/esm"
	"github.com/xaxys/bubbler/generator/target/golang"
	"github.com/xaxys/bubbler/generator/target/java"
	"github.com/xaxys/bubbler/generator/target/python"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C16", "Verify_C16_IntC", Verify_C16_IntC)
	vs.Register("C16", "Verify_C16_IntCpp", Verify_C16_IntCpp)
	vs.Register("C16", "Verify_C16_IntCSharp", Verify_C16_IntCSharp)
	vs.Register("C16", "Verify_C16_IntJava", Verify_C16_IntJava)
	vs.Register("C16", "Verify_C16_IntGo", Verify_C16_IntGo)
	vs.Register("C16", "Verify_C16_IntCommonJS", Verify_C16_IntCommonJS)
	vs.Register("C16", "Verify_C16_IntESM", Verify_C16_IntESM)
	vs.Register("C16", "Verify_C16_IntPython", Verify_C16_IntPython)
	vs.Register("C16", "Verify_C16_TargetBool", Verify_C16_TargetBool)
	vs.Register("C16", "Search_C16_TargetFloat", Search_C16_TargetFloat)
	vs.Register("C16", "Search_C16_TargetString", Search_C16_TargetString)
	vs.Register("C16", "Search_C16_Schema", Search_C16_Schema)
}

func c16Generator(target string, opts *gen.GenOptions) gen.LiteralGeneratorImpl {
	switch target {
	case "c":
		return c.NewCLiteralGenerator(opts)
	case "cpp":
		return cpp.NewCLiteralGenerator(opts)
	case "csharp":
		return csharp.NewCSharpLiteralGenerator(opts)
	case "java":
		return java.NewJavaLiteralGenerator(opts)
	case "go":
		return golang.NewCLiteralGenerator(opts)
	case "cjs":
		return commonjs.NewCommonJSLiteralGenerator(opts)
	case "esm":
		return esm.NewESModuleLiteralGenerator(opts)
	}
	return python.NewPythonLiteralGenerator(opts)
}

func c16Is(text string, neg bool, mag uint64, suffix string) bool {
	sign := ""
	if neg {
		sign = "-"
	}
	is := func(prefix, verb string) bool { return text == sign+prefix+vs.Digits(mag, verb)+suffix }
	return vs.Or(vs.Or(is("", "d"), is("0x", "x")), vs.Or(is("0x", "X"), is("0b", "b")))
}

// Every integer is written as a literal of the target, in some base, with its
// value: without a suffix only where the target reads that as the number.
func c16TargetInt(target string) {
	n := vs.Int("value", math.MinInt64, math.MaxInt64)
	lit := &definition.IntLiteral{IntValue: n, Unsigned: vs.Bool("unsigned"), Base: definition.IntBase(vs.Choose("base", 4))}
	var opts *gen.GenOptions
	if vs.Bool("with options") {
		opts = gen.NewGenOptions(gen.DecimalNumber(vs.Bool("decnum")))
	}
	text, err := c16Generator(target, opts).GenerateIntLiteral(lit)
	vs.Assert("written", err == nil)
	neg := false
	mag := uint64(n)
	if !lit.Unsigned && n < 0 {
		neg, mag = true, uint64(-n)
	}
	plain := c16Is(text, neg, mag, "")
	ok := plain
	switch target {
	case "java":
		// an int literal stands for 32 bits, and no decimal one for more than 63
		small := mag <= math.MaxInt32
		if neg {
			small = mag <= 1<<31
		}
		decimal := text == vs.Digits(mag, "d")+"L"
		ok = vs.Or(vs.And(plain, small), vs.And(c16Is(text, neg, mag, "L"), !vs.And(decimal, mag > math.MaxInt64)))
	case "cjs", "esm":
		ok = vs.Or(vs.And(plain, mag <= 1<<53), c16Is(text, neg, mag, "n"))
	}
	vs.Assert("is a literal of the value", ok)
}

func Verify_C16_IntC()        { c16TargetInt("c") }
func Verify_C16_IntCpp()      { c16TargetInt("cpp") }
func Verify_C16_IntCSharp()   { c16TargetInt("csharp") }
func Verify_C16_IntJava()     { c16TargetInt("java") }
func Verify_C16_IntGo()       { c16TargetInt("go") }
func Verify_C16_IntCommonJS() { c16TargetInt("cjs") }
func Verify_C16_IntESM()      { c16TargetInt("esm") }
func Verify_C16_IntPython()   { c16TargetInt("python") }

func Verify_C16_TargetBool() {
	target := vs.Pick("target", "c", "cpp", "csharp", "java", "go", "cjs", "esm", "python")
	v := vs.Bool("value")
	want := []string{"false", "true", "False", "True"}
	i := 0
	if v {
		i = 1
	}
	if target == "python" {
		i += 2
	}
	text, err := c16Generator(target, nil).GenerateBoolLiteral(&definition.BoolLiteral{BoolValue: v})
	vs.Assert("written", err == nil)
	vs.Assert("is the literal of the value", text == want[i])
}

// c16Float is the value of a float literal of a target, as its language reads it.
func c16Float(target, text string) (float64, bool) {
	for strings.HasPrefix(text, "(") && strings.HasSuffix(text, ")") {
		text = strings.TrimSpace(text[1 : len(text)-1])
	}
	if m := regexp.MustCompile(`^(-?\d+\.\d+) ?/ ?(\d+\.\d+)$`).FindStringSubmatch(text); m != nil && target != "go" && target != "python" {
		a, _ := strconv.ParseFloat(m[1], 64)
		b, _ := strconv.ParseFloat(m[2], 64)
		return a / b, true
	}
	if v, ok := map[string]float64{
		`python float("+Inf")`: math.Inf(1), `python float("-Inf")`: math.Inf(-1), `python float("NaN")`: math.NaN(),
		"go math.Inf(1)": math.Inf(1), "go math.Inf(-1)": math.Inf(-1), "go math.NaN()": math.NaN(),
		"kotlin Double.POSITIVE_INFINITY": math.Inf(1), "kotlin Double.NEGATIVE_INFINITY": math.Inf(-1), "kotlin Double.fromBits(0x7FF8000000000001L)": math.NaN(), "kotlin Double.NaN": math.NaN(),
		"java Double.POSITIVE_INFINITY": math.Inf(1), "java Double.NEGATIVE_INFINITY": math.Inf(-1), "java Double.NaN": math.NaN(),
		"csharp double.PositiveInfinity": math.Inf(1), "csharp double.NegativeInfinity": math.Inf(-1), "csharp double.NaN": math.NaN(),
		"cjs Infinity": math.Inf(1), "cjs -Infinity": math.Inf(-1), "cjs NaN": math.NaN(),
		"esm Infinity": math.Inf(1), "esm -Infinity": math.Inf(-1), "esm NaN": math.NaN(),
		"c INFINITY": math.Inf(1), "c -INFINITY": math.Inf(-1), "c NAN": math.NaN(),
		"cpp INFINITY": math.Inf(1), "cpp -INFINITY": math.Inf(-1), "cpp NAN": math.NaN(),
	}[target+" "+text]; ok {
		return v, true
	}
	if !regexp.MustCompile(`^-?(\d+\.\d*|\d+|\.\d+)([eE][-+]?\d+)?$`).MatchString(text) {
		return 0, false
	}
	v, err := strconv.ParseFloat(text, 64)
	return v, err == nil
}

func c16SameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

func Search_C16_TargetFloat() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", "c", "cpp", "csharp", "java", "cjs", "esm", "python")
	bits := vs.Int("bits", math.MinInt64, math.MaxInt64)
	v := math.Float64frombits(uint64(bits))
	switch vs.Choose("kind", 4) {
	case 1:
		v = float64(bits) / 1000
	case 2:
		v = float64(bits%100000) / 1e6
	case 3:
		v = []float64{math.Inf(1), math.Inf(-1), math.NaN(), 1e-7}[uint64(bits)%4]
	}
	text, err := c16Generator(target, nil).GenerateFloatLiteral(&definition.FloatLiteral{FloatValue: v})
	vs.Assert("written", err == nil)
	got, ok := c16Float(target, text)
	vs.Assert("is a literal of the target", ok)
	vs.Assert("of the value", c16SameFloat(got, v))
}

// c16Unquote reads a double-quoted text as all targets read it.
func c16Unquote(target, text string) (string, bool) {
	if len(text) < 2 || text[0] != '"' || text[len(text)-1] != '"' {
		return "", false
	}
	text = text[1 : len(text)-1]
	out := ""
	for len(text) > 0 {
		if text[0] != '\\' {
			if text[0] == '"' || text[0] < ' ' || text[0] == '$' && target == "kotlin" && len(text) > 1 {
				return "", false
			}
			out += text[:1]
			text = text[1:]
			continue
		}
		if len(text) < 2 {
			return "", false
		}
		simple := map[byte]string{'n': "\n", 'r': "\r", 't': "\t", '\\': `\`, '"': `"`, 'b': "\b", '\'': "'"}
		if s, ok := simple[text[1]]; ok && (s != "'" || target != "go") {
			out += s
			text = text[2:]
			continue
		}
		switch {
		case text[1] == '$' && target == "kotlin":
			out += "$"
			text = text[2:]
		case text[1] == 'u' && len(text) >= 6 && target != "c" && target != "cpp":
			n, err := strconv.ParseUint(text[2:6], 16, 16)
			if err != nil || target == "java" && (n == '\n' || n == '\r' || n == '"' || n == '\\') {
				return "", false
			}
			out += string(rune(n))
			text = text[6:]
		case text[1] >= '0' && text[1] <= '7' && len(text) >= 4 && (target == "c" || target == "cpp" || target == "go" || target == "python"):
			n, err := strconv.ParseUint(text[1:4], 8, 8)
			if err != nil {
				return "", false
			}
			out += string([]byte{byte(n)})
			text = text[4:]
		default:
			return "", false
		}
	}
	return out, true
}

func Search_C16_TargetString() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", "c", "cpp", "csharp", "java", "go", "cjs", "esm", "python")
	s := ""
	for i := 0; i < vs.Choose("length", 6); i++ {
		s += vs.Pick(fmt.Sprint("char ", i), `"`, `\`, "\n", "\r", "\t", "a", "1", "u", "x", "$", "{", "\x01", "\x1f", "\x7f", "\a", "'", "\u00e9", "\u4e2d", "%")
	}
	text, err := c16Generator(target, nil).GenerateStringLiteral(&definition.StringLiteral{StringValue: s})
	vs.Assert("written", err == nil)
	got, ok := c16Unquote(target, text)
	vs.Assert("is a literal of the target", ok)
	vs.Assert("of the value", got == s)
}

// c16Operand is the text compared with the stored value in a generated getter.
func c16Operand(text string) string {
	seen := false
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") || strings.HasPrefix(t, "*") {
			continue
		}
		seen = seen || strings.Contains(strings.ToLower(l), "qqmark")
		if !seen {
			continue
		}
		if m := regexp.MustCompile(`(===?|\.equals) *(.*)$`).FindStringSubmatch(l); m != nil && (strings.Contains(l, "return") || strings.Contains(l, "=>") || strings.Contains(l, "get()")) {
			op := strings.TrimRight(m[2], " ,;{}")
			return op
		}
	}
	return ""
}

// c16Strip removes the brackets, suffixes and conversions around a literal.
func c16Strip(target, s string) string {
	s = strings.TrimSpace(s)
	for {
		o := s
		for strings.Count(s, ")") > strings.Count(s, "(") && strings.HasSuffix(s, ")") {
			s = s[:len(s)-1]
		}
		if target == "kotlin" {
			s = regexp.MustCompile(`\.to(U?Byte|U?Short|U?Int|U?Long|Float|Double)\(\)$`).ReplaceAllString(s, "")
		}
		if strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
			s = s[1 : len(s)-1]
		}
		s = strings.TrimRight(s, " ;")
		if o == s {
			return s
		}
	}
}

// A literal of the schema, in any notation, and what is generated for it.
func Search_C16_Schema() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	n := vs.Int("value", 0, math.MaxInt64)
	kind := vs.Choose("kind", 4)
	text := ""
	var want any
	cast := "int64"
	switch kind {
	case 0:
		f := vs.Pick("format", "%d", "0x%x", "0X%X", "0%o", "-%d", "-0x%X", "-0%o")
		text = fmt.Sprintf(f, n)
		w, _ := new(big.Int).SetString(text, 0)
		want = w
	case 1:
		cast = "float64"
		v := float64(n) / 1024
		switch vs.Choose("float", 4) {
		case 1:
			v = math.Float64frombits(uint64(n))
		case 2:
			v = -v
		case 3:
			v = math.Inf(1)
		}
		vs.Assume(!math.IsNaN(v) && (!math.IsInf(v, 0) || n < 1<<20))
		text = strconv.FormatFloat(v, 'e', -1, 64)
		if math.IsInf(v, 0) {
			text = "inf"
		}
		want = v
	case 2:
		cast = ""
		s := ""
		for i := 0; i < vs.Choose("length", 4); i++ {
			k := vs.Choose(fmt.Sprint("char ", i), 9)
			text += []string{`\"`, `\'`, `\\`, `\n`, "a", `\t`, `\x01`, `\x41`, "$a"}[k]
			s += []string{`"`, `'`, `\`, "\n", "a", "\t", "\x01", "A", "$a"}[k]
		}
		q := vs.Pick("quote", `"`, `'`)
		text = q + text + q
		want = s
	case 3:
		cast = "bool"
		v := n%2 == 1
		text = fmt.Sprint(v)
		want = v
	}
	left := "value"
	if cast != "" && cast != "bool" {
		left = "(" + cast + ") value"
	}
	if cast == "" {
		left = `"x"`
	}
	if cast == "bool" {
		left = "(value > 3)"
	}
	schema := fmt.Sprintf("package p; option go_package = \"example.com/p\"; struct S { uint8 a { get qqmark(bool): %s == %s; }; };", left, text)
	files, err := vGenerate(map[string]string{"main.bb": schema}, target, vOptions()...)
	if err != nil {
		vs.Assert("accepted by "+target+": "+err.Error(), false)
	}
	out := c16Strip(target, c16Operand(vText(files)))
	switch w := want.(type) {
	case *big.Int:
		out = strings.TrimRight(out, "uUlLn")
		got, ok := new(big.Int).SetString(out, 0)
		vs.Assert("an integer is written", ok)
		vs.Assert("with its value", got.Cmp(w) == 0)
	case float64:
		got, ok := c16Float(target, out)
		vs.Assert("a float is written", ok)
		vs.Assert("with its value ", c16SameFloat(got, w))
	case string:
		got, ok := c16Unquote(target, out)
		vs.Assert("a text is written", ok)
		vs.Assert("with its characters", got == w)
	case bool:
		vs.Assert("the truth value is written", strings.ToLower(out) == fmt.Sprint(w))
	}
}
