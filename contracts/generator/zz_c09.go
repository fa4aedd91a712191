package generator

import (
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"github.com/xaxys/bubbler/definition"
	"github.com/xaxys/bubbler/generator/gen"
	"github.com/xaxys/bubbler/generator/target/c"
	"github.com/xaxys/bubbler/generator/target/commonjs"
	"github.com/xaxys/bubbler/generator/target/cpp"
	"github.com/xaxys/bubbler/generator/target/csharp"
	"github.com/xaxys/bubbler/generator/target/esm"
	"github.com/xaxys/bubbler/generator/target/golang"
	"github.com/xaxys/bubbler/generator/target/java"
	"github.com/xaxys/bubbler/generator/target/kotlin"
	"github.com/xaxys/bubbler/generator/target/python"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C09", "Verify_C09_C", Verify_C09_C)
	vs.Register("C09", "Verify_C09_Cpp", Verify_C09_Cpp)
	vs.Register("C09", "Verify_C09_CSharp", Verify_C09_CSharp)
	vs.Register("C09", "Verify_C09_Java", Verify_C09_Java)
	vs.Register("C09", "Verify_C09_Go", Verify_C09_Go)
	vs.Register("C09", "Verify_C09_CommonJS", Verify_C09_CommonJS)
	vs.Register("C09", "Verify_C09_ESM", Verify_C09_ESM)
	vs.Register("C09", "Verify_C09_Python", Verify_C09_Python)
	vs.Register("C09", "Verify_C09_Kotlin", Verify_C09_Kotlin)
	vs.Register("C09", "Verify_C09_Constant_C", Verify_C09_Constant_C)
	vs.Register("C09", "Verify_C09_Constant_Cpp", Verify_C09_Constant_Cpp)
	vs.Register("C09", "Verify_C09_Constant_CSharp", Verify_C09_Constant_CSharp)
	vs.Register("C09", "Verify_C09_Constant_Java", Verify_C09_Constant_Java)
	vs.Register("C09", "Verify_C09_Constant_Go", Verify_C09_Constant_Go)
	vs.Register("C09", "Verify_C09_Constant_CommonJS", Verify_C09_Constant_CommonJS)
	vs.Register("C09", "Verify_C09_Constant_ESM", Verify_C09_Constant_ESM)
	vs.Register("C09", "Verify_C09_Constant_Python", Verify_C09_Constant_Python)
	vs.Register("C09", "Verify_C09_Constant_Kotlin", Verify_C09_Constant_Kotlin)
	vs.Register("C09", "Search_C09_Getter", Search_C09_Getter)
	vs.Register("C09", "Search_C09_Setter", Search_C09_Setter)
	vs.Register("C09", "Search_C09_Pairs", Search_C09_Pairs)
	vs.Register("C09", "Search_C09_Several", Search_C09_Several)
	vs.Register("C09", "Search_C09_BigInt", Search_C09_BigInt)
}

// ---------------------------------------------------------------- trees

// c09Node is an expression: op is an operator of the schema language, "?:",
// "cast T", "lit N", or a name. Unary operators are "u-", "u+", "!" and "~".
type c09Node struct {
	op   string
	kids []*c09Node
}

func (n *c09Node) String() string {
	if n == nil {
		return "<nil>"
	}
	if len(n.kids) == 0 {
		return n.op
	}
	s := "(" + n.op
	for _, k := range n.kids {
		s += " " + k.String()
	}
	return s + ")"
}

func c09N(op string, kids ...*c09Node) *c09Node { return &c09Node{op, kids} }

// c09Minus is the negation of an expression; that of a literal is a literal.
func c09Minus(x *c09Node) *c09Node {
	if x.op == "lit 0" {
		return x
	}
	if strings.HasPrefix(x.op, "lit -") {
		return c09N("lit " + x.op[5:])
	}
	if strings.HasPrefix(x.op, "lit ") {
		return c09N("lit -" + x.op[4:])
	}
	return c09N("u-", x)
}

// ---------------------------------------------------------------- languages

var c09Targets = []string{"c", "cpp", "csharp", "java", "go", "cjs", "esm", "python", "kotlin"}

var c09Basics = []string{"bool", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64"}

// c09Type is the type of a target that stands for a basic type.
func c09Type(target, t string) string {
	i := 0
	for c09Basics[i] != t {
		i++
	}
	switch target {
	case "c", "cpp":
		return []string{"bool", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "float", "double"}[i]
	case "csharp":
		return []string{"bool", "byte", "ushort", "uint", "ulong", "sbyte", "short", "int", "long", "float", "double"}[i]
	case "java":
		return []string{"boolean", "byte", "short", "int", "long", "byte", "short", "int", "long", "float", "double"}[i]
	case "cjs", "esm":
		return []string{"Boolean", "Number", "Number", "Number", "BigInt", "Number", "Number", "Number", "BigInt", "Number", "Number"}[i]
	case "python":
		return []string{"bool", "int", "int", "int", "int", "int", "int", "int", "int", "float", "float"}[i]
	case "kotlin":
		return []string{"Boolean", "UByte", "UShort", "UInt", "ULong", "Byte", "Short", "Int", "Long", "Float", "Double"}[i]
	}
	return t
}

func c09IsType(lang, s string) bool {
	if lang == "schema" {
		lang = "go"
	}
	for _, t := range c09Basics {
		if c09Type(lang, t) == s {
			return true
		}
	}
	return false
}

// c09Level is how tightly a binary operator binds in a language, the schema
// language among them; 0 is not an operator.
func c09Level(lang, op string) int {
	switch lang {
	case "go":
		switch op {
		case "*", "/", "%", "<<", ">>", "&":
			return 5
		case "+", "-", "|", "^":
			return 4
		case "==", "!=", "<", "<=", ">", ">=":
			return 3
		case "&&":
			return 2
		case "||":
			return 1
		}
		return 0
	case "python":
		switch op {
		case "**":
			return 12
		case "*", "/", "%":
			return 10
		case "+", "-":
			return 9
		case "<<", ">>":
			return 8
		case "&":
			return 7
		case "^":
			return 6
		case "|":
			return 5
		case "==", "!=", "<", "<=", ">", ">=":
			return 4
		case "and":
			return 2
		case "or":
			return 1
		}
		return 0
	case "kotlin":
		switch op {
		case "*", "/", "%":
			return 10
		case "+", "-":
			return 9
		case "shl", "shr", "and", "or", "xor":
			return 8
		case "<", "<=", ">", ">=":
			return 7
		case "==", "!=":
			return 6
		case "&&":
			return 2
		case "||":
			return 1
		}
		return 0
	}
	switch op {
	case "**":
		if lang == "schema" {
			return 13
		}
		if lang == "cjs" || lang == "esm" {
			return 12
		}
		return 0
	case "*", "/", "%":
		return 10
	case "+", "-":
		return 9
	case "<<", ">>":
		return 8
	case "<", "<=", ">", ">=":
		return 7
	case "==", "!=":
		return 6
	case "&":
		return 5
	case "^":
		return 4
	case "|":
		return 3
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 0
}

// c09Schema is the operator of the schema language that an operator of a
// language stands for.
func c09Schema(lang, op string) string {
	switch op {
	case "and":
		if lang == "kotlin" {
			return "&"
		}
		return "&&"
	case "or":
		if lang == "kotlin" {
			return "|"
		}
		return "||"
	case "xor":
		return "^"
	case "shl":
		return "<<"
	case "shr":
		return ">>"
	}
	return op
}

// ---------------------------------------------------------------- parser

type c09Parser struct {
	lang string
	toks []string
	pos  int
	bad  string
}

func c09Letter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

func c09Digit(c byte) bool { return c >= '0' && c <= '9' }

// c09Tokens are the tokens of a text.
func c09Tokens(lang, s string) []string {
	var out []string
	for i := 0; i < len(s); {
		ch := s[i]
		j := i + 1
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n':
			i++
			continue
		case c09Letter(ch):
			for j < len(s) && (c09Letter(s[j]) || c09Digit(s[j])) {
				j++
			}
		case c09Digit(ch) || ch == '.' && j < len(s) && c09Digit(s[j]):
			for j < len(s) && (c09Letter(s[j]) || c09Digit(s[j]) || s[j] == '.' && j+1 < len(s) && c09Digit(s[j+1]) || (s[j] == '+' || s[j] == '-') && (s[j-1] == 'e' || s[j-1] == 'E') && !strings.HasPrefix(s[i:], "0x") && !strings.HasPrefix(s[i:], "0X")) {
				j++
			}
		default:
			for _, op := range []string{"**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "->", "++", "--", "::"} {
				if strings.HasPrefix(s[i:], op) && (lang != "schema" && lang != "python" || op != "++" && op != "--") {
					j = i + 2
				}
			}
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

func (p *c09Parser) peek(n int) string {
	if p.pos+n < len(p.toks) {
		return p.toks[p.pos+n]
	}
	return ""
}

func (p *c09Parser) next() string {
	t := p.peek(0)
	p.pos++
	return t
}

func (p *c09Parser) want(s string) {
	if t := p.next(); t != s && p.bad == "" {
		p.bad = "found " + t + " for " + s
	}
}

// c09Number is the value of a numeric literal.
func c09Number(lang, t string) string {
	low := strings.ToLower(t)
	hex := strings.HasPrefix(low, "0x")
	for low != "" && !hex && strings.HasSuffix(low, "f") {
		low = low[:len(low)-1]
	}
	for strings.HasSuffix(low, "u") || strings.HasSuffix(low, "l") || strings.HasSuffix(low, "n") {
		low = low[:len(low)-1]
	}
	if hex || !c09Fraction(low) {
		if n, ok := c09Small(low); ok {
			return "lit " + strconv.FormatInt(n, 10)
		}
		if n, ok := new(big.Int).SetString(low, 0); ok {
			return "lit " + n.String()
		}
		return "lit ?" + t
	}
	f, err := strconv.ParseFloat(low, 64)
	if err != nil {
		return "lit ?" + t
	}
	return "lit " + strconv.FormatFloat(f, 'e', -1, 64)
}

func (p *c09Parser) args() []*c09Node {
	var out []*c09Node
	p.want("(")
	for p.bad == "" && p.peek(0) != ")" {
		if len(out) > 0 {
			p.want(",")
		}
		out = append(out, p.expr())
	}
	p.want(")")
	return out
}

func (p *c09Parser) call(name string) *c09Node {
	a := p.args()
	if len(a) == 1 && (p.lang == "cjs" || p.lang == "esm" || p.lang == "python" || p.lang == "go") && c09IsType(p.lang, name) {
		return c09N("cast "+name, a...)
	}
	switch name {
	case "pow", "math.Pow", "Math.Pow", "Math.pow", "std.pow":
		if len(a) == 2 && p.lang != "python" {
			return c09N("**", a...)
		}
	}
	return c09N("call "+name, a...)
}

// goTernary is a function literal, called.
func (p *c09Parser) goTernary() *c09Node {
	p.want("(")
	p.want(")")
	t := p.next()
	p.want("{")
	p.want("if")
	cond := p.expr()
	p.want("{")
	p.want("return")
	a := p.expr()
	p.want("}")
	if p.peek(0) == "else" {
		p.next()
		p.want("{")
		p.want("return")
	} else {
		p.want("return")
		b := p.expr()
		p.want("}")
		p.want("(")
		p.want(")")
		return c09N("?: "+t, cond, a, b)
	}
	b := p.expr()
	p.want("}")
	p.want("}")
	p.want("(")
	p.want(")")
	return c09N("?: "+t, cond, a, b)
}

func (p *c09Parser) primary() *c09Node {
	t := p.next()
	var x *c09Node
	switch {
	case t == "":
		if p.bad == "" {
			p.bad = "ends early"
		}
		return c09N("?")
	case t == "(":
		x = p.expr()
		p.want(")")
	case p.lang == "kotlin" && t == "if":
		p.want("(")
		cond := p.expr()
		p.want(")")
		a := p.expr()
		p.want("else")
		return c09N("?:", cond, a, p.expr())
	case p.lang == "go" && t == "func":
		return p.goTernary()
	case c09Digit(t[0]) || t[0] == '.':
		x = c09N(c09Number(p.lang, t))
	case c09Letter(t[0]):
		switch t {
		case "True":
			t = "true"
		case "False":
			t = "false"
		}
		x = c09N(t)
	default:
		if p.bad == "" {
			p.bad = "found " + t
		}
		return c09N("?")
	}
	for {
		switch {
		case (p.peek(0) == "." || p.peek(0) == "->" || p.peek(0) == "::") && p.peek(1) != "":
			p.next()
			name := p.next()
			if p.lang == "kotlin" && p.peek(0) == "(" {
				x = p.method(x, name)
				continue
			}
			if len(x.kids) > 0 {
				p.bad = "member of an expression"
				return x
			}
			x = c09N(x.op + "." + name)
		case p.peek(0) == "(" && len(x.kids) == 0 && c09Letter(x.op[0]) && !strings.HasPrefix(x.op, "lit ") && t != "(":
			x = p.call(x.op)
		default:
			return x
		}
	}
}

// method is a call of a method of Kotlin's numbers.
func (p *c09Parser) method(x *c09Node, name string) *c09Node {
	a := p.args()
	switch {
	case name == "inv" && len(a) == 0:
		return c09N("~", x)
	case name == "pow" && len(a) == 1:
		return c09N("**", x, a[0])
	case strings.HasPrefix(name, "to") && len(a) == 0 && c09IsType("kotlin", name[2:]):
		return c09N("cast "+name[2:], x)
	}
	return c09N("call "+name, append([]*c09Node{x}, a...)...)
}

// c09Unary is how tightly unary operators bind.
func c09Unary(lang string) int {
	switch lang {
	case "schema":
		return 12
	case "python":
		return 11
	}
	return 11
}

func (p *c09Parser) unary() *c09Node {
	t := p.peek(0)
	switch t {
	case "-", "+":
		if p.lang == "schema" && p.peek(1) != "" && c09Digit(p.peek(1)[0]) {
			// the sign of a constant
			p.next()
			x := p.primary()
			if t == "-" {
				x = c09Minus(x)
			}
			return x
		}
		p.next()
		x := p.binary(c09Unary(p.lang))
		if t == "-" {
			return c09Minus(x)
		}
		return c09N("u+", x)
	case "!", "~":
		p.next()
		return c09N(t, p.binary(c09Unary(p.lang)))
	case "^":
		if p.lang == "go" {
			p.next()
			return c09N("~", p.binary(c09Unary(p.lang)))
		}
	case "not":
		if p.lang == "python" {
			p.next()
			return c09N("!", p.binary(3))
		}
	case "(":
		switch p.lang {
		case "schema", "c", "cpp", "csharp", "java":
			if c09IsType(p.lang, p.peek(1)) && p.peek(2) == ")" {
				ty := p.peek(1)
				p.pos += 3
				// a cast of the schema language binds less tightly than its unary operators
				return c09N("cast "+ty, p.binary(11))
			}
		}
	}
	return p.primary()
}

// binary parses operators that bind at least as tightly as min.
func (p *c09Parser) binary(min int) *c09Node {
	signed := p.peek(0) == "-" || p.peek(0) == "+" || p.peek(0) == "!" || p.peek(0) == "~" || p.peek(0) == "not"
	x := p.unary()
	compared := false
	for p.bad == "" {
		op := p.peek(0)
		l := c09Level(p.lang, op)
		if l == 0 || l < min {
			return x
		}
		p.next()
		rel := l == c09Level(p.lang, "==") || l == c09Level(p.lang, "<")
		switch {
		case op == "**" && p.lang == "python":
			x = c09N("**", x, p.binary(11)) // to the right, and before the sign on the left
			continue
		case op == "**" && p.lang != "schema":
			if signed {
				p.bad = "a sign before **"
			}
			x = c09N("**", x, p.binary(l))
			continue
		case rel && compared && (p.lang == "python" || p.lang == "go"):
			p.bad = "a chain of comparisons"
		case rel && compared && p.lang == "kotlin" && l == 7:
			p.bad = "a chain of comparisons"
		}
		compared = compared || rel
		y := p.binary(l + 1)
		x = c09N(c09Schema(p.lang, op), x, y)
		signed = false
	}
	return x
}

func (p *c09Parser) expr() *c09Node {
	x := p.binary(1)
	switch {
	case p.lang == "python" && p.peek(0) == "if":
		p.next()
		cond := p.binary(1)
		p.want("else")
		return c09N("?:", cond, x, p.expr())
	case p.lang == "schema":
		// the grammar groups conditionals to the left
		for p.bad == "" && p.peek(0) == "?" {
			p.next()
			a := p.expr()
			p.want(":")
			x = c09N("?:", x, a, p.binary(1))
		}
	case p.peek(0) == "?" && p.lang != "python" && p.lang != "go" && p.lang != "kotlin":
		p.next()
		a := p.expr()
		p.want(":")
		return c09N("?:", x, a, p.expr())
	}
	return x
}

// c09Parse reads a text as an expression of a language.
func c09Parse(lang, text string) (*c09Node, string) {
	p := &c09Parser{lang: lang, toks: c09Tokens(lang, text)}
	x := p.expr()
	if p.bad == "" && p.pos != len(p.toks) {
		p.bad = "goes on with " + p.peek(0)
	}
	return x, p.bad
}

// c09To is what an expression of the schema language is in a target: the same
// operators on the same operands, and the types of the target in its casts.
func c09To(target string, n *c09Node, value string) *c09Node {
	if n.op == "value" && len(n.kids) == 0 {
		return c09N(value)
	}
	var kids []*c09Node
	for _, k := range n.kids {
		kids = append(kids, c09To(target, k, value))
	}
	if strings.HasPrefix(n.op, "cast ") {
		return c09Cast(target, n.op[5:], kids[0])
	}
	return c09N(n.op, kids...)
}

// c09Cast is a cast to a basic type in a target.
func c09Cast(target, basic string, x *c09Node) *c09Node {
	t := c09Type(target, basic)
	if target == "kotlin" {
		switch t {
		case "Boolean":
			return c09N("!=", x, c09N("lit 0"))
		case "UByte", "UShort":
			return c09N("cast "+t, c09N("cast UInt", x))
		case "Byte", "Short":
			return c09N("cast "+t, c09N("cast Int", x))
		}
	}
	return c09N("cast "+t, x)
}

// c09Plain drops what a target has to write around operands: the types of
// Kotlin's shift counts and powers, and the type of a conditional in Go.
func c09Plain(target string, n *c09Node) *c09Node {
	var kids []*c09Node
	for _, k := range n.kids {
		kids = append(kids, c09Plain(target, k))
	}
	op := n.op
	if target == "go" && strings.HasPrefix(op, "?: ") {
		op = "?:"
	}
	if target == "kotlin" && len(kids) == 2 {
		switch op {
		case "<<", ">>":
			for kids[1].op == "cast Int" {
				kids[1] = kids[1].kids[0]
			}
		case "**":
			for i := range kids {
				for kids[i].op == "cast Double" {
					kids[i] = kids[i].kids[0]
				}
			}
		}
	}
	if op == "u-" {
		return c09Minus(kids[0])
	}
	return c09N(op, kids...)
}

func c09Last(name string) string {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		name = name[i+1:]
	}
	return strings.ToLower(strings.ReplaceAll(name, "_", ""))
}

// ---------------------------------------------------------------- printing

func c09Printer(target string) func(definition.Expr) (string, error) {
	switch target {
	case "c":
		return c.NewCExprGenerator(c.NewCGenerator().GenerateType, "val", c.NewCGeneratorState()).GenerateExpr
	case "cpp":
		return cpp.NewCppExprGenerator(cpp.NewCppGenerator().GenerateType, "val", cpp.NewCppGeneratorState()).GenerateExpr
	case "csharp":
		return csharp.NewCSharpExprGenerator(csharp.NewCSharpGenerator().GenerateType, "val").GenerateExpr
	case "java":
		return java.NewJavaExprGenerator(java.NewJavaGenerator().GenerateType, "val").GenerateExpr
	case "go":
		return golang.NewGoExprGenerator(golang.NewGoGenerator().GenerateType, "val", golang.NewGoGeneratorState()).GenerateExpr
	case "cjs":
		return commonjs.NewCommonJSExprGenerator(commonjs.NewCommonJSGenerator().GenerateType, "val").GenerateExpr
	case "esm":
		return esm.NewESModuleExprGenerator(esm.NewESModuleGenerator().GenerateType, "val").GenerateExpr
	case "python":
		return python.NewPythonExprGenerator(python.NewPythonGenerator().GenerateType, "val").GenerateExpr
	}
	g := kotlin.NewKotlinGenerator()
	g.GenCtx = &gen.GenCtx{GenOptions: gen.NewGenOptions()}
	return func(e definition.Expr) (string, error) { return g.VExpr(e, "val") }
}

func c09Ops(s string) definition.ExprOp {
	for op := definition.ExprOp_ADD; op <= definition.ExprOp_BNOT; op++ {
		if op.String() == s {
			return op
		}
	}
	panic("no operator " + s)
}

func c09Basic(s string) *definition.BasicType {
	for i, n := range c09Basics {
		if n == s {
			return definition.GetBasicType(definition.TypeID_Bool + definition.TypeID(i))
		}
	}
	panic("no type " + s)
}

// c09Tight tells whether a text stands for one operand wherever it is put:
// something primary, or what binds as tightly as a cast.
func c09Tight(target, text string) bool {
	// it has to be read as one operand after and before any operator
	for _, t := range []string{"- " + text, "xx * " + text, text + " * xx", "xx - " + text, text + " < xx"} {
		x, bad := c09Parse(target, t)
		if bad != "" {
			return false
		}
		if t[0] == '-' {
			if !strings.HasPrefix(x.op, "lit ") && (x.op != "u-" || len(x.kids) != 1) {
				return false
			}
		} else if len(x.kids) != 2 || x.kids[0].op != "xx" && x.kids[1].op != "xx" {
			return false
		}
	}
	return true
}

// The text of every node, with texts for its operands that stand for any
// operand, is read in the target as that node and is itself such a text. By
// induction the text of an expression is read as the expression.
func c09Print(target string) {
	print := c09Printer(target)
	shapes := []string{"aa", "bb", "cc"}
	if vs.Bool("cast operands") {
		t := c09Type(target, "int8")
		switch target {
		case "c", "cpp", "csharp", "java":
			shapes = []string{"(" + t + ")aa", "(" + t + ")bb", "(" + t + ")cc"}
		case "kotlin":
			shapes = []string{"(aa).toInt().toByte()", "(bb).toInt().toByte()", "(cc).toInt().toByte()"}
		default:
			shapes = []string{t + "(aa)", t + "(bb)", t + "(cc)"}
		}
	}
	var raw []definition.Expr
	var tree []*c09Node
	for _, s := range shapes {
		raw = append(raw, &definition.RawExpr{Expr: s, ExprType: c09Basic("int8")})
		x, bad := c09Parse(target, s)
		vs.Assert("operands are read", bad == "")
		tree = append(tree, x)
	}
	var e definition.Expr
	var want *c09Node
	switch vs.Choose("kind", 7) {
	case 0:
		op := vs.Pick("op", "+", "-", "~", "!")
		e = &definition.UnopExpr{Op: c09Ops(op), Expr1: raw[0]}
		switch op {
		case "+", "-":
			op = "u" + op
		}
		want = c09N(op, tree[0])
	case 1:
		op := vs.Pick("op", "**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||")
		e = &definition.BinopExpr{Op: c09Ops(op), Expr1: raw[0], Expr2: raw[1]}
		want = c09N(op, tree[0], tree[1])
	case 2:
		t := vs.Pick("type", c09Basics...)
		e = &definition.CastExpr{ToType: c09Basic(t), Expr1: raw[0]}
		want = c09Cast(target, t, tree[0])
	case 3:
		e = &definition.TenaryExpr{Cond: raw[0], Expr1: raw[1], Expr2: raw[2]}
		want = c09N("?:", tree[0], tree[1], tree[2])
	case 4:
		n := []int64{0, 1, -1, 10, -10, 255, -128, 2147483647, -2147483647, 65536}[vs.Choose("n", 10)]
		e = &definition.ConstantExpr{ConstantValue: &definition.IntLiteral{IntValue: n, Base: definition.IntBase(vs.Choose("base", 3))}}
		want = c09N("lit " + strconv.FormatInt(n, 10))
	case 5:
		b := vs.Bool("b")
		e = &definition.ConstantExpr{ConstantType: &definition.Bool, ConstantValue: &definition.BoolLiteral{BoolValue: b}}
		want = c09N("false")
		if b {
			want = c09N("true")
		}
	case 6:
		e = &definition.ValueExpr{}
		want = c09N("val")
	}
	text, err := print(e)
	vs.Assert("written", err == nil)
	x, bad := c09Parse(target, text)
	vs.Assert("is an expression of the target", bad == "")
	vs.Assert("is the expression of the schema", c09Plain(target, x).String() == c09Plain(target, want).String())
	vs.Assert("is one operand", c09Tight(target, text))
}

func Verify_C09_C()        { c09Print("c") }
func Verify_C09_Cpp()      { c09Print("cpp") }
func Verify_C09_CSharp()   { c09Print("csharp") }
func Verify_C09_Java()     { c09Print("java") }
func Verify_C09_Go()       { c09Print("go") }
func Verify_C09_CommonJS() { c09Print("cjs") }
func Verify_C09_ESM()      { c09Print("esm") }
func Verify_C09_Python()   { c09Print("python") }
func Verify_C09_Kotlin()   { c09Print("kotlin") }

// ---------------------------------------------------------------- whole runs

func c09Literal() string {
	return []string{"0", "1", "2", "10", "0x1F", "017", "255", "1.5", "0.25", "1e3", "true", "false", "1000000", "4294967296"}[vs.Choose("literal", 14)]
}

func c09Space() string { return vs.Pick("space", "", " ", " ", "  ") }

// c09Expr is any expression of the schema language.
func c09Expr(d int) string {
	k := vs.Choose("k", 12)
	if d <= 0 {
		k = vs.Choose("leaf", 3)
	}
	switch k {
	case 0:
		return "value"
	case 1:
		return c09Literal()
	case 2:
		return vs.Pick("sign", "-", "+") + c09Space() + c09Literal2()
	case 3, 4:
		return "(" + c09Space() + c09Expr(d-1) + c09Space() + ")"
	case 5:
		return vs.Pick("unary", "-", "+", "~", "!") + c09Space() + c09Expr(d-1)
	case 6:
		return "(" + vs.Pick("type", c09Basics...) + ")" + c09Space() + c09Expr(d-1)
	case 7:
		return c09Expr(d-1) + " ? " + c09Expr(d-1) + " : " + c09Expr(d-1)
	}
	return c09Expr(d-1) + c09Space() + vs.Pick("op", c09Binary...) + c09Space() + c09Expr(d-1)
}

func c09Literal2() string {
	return vs.Pick("number", "0", "1", "10", "0x10", "2.5")
}

var c09Binary = []string{"**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||"}

// c09Code is the generated text without comments.
func c09Code(target string, files map[string]string) string {
	text := ""
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		text += files[n] + "\n"
	}
	if target == "python" {
		return regexp.MustCompile(`(?m)^\s*#[^\n]*`).ReplaceAllString(text, "")
	}
	return regexp.MustCompile(`(?s)//[^\n]*|/\*.*?\*/`).ReplaceAllString(text, "")
}

func c09Name(name string) string {
	return `(?is)\w*` + strings.ReplaceAll(name, "_", "_?") + `\b`
}

// c09Getter is the expression that the getter returns.
func c09Getter(target, code, name string) (string, bool) {
	m := regexp.MustCompile(c09Name(name) + `[^;=]*?(?:return\b|=>|get\(\)\s*=)\s*(.*?)\s*(?:;|\n)`).FindStringSubmatch(code)
	if m == nil {
		return "", false
	}
	return m[1], true
}

// c09Setter is what the setter assigns, and to what.
func c09Setter(target, code, name string) (string, string, bool) {
	re := c09Name(name) + `[^;=]*?(?:set =>\s*)?([\w.]+(?:->\w+)?) = (.*?)\s*(?:;|\n)`
	if target == "cjs" || target == "csharp" {
		re = c09Name(name) + `.*?\bset\b.*?([\w.]+) = (.*?)\s*(?:;|\n)`
	}
	if target == "kotlin" {
		re = c09Name(name) + `[^;]*?set\(\w+\)\s*\{\s*([\w.]+) = (.*?)\s*(?:;|\n)`
	}
	m := regexp.MustCompile(re).FindStringSubmatch(code)
	if m == nil {
		return "", "", false
	}
	return m[1], m[2], true
}

// c09Value replaces the names in an expression that stand for the value.
func c09Value(n *c09Node, is func(name string) bool) *c09Node {
	if len(n.kids) == 0 {
		if is(n.op) {
			return c09N("value")
		}
		return n
	}
	var kids []*c09Node
	for _, k := range n.kids {
		kids = append(kids, c09Value(k, is))
	}
	return c09N(n.op, kids...)
}

// c09Check compares an expression of the generated text with that of the schema.
func c09Check(target, schema, got string, is func(string) bool) {
	want, bad := c09Parse("schema", schema)
	vs.Assert("the schema's grammar is understood", bad == "")
	x, bad := c09Parse(target, got)
	vs.Note("generated", got)
	vs.Assert("is an expression of the target", bad == "")
	a := c09Plain(target, c09Value(x, is)).String()
	b := c09Plain(target, c09To(target, want, "value")).String()
	vs.Assert("is the expression of the schema", a == b)
}

func c09Field(name string) func(string) bool {
	return func(s string) bool {
		return strings.Contains(s, ".") && !strings.HasPrefix(s, "lit ") && c09Last(s) == strings.ReplaceAll(name, "_", "")
	}
}

func c09Param(s string) bool { return s == "value" }

func c09One(kind, expr string) {
	target := vs.Pick("target", c09Targets...)
	method := kind + " zq_a(" + vs.Pick("accessor type", c09Basics...) + "): " + expr + ";"
	if kind == "set" && target == "kotlin" {
		method = "get" + strings.TrimPrefix(method[:strings.Index(method, ":")], "set") + ": value; " + method
	}
	schema := `package p.q; option go_package = "example.com/p"; struct S { uint8 pre; ` + vs.Pick("field type", c09Basics...) + " f_q { " + method + " }; uint8 post; };"
	vs.Note("schema", schema)
	if _, bad := c09Parse("schema", expr); bad != "" {
		vs.Assert("the schema's grammar is understood", false)
	}
	files, err := vGenerate(map[string]string{"main.bb": schema}, target, vOptions()...)
	if err != nil {
		// Go's conditional expressions need a type
		vs.Note("error", err.Error())
		vs.Assert("accepted", target == "go" && strings.Contains(expr, "?"))
		return
	}
	code := c09Code(target, files)
	if kind == "get" {
		got, ok := c09Getter(target, code, "zq_a")
		vs.Assert("there is a getter", ok)
		c09Check(target, expr, got, c09Field("f_q"))
		return
	}
	to, got, ok := c09Setter(target, code, "zq_a")
	vs.Assert("there is a setter", ok)
	vs.Assert("it sets the field", c09Field("f_q")(strings.ReplaceAll(to, "->", ".")))
	c09Check(target, expr, got, c09Param)
}

func Search_C09_Getter() {
	if vs.Symbolic() {
		return
	}
	c09One("get", c09Expr(vs.Choose("depth", 5)))
}

func Search_C09_Setter() {
	if vs.Symbolic() {
		return
	}
	c09One("set", c09Expr(vs.Choose("depth", 5)))
}

// Every operator beside every other one.
func Search_C09_Pairs() {
	if vs.Symbolic() {
		return
	}
	ops := append([]string{"?"}, c09Binary...)
	one := func(name, a, b string) string {
		op := vs.Pick(name, ops...)
		if op == "?" {
			return a + " ? 3 : " + b
		}
		return a + " " + op + " " + b
	}
	pre := func(name string) string {
		return vs.Pick(name, "", "", "-", "~", "!", "+", "(int16) ", "- (uint8) ")
	}
	e := pre("p1") + "value"
	switch vs.Choose("form", 3) {
	case 0:
		e = one("op2", one("op1", e, pre("p2")+"7"), pre("p3")+"value")
	case 1:
		e = one("op2", "("+one("op1", e, pre("p2")+"7")+")", pre("p3")+"value")
	case 2:
		e = one("op2", e, pre("p3")+"("+one("op1", pre("p2")+"7", "value")+")")
	}
	c09One(vs.Pick("kind", "get", "set"), e)
}

// Every accessor has its own expression and its own field.
func Search_C09_Several() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", c09Targets...)
	type acc struct{ kind, field, name, expr string }
	var accs []acc
	schema := `package p.q; option go_package = "example.com/p"; struct S { `
	emb := vs.Choose("embedded", 4)
	for i := 0; i < 3; i++ {
		f := "f_" + string(rune('a'+i))
		methods := ""
		for j := 0; j < 1+vs.Choose("accessors", 3); j++ {
			n := "zq_" + string(rune('a'+i)) + string(rune('a'+j))
			t := vs.Pick("type", c09Basics[1:]...)
			kind := vs.Choose("kind", 3)
			if kind != 1 || target == "kotlin" {
				e := "value + " + strconv.Itoa(10*i+j+100)
				methods += "get " + n + "(" + t + "): " + e + "; "
				accs = append(accs, acc{"get", f, n, e})
			}
			if kind != 0 {
				e := "value - " + strconv.Itoa(10*i+j+200)
				methods += "set " + n + "(" + t + "): " + e + "; "
				accs = append(accs, acc{"set", f, n, e})
			}
		}
		field := "uint16 " + f + " { " + methods + " }; "
		if emb == i {
			field = "struct Emb { " + field + "}; "
		}
		schema += field
	}
	schema += "};"
	vs.Note("schema", schema)
	files, err := vGenerate(map[string]string{"main.bb": schema}, target, vOptions()...)
	vs.Assert("accepted", err == nil)
	code := c09Code(target, files)
	for _, a := range accs {
		vs.Note("accessor", a.kind+" "+a.name)
		if a.kind == "get" {
			got, ok := c09Getter(target, code, a.name)
			vs.Assert("there is a getter", ok)
			c09Check(target, a.expr, got, c09Field(a.field))
		} else {
			to, got, ok := c09Setter(target, code, a.name)
			vs.Assert("there is a setter", ok)
			vs.Assert("it sets its field", c09Field(a.field)(strings.ReplaceAll(to, "->", ".")))
			c09Check(target, a.expr, got, c09Param)
		}
	}
}

// c09Kind is whether an expression of JavaScript is a BigInt ("big"), another
// value ("num"), or cannot be computed ("mixed").
func c09Kind(n *c09Node, value string) string {
	var k []string
	for _, x := range n.kids {
		k = append(k, c09Kind(x, value))
		if k[len(k)-1] == "mixed" {
			return "mixed"
		}
	}
	switch {
	case n.op == "value":
		return value
	case n.op == "cast BigInt":
		return "big"
	case len(k) == 0:
		return "num"
	}
	switch n.op {
	case "u+":
		if k[0] == "big" {
			return "mixed"
		}
	case "u-", "~":
		return k[0]
	case "**", "*", "/", "%", "+", "-", "<<", ">>", "&", "|", "^":
		if k[0] != k[1] {
			return "mixed"
		}
		return k[0]
	case "?:":
		if k[1] == k[2] {
			return k[1]
		}
		return "num"
	}
	return "num"
}

// JavaScript computes nothing from a BigInt and a Number.
func Search_C09_BigInt() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", "cjs", "esm")
	op := vs.Pick("op", "+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^")
	e := vs.Pick("expr", "value "+op+" 1", "value "+op+" value", "(uint64) value "+op+" value", "(uint8) value "+op+" 1")
	t := vs.Pick("field", "uint8", "int64", "uint64", "float64")
	schema := `package p; struct S { ` + t + ` f_q { get zq_a(int64): ` + e + `; }; };`
	vs.Note("schema", schema)
	files, err := vGenerate(map[string]string{"main.bb": schema}, target)
	vs.Assert("accepted", err == nil)
	got, ok := c09Getter(target, c09Code(target, files), "zq_a")
	vs.Assert("there is a getter", ok)
	x, bad := c09Parse(target, got)
	vs.Assert("is an expression of the target", bad == "")
	kind := "num"
	if strings.HasSuffix(t, "64") && t != "float64" {
		kind = "big"
	}
	want, _ := c09Parse("schema", e)
	can := c09Kind(c09Value(x, c09Field("f_q")), kind) != "mixed"
	if c09Kind(c09To(target, want, "value"), kind) == "mixed" {
		vs.Assert(target+": an operator of a 64-bit and another integer is computed", can)
	} else {
		vs.Assert(target+": no operator has a BigInt and a Number", can)
	}
}

// c09Fraction tells whether a number has a fraction or an exponent.
func c09Fraction(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '.' || s[i] == 'e' {
			return true
		}
	}
	return false
}

// c09Small is the value of a short literal of an integer.
func c09Small(s string) (int64, bool) {
	base, n := int64(10), int64(0)
	if strings.HasPrefix(s, "0x") {
		base, s = 16, s[2:]
	} else if strings.HasPrefix(s, "0") {
		base = 8
	}
	if len(s) > 15 || len(s) == 0 {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		d := int64(16)
		switch {
		case c09Digit(s[i]):
			d = int64(s[i] - '0')
		case s[i] >= 'a' && s[i] <= 'f':
			d = int64(s[i]-'a') + 10
		}
		if d >= base {
			return 0, false
		}
		n = n*base + d
	}
	return n, true
}

// Every integer is written in an expression as a literal of its value, which
// keeps its sign to itself.
func c09Constant(target string) {
	n := vs.Int("value", -math.MaxInt64, math.MaxInt64)
	lit := &definition.IntLiteral{IntValue: n, Base: definition.IntBase(vs.Choose("base", 4))}
	text, err := c09Printer(target)(&definition.ConstantExpr{ConstantValue: lit, ConstantType: c09Basic(vs.Pick("type", "int32", "int64"))})
	vs.Assert("written", err == nil)
	mag, open, end := uint64(n), "", ""
	if n < 0 {
		mag, open, end = uint64(-n), "(-", ")"
	}
	ok := false
	for _, suffix := range []string{"", "L", "n"} {
		is := func(prefix, verb string) bool { return text == open+prefix+vs.Digits(mag, verb)+suffix+end }
		ok = vs.Or(ok, vs.Or(vs.Or(is("", "d"), is("0b", "b")), vs.Or(is("0x", "x"), is("0x", "X"))))
	}
	vs.Assert("is the constant", ok)
}

func Verify_C09_Constant_C()        { c09Constant("c") }
func Verify_C09_Constant_Cpp()      { c09Constant("cpp") }
func Verify_C09_Constant_CSharp()   { c09Constant("csharp") }
func Verify_C09_Constant_Java()     { c09Constant("java") }
func Verify_C09_Constant_Go()       { c09Constant("go") }
func Verify_C09_Constant_CommonJS() { c09Constant("cjs") }
func Verify_C09_Constant_ESM()      { c09Constant("esm") }
func Verify_C09_Constant_Python()   { c09Constant("python") }
func Verify_C09_Constant_Kotlin()   { c09Constant("kotlin") }
