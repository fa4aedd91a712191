package verifspec

import (
	"fmt"
	"strings"
)

// Grammar writes schemas by the grammar of the language; every step is a choice.
type Grammar struct {
	Name    string
	Expr    bool // with accessor expressions
	Small   bool // no large numbers that are accepted
	step    int
	names   int
	structs []string
	enums   []string
	values  []string
}

func (g *Grammar) n(k int) int {
	g.step++
	return Choose(fmt.Sprint(g.Name, g.step), k)
}

func (g *Grammar) pick(s ...string) string { return s[g.n(len(s))] }

// some is true once in k.
func (g *Grammar) some(k int) bool { return g.n(k) == k-1 }

func (g *Grammar) fresh(prefix string) string {
	if g.some(25) {
		return g.pick("a", "A", "value_", "int", "class", "x1", "S", "E", "_", "Aa", "aA", "a_", "size", "encode")
	}
	g.names++
	return fmt.Sprint(prefix, g.names)
}

func (g *Grammar) Int() string {
	switch g.n(12) {
	case 0:
		return g.pick("0", "65", "0x40", "64", "128", "255", "1000")
	case 1:
		if g.Small {
			return g.pick("9223372036854775808", "99999999999999999999", "2000")
		}
		return g.pick("9223372036854775807", "1152921504606846976", "1152921504606846975", "2305843009213693952", "4611686018427387904", "2147483647", "2147483648", "4294967296", "9223372036854775808", "99999999999999999999", "0x7fffffffffffffff", "0777777777777777777777", "288230376151711744")
	case 2, 3, 4:
		return g.pick("8", "16", "32", "64")
	}
	return fmt.Sprint(1 + g.n(33))
}

func (g *Grammar) size() string {
	switch g.n(5) {
	case 0:
		return "[" + g.Int() + "]"
	case 1:
		return "[" + g.Int() + "#" + g.Int() + "]"
	}
	return "[#" + g.Int() + "]"
}

func (g *Grammar) constant() string {
	switch g.n(8) {
	case 0:
		return g.pick("-", "+", "") + g.pick("1.5", "0.1", "1e10", ".5", "3.", "inf", "nan", "1e400", "2e-320", "0.0")
	case 1:
		return g.pick(`"x"`, `''`, `"\x00\101\n"`, `"a\"b"`, "'\"'")
	case 2:
		return g.pick("true", "false")
	}
	return g.pick("", "-", "+", "") + g.Int()
}

func (g *Grammar) basic() string {
	return g.pick("bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64")
}

func (g *Grammar) expr(d int) string {
	if d == 0 {
		if g.some(3) {
			return g.constant()
		}
		return "value"
	}
	switch g.n(7) {
	case 0:
		return "(" + g.expr(d-1) + ")"
	case 1:
		return g.pick("-", "+", "~", "!") + g.expr(d-1)
	case 2:
		return "(" + g.basic() + ")" + g.expr(d-1)
	case 3:
		if g.some(3) {
			return g.expr(d-1) + " ? " + g.expr(d-1) + " : " + g.expr(d-1)
		}
	}
	return g.expr(d-1) + " " + g.pick("**", "*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|", "&&", "||") + " " + g.expr(d-1)
}

func (g *Grammar) element() string {
	switch g.n(8) {
	case 0:
		return g.pick("string", "bytes")
	case 1:
		if len(g.structs) > 0 {
			return g.pick("", "", "struct ") + g.structs[g.n(len(g.structs))]
		}
	case 2:
		if len(g.enums) > 0 {
			return g.pick("", "", "enum ") + g.enums[g.n(len(g.enums))]
		}
	case 3:
		if g.some(8) {
			return g.fresh("Nn")
		}
	}
	return g.basic()
}

func (g *Grammar) options() string {
	if !g.some(6) {
		return ""
	}
	o := g.pick("order", "order", "order", "Order", "x") + "=" + g.pick(`"big"`, `"little"`, `"big"`, `"bigg"`, g.constant())
	if g.some(5) {
		o += ", order=\"big\""
	}
	return " [" + o + "]"
}

func (g *Grammar) methods() string {
	if !g.Expr || !g.some(3) {
		return ""
	}
	s := " {"
	for i := 0; i <= g.n(2); i++ {
		name := ""
		if g.n(3) > 0 {
			name = " " + g.fresh("m")
		}
		s += " " + g.pick("get", "set") + name + "(" + g.basic() + "): " + g.expr(g.n(4)) + ";"
	}
	return s + " }"
}

func (g *Grammar) field(d int) string {
	switch g.n(10) {
	case 0:
		return "void " + g.size() + g.options() + ";"
	case 1:
		name := ""
		if g.n(3) > 0 {
			name = " " + g.fresh("k")
		}
		sz := ""
		if g.some(2) {
			sz = g.size()
		}
		v := g.constant()
		if len(g.values) > 0 && g.some(3) {
			v = g.values[g.n(len(g.values))]
		}
		return g.basic() + name + sz + " = " + v + g.options() + ";"
	case 2:
		if d > 0 && g.some(2) {
			t := g.structure(d - 1)
			if g.some(2) {
				return t + g.options() + ";"
			}
			return t + " " + g.fresh("f") + g.methods() + ";"
		}
		if len(g.structs) > 0 {
			return g.structs[g.n(len(g.structs))] + g.options() + ";"
		}
	case 3:
		if g.some(10) {
			return g.element() + ";"
		}
	}
	t := g.element()
	if g.some(4) {
		t += "<" + g.Int() + ">"
	}
	sz := ""
	if g.some(4) {
		sz = g.size()
	}
	return t + " " + g.fresh("f") + sz + g.options() + g.methods() + ";"
}

func (g *Grammar) structure(d int) string {
	name := g.fresh("Ss")
	sz := ""
	if g.some(6) {
		sz = g.size()
	}
	b := ""
	bits := g.n(5)
	for i := 0; i < bits; i++ {
		b += " " + g.field(d)
	}
	g.structs = append(g.structs, name)
	if g.some(30) {
		b += ";"
	}
	return "struct " + name + sz + " {" + b + " }"
}

func (g *Grammar) enum() string {
	name := g.fresh("En")
	b := ""
	k := g.n(4)
	for i := 0; i < k; i++ {
		v := g.fresh("V")
		b += " " + v
		switch g.n(6) {
		case 0:
			b += " = " + g.constant()
		case 1:
			if len(g.values) > 0 {
				b += " = " + g.values[g.n(len(g.values))]
			}
		}
		if g.some(20) {
			b += "[x=1]"
		}
		b += g.pick(",", ";")
		g.values = append(g.values, v)
	}
	g.enums = append(g.enums, name)
	return "enum " + name + g.size() + " {" + b + " }"
}

// Schema is a schema of up to four definitions.
func (g *Grammar) Schema() string {
	b := ""
	if !g.some(20) {
		b = "package " + g.pick("p", "p.q", "a.b.c") + "; "
	}
	if g.n(3) > 0 {
		b += `option go_package = "example.com/p"; `
	}
	if g.some(8) {
		b += "option " + g.pick("java_package", "csharp_namespace", "cpp_namespace", "zz", "go_package", "c_prefix") + " = " + g.constant() + "; "
	}
	k := 1 + g.n(3)
	for i := 0; i < k; i++ {
		if g.some(3) {
			b += g.enum() + "; "
		} else {
			b += g.structure(2) + "; "
		}
	}
	return b
}

// Tokens is a text of up to max tokens of the language, in any order.
func (g *Grammar) Tokens(max int) string {
	all := strings.Fields(`import package option struct enum void bool int8 uint64 float32 string bytes get set value { } [ ] ( ) < > <= == ; = ? : , . # + - * ** / ~ ! & && "a" 'b' true inf 1 0x10 08 1.5 1e3 a B Ss En $ @ " // /* \`)
	s := ""
	for i := g.n(max + 1); i > 0; i-- {
		s += all[g.n(len(all))] + " "
	}
	return s
}

// Damage deletes, doubles or replaces one stretch of a text.
func (g *Grammar) Damage(s string) string {
	t := strings.Fields(s)
	if len(t) == 0 {
		return s
	}
	i := g.n(len(t))
	switch g.n(4) {
	case 0:
		t = append(t[:i:i], t[i+1:]...)
	case 1:
		t = append(t[:i+1:i+1], t[i:]...)
	case 2:
		t[i] = g.Tokens(1)
	case 3:
		t = t[:i]
	}
	return strings.Join(t, " ")
}
