package gcv

import (
	"fmt"
	"math/big"
	"strings"
)

type parser struct {
	t     []tok
	p     int
	d     Dialect
	m     *Module
	types map[string]bool // names known to be types (for casts)
	end   int
}

func (p *parser) fail(f string, a ...any) {
	t := p.t[p.p]
	panic(synErr{fmt.Sprintf("line %d near %q: %s", t.line, t.s, fmt.Sprintf(f, a...))})
}
func (p *parser) tk() tok {
	if p.p >= p.end {
		return tok{k: 'e', nl: true}
	}
	return p.t[p.p]
}
func (p *parser) at(n int) tok {
	if p.p+n >= p.end {
		return tok{k: 'e', nl: true}
	}
	return p.t[p.p+n]
}
func (p *parser) is(s string) bool {
	t := p.tk()
	return (t.k == 'p' || t.k == 'i') && t.s == s
}
func (p *parser) isAt(n int, s string) bool {
	t := p.at(n)
	return (t.k == 'p' || t.k == 'i') && t.s == s
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) ident() string {
	t := p.tk()
	if t.k != 'i' {
		p.fail("identifier expected")
	}
	p.p++
	return t.s
}

// accGT consumes one '>' possibly splitting '>>'.
func (p *parser) accGT() bool {
	t := p.tk()
	if t.k == 'p' && len(t.s) >= 1 && t.s[0] == '>' {
		if t.s == ">" {
			p.p++
			return true
		}
		nt := t
		nt.s = t.s[1:]
		cp := append([]tok{}, p.t[:p.p]...)
		cp = append(cp, tok{'p', ">", t.nl, t.line}, nt)
		cp = append(cp, p.t[p.p+1:]...)
		p.t = cp
		p.end++
		p.p++
		return true
	}
	return false
}

// skipBal skips a balanced group starting at an opening bracket.
func (p *parser) skipBal() {
	depth := 0
	for {
		t := p.tk()
		if t.k == 'e' {
			p.fail("unbalanced")
		}
		if t.k == 'p' {
			switch t.s {
			case "(", "[", "{":
				depth++
			case ")", "]", "}":
				depth--
			}
		}
		p.p++
		if depth == 0 {
			return
		}
	}
}

var primTypes = map[Dialect]map[string]bool{
	DC:    set("uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t bool char int long unsigned signed short float double void size_t uintptr_t"),
	DCpp:  set("uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t int64_t bool char int long unsigned signed short float double void auto size_t uintptr_t"),
	DJava: set("byte short int long boolean char float double void"),
	DCs:   set("byte sbyte short ushort int uint long ulong bool char float double void string object var"),
	DJs:   {},
	DKt:   {},
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

var typeQual = set("const struct enum static constexpr volatile inline extern class final unsigned signed ref out typename")

// parseType parses a type; it returns nil (position restored) when there is none.
func (p *parser) parseType() *Ty {
	save, saveT, saveE := p.p, p.t, p.end
	t := p.parseType1()
	if t == nil {
		p.p, p.t, p.end = save, saveT, saveE
	}
	return t
}
func (p *parser) parseType1() *Ty {
	uns := false
	for p.tk().k == 'i' && typeQual[p.tk().s] && (p.d == DC || p.d == DCpp || p.d == DJava && p.tk().s == "final" || p.d == DCs && set("const ref out")[p.tk().s]) {
		if p.tk().s == "unsigned" {
			uns = true
		}
		p.p++
	}
	if p.d == DCpp {
		p.acc("::")
	}
	if p.tk().k != 'i' {
		if uns {
			return &Ty{K: "n", N: "unsigned int"}
		}
		return nil
	}
	name := p.ident()
	if uns {
		name = "unsigned " + name
	}
	if (name == "long" || name == "unsigned long") && p.is("long") {
		p.p++
	}
	if (name == "long" || name == "short" || name == "unsigned long") && p.is("int") {
		p.p++
	}
	for {
		if p.d == DCpp && p.is("::") && p.at(1).k == 'i' {
			p.p++
			name += "::" + p.ident()
			continue
		}
		if (p.d == DJava || p.d == DCs || p.d == DKt) && p.is(".") && p.at(1).k == 'i' {
			p.p++
			name += "." + p.ident()
			continue
		}
		break
	}
	ty := &Ty{K: "n", N: name}
	if p.is("<") && p.d != DC {
		p.p++
		for !p.accGT() {
			if p.acc("*") || p.acc("?") {
				continue
			}
			a := p.parseType1()
			if a == nil {
				return nil
			}
			ty.A = append(ty.A, a)
			if !p.acc(",") && !(p.tk().k == 'p' && strings.HasPrefix(p.tk().s, ">")) {
				return nil
			}
		}
	}
	for {
		switch {
		case p.is("*") && (p.d == DC || p.d == DCpp):
			p.p++
			ty = &Ty{K: "p", E: ty}
		case (p.is("&") || p.is("&&")) && p.d == DCpp:
			p.p++
			ty = &Ty{K: "r", E: ty}
		case (p.is("const") || p.is("volatile")) && (p.d == DC || p.d == DCpp):
			p.p++
		case p.is("[") && p.isAt(1, "]") && (p.d == DJava || p.d == DCs || p.d == DCpp):
			p.p += 2
			ty = &Ty{K: "a", E: ty}
		case p.is("?") && (p.d == DKt):
			p.p++
		case p.is("?") && p.d == DCs && (p.at(1).k == 'i' && (p.isAt(2, ",") || p.isAt(2, ")") || p.isAt(2, "=") || p.isAt(2, ";"))):
			p.p++
		default:
			return ty
		}
	}
}

// ---------------------------------------------------------------- expressions

var binPrec = map[string]int{
	"||": 3, "&&": 4, "|": 5, "^": 6, "&": 7,
	"==": 8, "!=": 8, "===": 8, "!==": 8,
	"<": 9, ">": 9, "<=": 9, ">=": 9, "instanceof": 9, "is": 9, "in": 9, "as": 9,
	"<<": 10, ">>": 10, ">>>": 10,
	"+": 11, "-": 11, "*": 12, "/": 12, "%": 12, "**": 13, "??": 3,
}
var ktPrec = map[string]int{
	"||": 3, "&&": 4, "==": 5, "!=": 5, "===": 5, "!==": 5,
	"<": 6, ">": 6, "<=": 6, ">=": 6, "is": 7, "in": 7, "!is": 7, "?:": 8,
	"shl": 9, "shr": 9, "ushr": 9, "and": 9, "or": 9, "xor": 9, "until": 9, "to": 9, "step": 9, "downTo": 9,
	"..": 10, "+": 11, "-": 11, "*": 12, "/": 12, "%": 12,
}

var assignOps = set("= += -= *= /= %= &= |= ^= <<= >>= >>>= **=")

func (p *parser) expr() *Node { return p.assign() }

func (p *parser) exprComma() *Node {
	e := p.expr()
	if p.is(",") && (p.d == DC || p.d == DCpp || p.d == DJs) {
		n := &Node{K: "comma", A: []*Node{e}, L: p.tk().line}
		for p.acc(",") {
			n.A = append(n.A, p.expr())
		}
		return n
	}
	return e
}

func (p *parser) assign() *Node {
	if f := p.tryLambda(); f != nil {
		return f
	}
	l := p.cond()
	t := p.tk()
	if t.k == 'p' && assignOps[t.s] && !(p.d == DKt && t.nl) {
		p.p++
		r := p.assign()
		return &Node{K: "assign", S: t.s, A: []*Node{l, r}, L: t.line}
	}
	return l
}

// tryLambda recognises arrow functions.
func (p *parser) tryLambda() *Node {
	if p.d != DJs && p.d != DCs && p.d != DJava {
		return nil
	}
	arrow := "=>"
	if p.d == DJava {
		arrow = "->"
	}
	if p.tk().k == 'i' && p.isAt(1, arrow) {
		line := p.tk().line
		f := &Func{Params: []Param{{Name: p.ident()}}, Arrow: true}
		p.p++
		p.funcBody(f)
		return &Node{K: "func", F: f, L: line}
	}
	if p.is("(") {
		save := p.p
		depth := 0
		i := 0
		for {
			t := p.at(i)
			if t.k == 'e' {
				return nil
			}
			if t.k == 'p' && (t.s == "(" || t.s == "[" || t.s == "{") {
				depth++
			}
			if t.k == 'p' && (t.s == ")" || t.s == "]" || t.s == "}") {
				depth--
				if depth == 0 {
					break
				}
			}
			i++
		}
		if !p.isAt(i+1, arrow) {
			return nil
		}
		line := p.tk().line
		f := &Func{Arrow: true}
		f.Params = p.params()
		if !p.acc(arrow) {
			p.p = save
			return nil
		}
		p.funcBody(f)
		return &Node{K: "func", F: f, L: line}
	}
	return nil
}

func (p *parser) funcBody(f *Func) {
	f.mod = p.m
	if p.is("{") {
		f.body = p.block()
		return
	}
	f.expr = true
	f.body = p.expr()
}

func (p *parser) cond() *Node {
	c := p.bin(3)
	if p.is("?") && p.d != DKt {
		line := p.tk().line
		p.p++
		a := p.assign()
		p.exp(":")
		b := p.assign()
		return &Node{K: "cond", A: []*Node{c, a, b}, L: line}
	}
	return c
}

func (p *parser) binop() (string, int) {
	t := p.tk()
	if t.k != 'p' && t.k != 'i' {
		return "", 0
	}
	if p.d == DKt {
		if t.nl && !(t.s == "?:" || t.s == "&&" || t.s == "||") {
			return "", 0
		}
		if t.s == "!" && p.isAt(1, "is") {
			return "!is", 7
		}
		pr, ok := ktPrec[t.s]
		if !ok {
			return "", 0
		}
		return t.s, pr
	}
	pr, ok := binPrec[t.s]
	if !ok {
		return "", 0
	}
	if t.k == 'i' {
		switch t.s {
		case "instanceof":
			if p.d != DJava && p.d != DJs {
				return "", 0
			}
		case "is", "as":
			if p.d != DCs {
				return "", 0
			}
		case "in":
			if p.d != DJs {
				return "", 0
			}
		}
	}
	return t.s, pr
}

func (p *parser) bin(min int) *Node {
	l := p.unary()
	for {
		op, pr := p.binop()
		if pr == 0 || pr < min {
			return l
		}
		line := p.tk().line
		p.p++
		if op == "!is" {
			p.p++
		}
		if op == "instanceof" && p.d == DJava || op == "is" || op == "as" || op == "!is" {
			l = &Node{K: "bin", S: op, A: []*Node{l}, T: p.parseType(), L: line}
			continue
		}
		next := pr + 1
		if op == "**" || op == "?:" || op == "??" {
			next = pr
		}
		r := p.bin(next)
		l = &Node{K: "bin", S: op, A: []*Node{l, r}, L: line}
	}
}

func (p *parser) castAhead() *Ty {
	// at "("
	if p.d == DKt || p.d == DJs {
		return nil
	}
	t := p.at(1)
	if t.k != 'i' && !(p.d == DCpp && t.s == "::") {
		return nil
	}
	save, saveT, saveE := p.p, p.t, p.end
	restore := func() *Ty { p.p, p.t, p.end = save, saveT, saveE; return nil }
	p.p++
	prim := primTypes[p.d][t.s] || t.s == "const" || t.s == "struct" || t.s == "enum"
	ty := p.parseType()
	if ty == nil || !p.is(")") {
		return restore()
	}
	base := ty
	for base.E != nil {
		base = base.E
	}
	if !prim {
		last := base.N
		if i := strings.LastIndexAny(last, ".:"); i >= 0 {
			last = last[i+1:]
		}
		if !p.types[last] || p.d == DC {
			return restore()
		}
		// (Name) must be followed by an operand
		n := p.at(1)
		if !(n.k == 'i' && n.s != "is" && n.s != "as" && n.s != "instanceof" || n.k == 'n' || n.k == 's' || n.k == 'c' || n.k == 'p' && (n.s == "(" || n.s == "!" || n.s == "~")) {
			return restore()
		}
	}
	p.p++
	return ty
}

func (p *parser) unary() *Node {
	t := p.tk()
	if t.k == 'p' {
		switch t.s {
		case "-", "+", "!", "~", "++", "--":
			p.p++
			e := p.unary()
			return &Node{K: "un", S: t.s, A: []*Node{e}, L: t.line}
		case "*", "&":
			if p.d == DC || p.d == DCpp {
				p.p++
				e := p.unary()
				return &Node{K: "un", S: t.s, A: []*Node{e}, L: t.line}
			}
		case "...":
			p.p++
			return &Node{K: "spread", A: []*Node{p.assign()}, L: t.line}
		case "(":
			if ty := p.castAhead(); ty != nil {
				e := p.unary()
				return &Node{K: "cast", T: ty, A: []*Node{e}, L: t.line}
			}
		}
	}
	if t.k == 'i' {
		switch {
		case p.d == DJs && (t.s == "typeof" || t.s == "void" || t.s == "delete"):
			p.p++
			return &Node{K: "un", S: t.s, A: []*Node{p.unary()}, L: t.line}
		case (p.d == DC || p.d == DCpp) && t.s == "sizeof":
			p.p++
			p.exp("(")
			save := p.p
			ty := p.parseType()
			if ty != nil && p.is(")") {
				p.p++
				return &Node{K: "sizeof", T: ty, L: t.line}
			}
			p.p = save
			e := p.expr()
			p.exp(")")
			return &Node{K: "sizeof", A: []*Node{e}, L: t.line}
		}
	}
	return p.postfix(p.primary())
}

func (p *parser) args(close string) []*Node {
	var out []*Node
	for !p.acc(close) {
		// named arguments (Kotlin, C#)
		if p.tk().k == 'i' && (p.d == DCs && p.isAt(1, ":") && !p.isAt(1, "::")) {
			p.p += 2
		}
		if p.d == DCs && (p.is("out") || p.is("ref")) {
			p.p++
		}
		out = append(out, p.expr())
		if !p.acc(",") {
			p.exp(close)
			break
		}
	}
	return out
}

func (p *parser) postfix(e *Node) *Node {
	for {
		t := p.tk()
		if t.k != 'p' {
			return e
		}
		switch t.s {
		case ".", "->", "?.":
			if t.s == "." && p.at(1).k != 'i' {
				return e
			}
			if t.s == "->" && p.d != DC && p.d != DCpp {
				return e
			}
			p.p++
			name := p.ident()
			e = &Node{K: "mem", S: name, A: []*Node{e}, L: t.line}
			if t.s == "?." {
				e.K = "optmem"
			}
			if t.s == "->" {
				e.V = big.NewInt(1)
			}
			if p.is("<") && (p.d == DKt || p.d == DCs || p.d == DJava) {
				p.tryTypeArgs()
			}
		case "::":
			if p.d != DCpp {
				return e
			}
			p.p++
			e = &Node{K: "mem", S: p.ident(), A: []*Node{e}, L: t.line}
		case "[":
			if p.d == DKt && t.nl || p.d == DJs && false {
				return e
			}
			p.p++
			i := p.exprComma()
			p.exp("]")
			e = &Node{K: "idx", A: []*Node{e, i}, L: t.line}
		case "(":
			if p.d == DKt && t.nl {
				return e
			}
			p.p++
			a := p.args(")")
			e = &Node{K: "call", A: append([]*Node{e}, a...), L: t.line}
			if p.d == DKt && p.is("{") && !p.tk().nl {
				e.A = append(e.A, p.ktLambda())
			}
		case "{":
			if p.d == DKt && !t.nl && (e.K == "id" && (e.S == "run" || e.S == "buildString" || e.S == "repeat") || e.K == "mem" && set("all any map forEach let apply also contentEquals indexOfFirst")[e.S]) {
				e = &Node{K: "call", A: []*Node{e, p.ktLambda()}, L: t.line}
				continue
			}
			return e
		case "++", "--":
			if (p.d == DJs || p.d == DKt) && t.nl {
				return e
			}
			p.p++
			e = &Node{K: "post", S: t.s, A: []*Node{e}, L: t.line}
		case "!!":
			p.p++
			e = &Node{K: "notnull", A: []*Node{e}, L: t.line}
		default:
			return e
		}
	}
}

func (p *parser) tryTypeArgs() []*Ty {
	save, saveT, saveE := p.p, p.t, p.end
	p.p++
	var out []*Ty
	for {
		a := p.parseType()
		if a == nil {
			break
		}
		out = append(out, a)
		if p.acc(",") {
			continue
		}
		if p.accGT() && (p.is("(") || p.is(".") || p.is("{") || p.is("[") || p.d == DKt && p.is("?")) {
			return out
		}
		break
	}
	p.p, p.t, p.end = save, saveT, saveE
	return nil
}

func (p *parser) ktLambda() *Node {
	line := p.tk().line
	f := &Func{mod: p.m, Arrow: true}
	p.exp("{")
	// parameters "a, b ->"
	save := p.p
	var ps []Param
	for p.tk().k == 'i' {
		ps = append(ps, Param{Name: p.ident()})
		if p.acc(":") {
			p.parseType()
		}
		if !p.acc(",") {
			break
		}
	}
	if p.acc("->") {
		f.Params = ps
	} else {
		p.p = save
	}
	b := &Node{K: "block", L: line}
	for !p.acc("}") {
		b.A = append(b.A, p.stmt())
	}
	f.body = b
	return &Node{K: "func", S: "kt", F: f, L: line}
}

func parseNum(s string, d Dialect) (*Node, bool) {
	n := &Node{K: "num", S: s}
	x := strings.ReplaceAll(s, "_", "")
	low := strings.ToLower(x)
	suf := ""
	hex := strings.HasPrefix(low, "0x")
	if d == DJs && strings.HasSuffix(low, "n") {
		suf = "n"
		low = low[:len(low)-1]
	} else {
		for len(low) > 1 {
			c := low[len(low)-1]
			if c == 'l' || c == 'u' || (c == 'f' || c == 'd') && !hex && d != DPy && d != DGo && !strings.HasPrefix(low, "0b") {
				suf = string(c) + suf
				low = low[:len(low)-1]
				continue
			}
			break
		}
	}
	base := 10
	switch {
	case hex:
		base = 16
		low = low[2:]
	case strings.HasPrefix(low, "0b"):
		base = 2
		low = low[2:]
	case strings.HasPrefix(low, "0o"):
		base = 8
		low = low[2:]
	case len(low) > 1 && low[0] == '0' && strings.Trim(low, "01234567") == "" && (d == DC || d == DCpp || d == DJava):
		base = 8
	}
	if base == 10 && (strings.ContainsAny(low, ".e") || strings.ContainsAny(suf, "fd")) {
		n.K = "flt"
		n.S = low
		if strings.Contains(suf, "f") {
			n.R = &RT{K: 'f', W: 32}
		}
		return n, true
	}
	v, ok := new(big.Int).SetString(low, base)
	if !ok {
		return nil, false
	}
	n.V = v
	n.S = suf
	if base != 10 {
		n.S += "#" // non-decimal literals may be unsigned in C and C#
	}
	return n, true
}

func (p *parser) primary() *Node {
	t := p.tk()
	L := t.line
	switch t.k {
	case 'n':
		p.p++
		n, ok := parseNum(t.s, p.d)
		if !ok {
			p.p--
			p.fail("bad number %s", t.s)
		}
		n.L = L
		return n
	case 's':
		p.p++
		s := t.s
		for p.tk().k == 's' && (p.d == DC || p.d == DCpp) {
			s += p.tk().s
			p.p++
		}
		return &Node{K: "str", S: s, L: L}
	case 'c':
		p.p++
		return &Node{K: "chr", S: t.s, L: L}
	case 'p':
		switch t.s {
		case "(":
			p.p++
			var e *Node
			if p.d == DJs || p.d == DC || p.d == DCpp {
				e = p.exprComma()
			} else {
				e = p.expr()
			}
			p.exp(")")
			return &Node{K: "paren", A: []*Node{e}, L: L}
		case "[":
			if p.d == DCpp { // lambda
				p.skipBal()
				f := &Func{mod: p.m, Arrow: true}
				f.Params = p.params()
				p.funcBody(f)
				return &Node{K: "func", F: f, L: L}
			}
			p.p++
			return &Node{K: "arr", A: p.args("]"), L: L}
		case "{":
			if p.d == DJs {
				return p.jsObject()
			}
			p.p++
			return &Node{K: "init", A: p.args("}"), L: L}
		case "::":
			if p.d == DCpp {
				p.p++
				return p.primary()
			}
		}
	case 'i':
		switch p.d {
		case DJs:
			switch t.s {
			case "function":
				p.p++
				f := &Func{mod: p.m}
				if p.tk().k == 'i' {
					f.Name = p.ident()
				}
				f.Params = p.params()
				p.lazyBody(f)
				return &Node{K: "func", F: f, L: L}
			case "new":
				p.p++
				c := p.primary()
				for p.is(".") {
					p.p++
					c = &Node{K: "mem", S: p.ident(), A: []*Node{c}, L: L}
				}
				n := &Node{K: "new", A: []*Node{c}, L: L}
				if p.acc("(") {
					n.A = append(n.A, p.args(")")...)
				}
				return n
			case "class":
				c := p.jsClass()
				return &Node{K: "classexpr", S: c.S, A: c.A, F: c.F, L: L}
			}
		case DJava, DCs, DCpp:
			if t.s == "new" {
				p.p++
				return p.newExpr(L)
			}
			if p.d == DCpp && strings.HasSuffix(t.s, "_cast") && p.isAt(1, "<") {
				p.p += 2
				ty := p.parseType()
				if ty == nil || !p.accGT() {
					p.fail("type expected")
				}
				p.exp("(")
				e := p.expr()
				p.exp(")")
				return &Node{K: "cast", S: t.s, T: ty, A: []*Node{e}, L: L}
			}
			if p.d == DCs && (t.s == "unchecked" || t.s == "checked") && p.isAt(1, "(") {
				p.p += 2
				e := p.expr()
				p.exp(")")
				return &Node{K: t.s, A: []*Node{e}, L: L}
			}
			if p.d == DCs && (t.s == "typeof" || t.s == "default") && p.isAt(1, "(") {
				p.p += 2
				ty := p.parseType()
				p.exp(")")
				return &Node{K: t.s, T: ty, L: L}
			}
			if p.d == DCpp && (t.s == "std" || p.isAt(1, "<")) || p.d == DCs && p.isAt(1, "<") && set("Memory Span ReadOnlySpan ReadOnlyMemory List Array")[t.s] {
				save, saveT, saveE := p.p, p.t, p.end
				ty := p.parseType()
				if ty != nil && (p.is("(") || p.is(".") || p.is("{")) && (len(ty.A) > 0 || p.d == DCpp) {
					return &Node{K: "ty", T: ty, L: L}
				}
				p.p, p.t, p.end = save, saveT, saveE
			}
		case DKt:
			switch t.s {
			case "if":
				p.p++
				p.exp("(")
				c := p.expr()
				p.exp(")")
				a := p.ktBranch()
				n := &Node{K: "cond", A: []*Node{c, a}, L: L}
				save := p.p
				p.acc(";")
				if p.acc("else") {
					n.A = append(n.A, p.ktBranch())
				} else {
					p.p = save
				}
				return n
			case "when":
				return p.ktWhen()
			case "throw":
				p.p++
				return &Node{K: "throw", A: []*Node{p.expr()}, L: L}
			case "return":
				p.p++
				n := &Node{K: "return", L: L}
				if p.acc("@") {
					p.ident()
				}
				if !p.tk().nl && !p.is("}") {
					n.A = append(n.A, p.expr())
				}
				return n
			}
			if p.isAt(1, "<") && set("arrayOfNulls arrayOf listOf emptyList mutableListOf emptyArray")[t.s] {
				p.p++
				ta := p.tryTypeArgs()
				n := &Node{K: "id", S: t.s, L: L}
				if len(ta) > 0 {
					n.T = ta[0]
				}
				return n
			}
		}
		p.p++
		return &Node{K: "id", S: t.s, L: L}
	}
	p.fail("expression expected")
	return nil
}

func (p *parser) ktBranch() *Node {
	if p.is("{") {
		return p.block()
	}
	return p.assign()
}

func (p *parser) ktWhen() *Node {
	L := p.tk().line
	p.exp("when")
	n := &Node{K: "when", L: L, A: []*Node{nil}}
	if p.acc("(") {
		n.A[0] = p.expr()
		p.exp(")")
	}
	p.exp("{")
	for !p.acc("}") {
		arm := &Node{K: "arm", L: p.tk().line}
		if p.acc("else") {
			arm.S = "else"
			arm.A = append(arm.A, nil)
		} else {
			arm.A = append(arm.A, nil)
			for {
				arm.A = append(arm.A, p.expr())
				if !p.acc(",") {
					break
				}
			}
		}
		p.exp("->")
		arm.A[0] = p.ktStmtExpr()
		n.A = append(n.A, arm)
		p.acc(";")
	}
	return n
}
func (p *parser) ktStmtExpr() *Node {
	if p.is("{") {
		return p.block()
	}
	return p.stmt()
}

func (p *parser) newExpr(L int) *Node {
	save := p.p
	if p.d == DCs && p.is("[") { // new[] {...}
		p.exp("[")
		p.exp("]")
		p.exp("{")
		return &Node{K: "newarr", A: []*Node{{K: "init", A: p.args("}")}}, L: L}
	}
	ty := p.parseType()
	if ty == nil {
		p.p = save
		p.fail("type after new")
	}
	switch {
	case p.is("["):
		p.p++
		n := p.expr()
		p.exp("]")
		for p.is("[") && p.isAt(1, "]") {
			p.p += 2
			ty = &Ty{K: "a", E: ty}
		}
		return &Node{K: "newarr", S: "len", T: ty, A: []*Node{n}, L: L}
	case p.is("{"):
		p.p++
		in := &Node{K: "init", A: p.args("}"), L: L}
		if ty.K == "a" {
			return &Node{K: "newarr", T: ty.E, A: []*Node{in}, L: L}
		}
		return &Node{K: "new", T: ty, A: []*Node{nil, in}, L: L}
	case p.acc("("):
		n := &Node{K: "new", T: ty, A: append([]*Node{nil}, p.args(")")...), L: L}
		return n
	}
	p.fail("new expression")
	return nil
}

func (p *parser) jsObject() *Node {
	n := &Node{K: "obj", L: p.tk().line}
	p.exp("{")
	for !p.acc("}") {
		pr := &Node{K: "prop", L: p.tk().line}
		if p.acc("...") {
			pr.K = "spread"
			pr.A = []*Node{p.assign()}
		} else {
			if (p.is("get") || p.is("set")) && p.at(1).k == 'i' {
				pr.S = p.ident()
				name := p.ident()
				f := &Func{mod: p.m, Name: name}
				f.Params = p.params()
				f.body = p.block()
				pr.A = []*Node{{K: "str", S: name}, {K: "func", F: f}}
			} else {
				var key *Node
				t := p.tk()
				switch {
				case p.acc("["):
					key = p.expr()
					p.exp("]")
				case t.k == 's' || t.k == 'i' || t.k == 'n':
					p.p++
					key = &Node{K: "str", S: t.s}
				default:
					p.fail("object key")
				}
				switch {
				case p.acc(":"):
					pr.A = []*Node{key, p.assign()}
				case p.is("("):
					f := &Func{mod: p.m, Name: key.S}
					f.Params = p.params()
					f.body = p.block()
					pr.A = []*Node{key, {K: "func", F: f}}
				default:
					pr.A = []*Node{key, {K: "id", S: key.S, L: pr.L}}
				}
			}
		}
		n.A = append(n.A, pr)
		if !p.acc(",") {
			p.exp("}")
			break
		}
	}
	return n
}

// jsClass parses a JS class declaration; methods are props on the node.
func (p *parser) jsClass() *Node {
	n := &Node{K: "class", L: p.tk().line}
	p.exp("class")
	if p.tk().k == 'i' && !p.is("extends") {
		n.S = p.ident()
	}
	if p.acc("extends") {
		p.primary()
	}
	p.exp("{")
	for !p.acc("}") {
		if p.acc(";") {
			continue
		}
		m := &Node{K: "method", L: p.tk().line}
		f := &Func{mod: p.m}
		if p.is("static") && !p.isAt(1, "(") {
			p.p++
			f.Static = true
		}
		if (p.is("get") || p.is("set")) && p.at(1).k == 'i' {
			if p.ident() == "get" {
				f.Get = true
			} else {
				f.Set = true
			}
		}
		if p.acc("[") {
			p.expr()
			p.exp("]")
			f.Name = "$computed"
		} else {
			t := p.tk()
			p.p++
			f.Name = t.s
		}
		if p.is("(") {
			f.Params = p.params()
			p.lazyBody(f)
		} else { // field
			if p.acc("=") {
				f.body = p.expr()
			} else {
				f.body = &Node{K: "id", S: "undefined"}
			}
			f.expr = true
			m.K = "fieldinit"
			p.acc(";")
		}
		m.F = f
		n.A = append(n.A, m)
	}
	return n
}

// ---------------------------------------------------------------- parameters

func (p *parser) params() []Param {
	p.exp("(")
	var out []Param
	for !p.acc(")") {
		var q Param
		switch p.d {
		case DJs:
			q.Rest = p.acc("...")
			q.Name = p.ident()
		case DKt:
			for p.is("val") || p.is("var") || p.is("private") || p.is("vararg") {
				p.p++
			}
			q.Name = p.ident()
			if p.acc(":") {
				q.T = p.parseType()
			}
		default:
			for p.is("@") || p.is("[") && p.isAt(1, "[") {
				p.skipBal()
			}
			if p.is("void") && p.isAt(1, ")") {
				p.p++
				continue
			}
			if p.tk().k == 'i' && (p.isAt(1, ",") || p.isAt(1, ")")) && (p.d == DCs || p.d == DJava) {
				q.Name = p.ident()
				break
			}
			q.T = p.parseType()
			if q.T == nil {
				p.fail("parameter type")
			}
			if p.d == DJava && p.acc("...") {
				q.T = &Ty{K: "a", E: q.T}
				q.Rest = true
			}
			if p.tk().k == 'i' {
				q.Name = p.ident()
			}
			for p.is("[") {
				p.skipBal()
				q.T = &Ty{K: "p", E: q.T}
			}
		}
		if p.acc("=") {
			q.Def = p.assign()
		}
		out = append(out, q)
		if !p.acc(",") {
			p.exp(")")
			break
		}
	}
	return out
}

// ---------------------------------------------------------------- statements

// lazyBody records the token range of a body, parsed when first called.
func (p *parser) lazyBody(f *Func) {
	f.mod = p.m
	f.toks = p.t
	f.lo = p.p
	p.skipBal()
	f.hi = p.p
}

func (p *parser) block() *Node {
	n := &Node{K: "block", L: p.tk().line}
	p.exp("{")
	for !p.acc("}") {
		if p.tk().k == 'e' {
			p.fail("unexpected end of block")
		}
		n.A = append(n.A, p.stmt())
	}
	return n
}

func (p *parser) semi() {
	if p.acc(";") {
		return
	}
	if p.d == DJs || p.d == DKt {
		t := p.tk()
		if t.nl || t.k == 'e' || p.is("}") || p.is(",") && false {
			return
		}
	}
	p.fail("';' expected")
}

func (p *parser) stmt() *Node {
	t := p.tk()
	L := t.line
	if t.k == 'p' {
		switch t.s {
		case "{":
			return p.block()
		case ";":
			p.p++
			return &Node{K: "empty", L: L}
		}
	}
	if t.k == 'i' {
		switch t.s {
		case "if":
			if p.d == DKt {
				break
			}
			p.p++
			p.acc("constexpr")
			p.exp("(")
			c := p.exprComma()
			p.exp(")")
			n := &Node{K: "if", A: []*Node{c, p.stmt()}, L: L}
			if p.acc("else") {
				n.A = append(n.A, p.stmt())
			}
			return n
		case "while":
			p.p++
			p.exp("(")
			c := p.exprComma()
			p.exp(")")
			return &Node{K: "while", A: []*Node{c, p.stmt()}, L: L}
		case "do":
			p.p++
			b := p.stmt()
			p.exp("while")
			p.exp("(")
			c := p.exprComma()
			p.exp(")")
			p.acc(";")
			return &Node{K: "do", A: []*Node{b, c}, L: L}
		case "for":
			return p.forStmt()
		case "foreach":
			if p.d == DCs {
				p.p++
				p.exp("(")
				p.parseType()
				name := p.ident()
				p.exp("in")
				e := p.expr()
				p.exp(")")
				return &Node{K: "foreach", S: name, A: []*Node{e, p.stmt()}, L: L}
			}
		case "return":
			p.p++
			n := &Node{K: "return", L: L}
			if p.d == DKt && p.acc("@") {
				p.ident()
			}
			if !p.is(";") && !p.is("}") && !((p.d == DJs || p.d == DKt) && p.tk().nl) {
				n.A = append(n.A, p.exprComma())
			}
			p.semi()
			return n
		case "break", "continue":
			p.p++
			p.semi()
			return &Node{K: t.s, L: L}
		case "throw":
			p.p++
			n := &Node{K: "throw", A: []*Node{p.expr()}, L: L}
			p.semi()
			return n
		case "switch":
			return p.switchStmt()
		case "try":
			p.p++
			n := &Node{K: "try", L: L, A: []*Node{p.block()}}
			for p.acc("catch") {
				if p.is("(") {
					p.skipBal()
				}
				n.A = append(n.A, p.block())
			}
			if p.acc("finally") {
				n.A = append(n.A, p.block())
			}
			return n
		case "goto", "using", "unsafe", "fixed", "lock", "synchronized":
			p.fail("unsupported statement")
		}
		if p.d == DJs {
			switch t.s {
			case "var", "let", "const":
				n := p.jsVar()
				p.semi()
				return n
			case "function":
				p.p++
				f := &Func{mod: p.m, Name: p.ident()}
				f.Params = p.params()
				p.lazyBody(f)
				return &Node{K: "funcdecl", S: f.Name, F: f, L: L}
			case "class":
				return p.jsClass()
			case "import":
				return p.jsImport()
			case "export":
				p.p++
				if p.acc("default") {
					e := p.expr()
					p.acc(";")
					return &Node{K: "export", S: "default", A: []*Node{e}, L: L}
				}
				if p.is("{") {
					p.skipBal()
					p.acc(";")
					return &Node{K: "empty", L: L}
				}
				s := p.stmt()
				return &Node{K: "export", S: "decl", A: []*Node{s}, L: L}
			}
		}
		if p.d == DKt && (t.s == "val" || t.s == "var") {
			p.p++
			n := &Node{K: "var", S: p.ident(), L: L}
			if p.acc(":") {
				n.T = p.parseType()
			}
			if p.acc("=") {
				n.A = append(n.A, p.expr())
			}
			p.semi()
			return n
		}
		if p.d != DJs && p.d != DKt {
			if n := p.localDecl(); n != nil {
				return n
			}
		}
	}
	e := p.exprComma()
	p.semi()
	return &Node{K: "expr", A: []*Node{e}, L: L}
}

func (p *parser) jsImport() *Node {
	n := &Node{K: "import", L: p.tk().line}
	p.exp("import")
	if p.tk().k == 's' {
		n.S = p.tk().s
		p.p++
		p.acc(";")
		return n
	}
	for !p.is("from") {
		t := p.tk()
		if t.k == 'e' {
			p.fail("import")
		}
		if t.k == 'i' {
			n.A = append(n.A, &Node{K: "id", S: t.s})
		} else {
			n.A = append(n.A, &Node{K: "p", S: t.s})
		}
		p.p++
	}
	p.p++
	n.S = p.tk().s
	p.p++
	p.acc(";")
	return n
}

func (p *parser) jsVar() *Node {
	L := p.tk().line
	kw := p.ident()
	n := &Node{K: "vars", S: kw, L: L}
	for {
		if p.is("[") || p.is("{") {
			p.fail("destructuring")
		}
		v := &Node{K: "var", S: p.ident(), L: L}
		if p.acc("=") {
			v.A = append(v.A, p.assign())
		}
		n.A = append(n.A, v)
		if !p.acc(",") {
			return n
		}
	}
}

// localDecl: Type name [= e] [, ...];
func (p *parser) localDecl() *Node {
	save, saveT, saveE := p.p, p.t, p.end
	L := p.tk().line
	ty := p.parseType()
	if ty != nil && p.tk().k == 'i' && (p.isAt(1, "=") || p.isAt(1, ";") || p.isAt(1, ",") || p.isAt(1, "[") || p.isAt(1, "{") && p.d == DCpp || p.isAt(1, ":") && p.d != DCs) {
		n := &Node{K: "vars", L: L}
		for {
			v := &Node{K: "var", S: p.ident(), T: ty, L: L}
			for p.is("[") {
				p.p++
				var ln *Node
				if !p.is("]") {
					ln = p.expr()
				}
				p.exp("]")
				v.T = &Ty{K: "a", E: v.T, n: ln}
			}
			if p.acc("=") {
				v.A = append(v.A, p.assign())
			} else if p.is("{") {
				v.A = append(v.A, p.primary())
			}
			n.A = append(n.A, v)
			if !p.acc(",") {
				break
			}
			for p.acc("*") {
				ty = &Ty{K: "p", E: ty}
			}
		}
		if p.is(":") { // range for
			return n
		}
		p.semi()
		return n
	}
	p.p, p.t, p.end = save, saveT, saveE
	return nil
}

func (p *parser) forStmt() *Node {
	L := p.tk().line
	p.exp("for")
	p.exp("(")
	if p.d == DKt {
		name := p.ident()
		if p.acc(":") {
			p.parseType()
		}
		p.exp("in")
		e := p.expr()
		p.exp(")")
		return &Node{K: "foreach", S: name, A: []*Node{e, p.stmt()}, L: L}
	}
	if p.d == DJs && (p.is("var") || p.is("let") || p.is("const")) && p.at(1).k == 'i' && (p.isAt(2, "in") || p.isAt(2, "of")) {
		p.p++
		name := p.ident()
		kind := p.ident()
		e := p.expr()
		p.exp(")")
		k := "foreach"
		if kind == "in" {
			k = "forin"
		}
		return &Node{K: k, S: name, A: []*Node{e, p.stmt()}, L: L}
	}
	n := &Node{K: "for", L: L, A: make([]*Node, 4)}
	if !p.acc(";") {
		switch {
		case p.d == DJs && (p.is("var") || p.is("let") || p.is("const")):
			n.A[0] = p.jsVar()
			p.exp(";")
		default:
			if p.d != DJs {
				n.A[0] = p.localDecl()
				if n.A[0] != nil && p.acc(":") {
					e := p.expr()
					p.exp(")")
					return &Node{K: "foreach", S: n.A[0].A[0].S, A: []*Node{e, p.stmt()}, L: L}
				}
			}
			if n.A[0] == nil {
				n.A[0] = &Node{K: "expr", A: []*Node{p.exprComma()}, L: L}
				p.exp(";")
			}
		}
	}
	if !p.is(";") {
		n.A[1] = p.exprComma()
	}
	p.exp(";")
	if !p.is(")") {
		e := p.exprComma()
		for p.acc(",") {
			e = &Node{K: "comma", A: []*Node{e, p.expr()}, L: L}
		}
		n.A[2] = e
	}
	p.exp(")")
	n.A[3] = p.stmt()
	return n
}

func (p *parser) switchStmt() *Node {
	L := p.tk().line
	p.exp("switch")
	p.exp("(")
	n := &Node{K: "switch", L: L, A: []*Node{p.expr()}}
	p.exp(")")
	p.exp("{")
	for !p.acc("}") {
		arm := &Node{K: "arm", L: p.tk().line}
		if p.acc("default") {
			arm.S = "default"
		} else {
			p.exp("case")
			arm.A = append(arm.A, p.expr())
		}
		if !p.acc(":") {
			p.exp("->")
			arm.S += "->"
		}
		b := &Node{K: "block", L: p.tk().line}
		for !p.is("case") && !p.is("default") && !p.is("}") {
			b.A = append(b.A, p.stmt())
		}
		if arm.S == "default" || arm.S == "default->" {
			arm.A = append(arm.A, nil)
		}
		arm.A = append(arm.A, b)
		n.A = append(n.A, arm)
	}
	return n
}
