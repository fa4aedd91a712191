// Package smt holds hash-consed SMT terms and a z3 session that decides them.
package smt

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort names are SMT-LIB sorts written out: Int, Bool, String, (_ BitVec 64),
// (Array Int Int).
type Sort string

const (
	Int    Sort = "Int"
	Bool   Sort = "Bool"
	String Sort = "String"
)

func BV(n int) Sort          { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func ArrayOf(i, e Sort) Sort { return Sort("(Array " + string(i) + " " + string(e) + ")") }
func (s Sort) IsArray() bool { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) IsBV() bool    { return strings.HasPrefix(string(s), "(_ BitVec ") }
func (s Sort) elems() (i, e Sort) {
	b := string(s)[len("(Array ") : len(s)-1]
	d := 0
	for k, c := range b {
		switch {
		case c == '(':
			d++
		case c == ')':
			d--
		case c == ' ' && d == 0:
			return Sort(b[:k]), Sort(b[k+1:])
		}
	}
	panic("sort " + s)
}

// Term is a node of the shared term graph of one Ctx.
type Term struct {
	Op    string // an SMT operator, "var", "const", "bound", "forall", "exists" or "lambda"
	Name  string // of variables; the text of constants
	Args  []*Term
	Sort  Sort
	id    int
	text  bool // speaks of texts
	quant bool // holds a quantifier
	bound bool // has a bound variable free in it
	iv    *big.Int
}

func (t *Term) ID() int { return t.id }

// Bound tells whether a bound variable is free in t.
func (t *Term) Bound() bool { return t.bound }

// Textual tells whether t speaks of unknown texts.
func (t *Term) Textual() bool { return t.text }

// Quantified tells whether a quantifier or lambda occurs in t.
func (t *Term) Quantified() bool { return t.quant }

type Ctx struct {
	tab    map[string]*Term
	n      int
	nb     int
	funs   map[string]string // declared functions: name -> declaration
	forder []string
}

func NewCtx() *Ctx { return &Ctx{tab: map[string]*Term{}, funs: map[string]string{}} }

func (c *Ctx) mk(op, name string, s Sort, args ...*Term) *Term {
	var k strings.Builder
	k.WriteString(op)
	k.WriteByte('|')
	k.WriteString(name)
	k.WriteByte('|')
	k.WriteString(string(s))
	for _, a := range args {
		k.WriteByte(',')
		k.WriteString(strconv.Itoa(a.id))
	}
	if t := c.tab[k.String()]; t != nil {
		return t
	}
	c.n++
	t := &Term{Op: op, Name: name, Args: args, Sort: s, id: c.n}
	for _, a := range args {
		t.bound = t.bound || a.bound
		t.quant = t.quant || a.quant
		t.text = t.text || a.text
	}
	t.text = t.text || s == String && op != "const"
	if op == "bound" {
		t.bound = true
	}
	c.tab[k.String()] = t
	return t
}

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk("var", name, s) }

func (c *Ctx) Bound(s Sort) *Term {
	c.nb++
	return c.mk("bound", fmt.Sprintf("b!%d", c.nb), s)
}

func (c *Ctx) Int(v int64) *Term { return c.Big(big.NewInt(v)) }

func (c *Ctx) Big(v *big.Int) *Term {
	n := v.String()
	if v.Sign() < 0 {
		n = "(- " + new(big.Int).Neg(v).String() + ")"
	}
	t := c.mk("const", n, Int)
	if t.iv == nil {
		t.iv = new(big.Int).Set(v)
	}
	return t
}

func (c *Ctx) BVConst(v *big.Int, n int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	w := new(big.Int).Mod(v, m)
	t := c.mk("const", fmt.Sprintf("(_ bv%s %d)", w, n), BV(n))
	t.iv = w
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.mk("const", "true", Bool)
	}
	return c.mk("const", "false", Bool)
}

func (c *Ctx) Str(s string) *Term {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range []byte(s) {
		switch {
		case r == '"':
			b.WriteString(`""`)
		case r >= 32 && r < 127 && r != '\\':
			b.WriteByte(r)
		default:
			fmt.Fprintf(&b, "\\u{%x}", r)
		}
	}
	b.WriteByte('"')
	return c.mk("const", b.String(), String)
}

// IntVal returns the value of an integer constant.
func (t *Term) IntVal() (*big.Int, bool) { return t.iv, t.iv != nil && t.Sort == Int }
func (t *Term) IsTrue() bool             { return t.Op == "const" && t.Name == "true" }
func (t *Term) IsFalse() bool            { return t.Op == "const" && t.Name == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.IsTrue():
		return c.Bool(false)
	case a.IsFalse():
		return c.Bool(true)
	case a.Op == "not":
		return a.Args[0]
	}
	return c.mk("not", "", Bool, a)
}

func (c *Ctx) nary(op string, unit bool, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "const" {
			if a.IsTrue() == unit {
				continue
			}
			return c.Bool(!unit)
		}
		if seen[a.id] {
			continue
		}
		seen[a.id] = true
		if a.Op == "not" && seen[a.Args[0].id] {
			return c.Bool(!unit)
		}
		out = append(out, a)
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return c.Bool(!unit)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(unit)
	case 1:
		return out[0]
	}
	return c.mk(op, "", Bool, out...)
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary("and", true, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary("or", false, as) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.Bool(true)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("= of %s and %s", a.Sort, b.Sort))
	}
	if a.Op == "const" && b.Op == "const" {
		return c.Bool(a.Name == b.Name)
	}
	if a.Sort == Bool {
		if a.IsTrue() {
			return b
		}
		if b.IsTrue() {
			return a
		}
		if a.IsFalse() {
			return c.Not(b)
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", Bool, a, b)
}

func (c *Ctx) Ite(i, a, b *Term) *Term {
	if i.IsTrue() || a == b {
		return a
	}
	if i.IsFalse() {
		return b
	}
	if a.Sort == Bool {
		if a.IsTrue() && b.IsFalse() {
			return i
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(i)
		}
		if a.IsTrue() {
			return c.Or(i, b)
		}
		if b.IsFalse() {
			return c.And(i, a)
		}
		if a.IsFalse() {
			return c.And(c.Not(i), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(i), a)
		}
	}
	return c.mk("ite", "", a.Sort, i, a, b)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil {
		return c.Big(new(big.Int).Add(a.iv, b.iv))
	}
	if a.iv != nil && a.iv.Sign() == 0 {
		return b
	}
	if b.iv != nil && b.iv.Sign() == 0 {
		return a
	}
	// (x + k1) + k2
	if b.iv != nil && a.Op == "+" && a.Args[1].iv != nil {
		return c.Add(a.Args[0], c.Big(new(big.Int).Add(a.Args[1].iv, b.iv)))
	}
	if a.iv != nil {
		a, b = b, a
	}
	return c.mk("+", "", Int, a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if b.iv != nil {
		return c.Add(a, c.Big(new(big.Int).Neg(b.iv)))
	}
	if a == b {
		return c.Int(0)
	}
	return c.mk("-", "", Int, a, b)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil {
		return c.Big(new(big.Int).Mul(a.iv, b.iv))
	}
	if a.iv != nil {
		a, b = b, a
	}
	if b.iv != nil {
		if b.iv.Sign() == 0 {
			return c.Int(0)
		}
		if b.iv.IsInt64() && b.iv.Int64() == 1 {
			return a
		}
	}
	return c.mk("*", "", Int, a, b)
}

// DivE and ModE are the Euclidean division of SMT-LIB.
func (c *Ctx) DivE(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil && b.iv.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.iv, b.iv, new(big.Int))
		return c.Big(q)
	}
	return c.mk("div", "", Int, a, b)
}

func (c *Ctx) ModE(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil && b.iv.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.iv, b.iv, new(big.Int))
		return c.Big(m)
	}
	return c.mk("mod", "", Int, a, b)
}

func (c *Ctx) Lt(a, b *Term) *Term {
	if a.iv != nil && b.iv != nil {
		return c.Bool(a.iv.Cmp(b.iv) < 0)
	}
	if a == b {
		return c.Bool(false)
	}
	return c.mk("<", "", Bool, a, b)
}

func (c *Ctx) Le(a, b *Term) *Term { return c.Not(c.Lt(b, a)) }

func (c *Ctx) Select(a, i *Term) *Term {
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if a.Args[1].iv != nil && i.iv != nil {
			a = a.Args[0]
			continue
		}
		break
	}
	_, e := a.Sort.elems()
	return c.mk("select", "", e, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term { return c.mk("store", "", a.Sort, a, i, v) }

// ConstArray is the array holding v everywhere.
func (c *Ctx) ConstArray(s Sort, v *Term) *Term { return c.mk("constarray", "", s, v) }

func (c *Ctx) Forall(v []*Term, body *Term) *Term {
	if body.IsTrue() || body.IsFalse() {
		return body
	}
	return c.quant("forall", Bool, v, body)
}

func (c *Ctx) Exists(v []*Term, body *Term) *Term {
	return c.Not(c.Forall(v, c.Not(body)))
}

func (c *Ctx) Lambda(v *Term, body *Term) *Term {
	return c.quant("lambda", ArrayOf(v.Sort, body.Sort), []*Term{v}, body)
}

func (c *Ctx) quant(op string, s Sort, v []*Term, body *Term) *Term {
	t := c.mk(op, "", s, append(append([]*Term{}, v...), body)...)
	free := map[int]bool{}
	c.free(body, map[int]bool{}, free)
	for _, x := range v {
		delete(free, x.id)
	}
	t.bound = len(free) > 0
	t.quant = true
	return t
}

func (c *Ctx) free(t *Term, seen, out map[int]bool) {
	if !t.bound || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.Op == "bound" {
		out[t.id] = true
		return
	}
	if t.Op == "forall" || t.Op == "lambda" {
		in := map[int]bool{}
		c.free(t.Args[len(t.Args)-1], map[int]bool{}, in)
		for _, v := range t.Args[:len(t.Args)-1] {
			delete(in, v.id)
		}
		for k := range in {
			out[k] = true
		}
		return
	}
	for _, a := range t.Args {
		c.free(a, seen, out)
	}
}

// App applies an SMT operator with a given result sort.
func (c *Ctx) App(op string, s Sort, as ...*Term) *Term { return c.mk(op, "", s, as...) }

// Fun declares an uninterpreted or defined function once.
func (c *Ctx) Fun(name, decl string) {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = decl
		c.forder = append(c.forder, decl)
	}
}

func (c *Ctx) StrLen(a *Term) *Term {
	if s, ok := a.StrVal(); ok {
		return c.Int(int64(len(s)))
	}
	return c.mk("str.len", "", Int, a)
}

// StrVal returns the value of a string constant.
func (t *Term) StrVal() (string, bool) {
	if t.Op != "const" || t.Sort != String {
		return "", false
	}
	return unquote(t.Name), true
}

func unquote(q string) string {
	q = strings.ReplaceAll(q[1:len(q)-1], `""`, `"`)
	var b strings.Builder
	for i := 0; i < len(q); i++ {
		if q[i] == '\\' && i+2 < len(q) && q[i+1] == 'u' && q[i+2] == '{' {
			j := strings.IndexByte(q[i:], '}')
			n, _ := strconv.ParseInt(q[i+3:i+j], 16, 32)
			if n < 256 {
				b.WriteByte(byte(n))
			} else {
				b.WriteRune(rune(n))
			}
			i += j
			continue
		}
		b.WriteByte(q[i])
	}
	return b.String()
}

func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if s, ok := a.StrVal(); ok && s == "" {
			continue
		}
		if s, ok := a.StrVal(); ok && len(out) > 0 {
			if p, ok := out[len(out)-1].StrVal(); ok {
				out[len(out)-1] = c.Str(p + s)
				continue
			}
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.mk("str.++", "", String, out...)
}

// Vars lists the variables a term depends on.
func Vars(ts ...*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "var" {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

var sessionMu sync.Mutex

// Subst replaces every occurrence of from by to.
func (t *Term) Subst(c *Ctx, from, to *Term) *Term {
	seen := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if t == from {
			return to
		}
		if len(t.Args) == 0 {
			return t
		}
		if r := seen[t.id]; r != nil {
			return r
		}
		as := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			as[i] = walk(a)
			same = same && as[i] == a
		}
		r := t
		if !same {
			if t.Op == "forall" || t.Op == "lambda" {
				r = c.quant(t.Op, t.Sort, as[:len(as)-1], as[len(as)-1])
			} else {
				r = c.mk(t.Op, t.Name, t.Sort, as...)
			}
		}
		seen[t.id] = r
		return r
	}
	return walk(t)
}
