package sym

import (
	"math/big"
	"strings"
)

// Num is an exact integer in two's complement; the last bit is the sign bit,
// which extends to infinity. len >= 1.
type Num []Lit

func (c *Ctx) Big(v *big.Int) Num {
	n := v.BitLen() + 1
	out := make(Num, n)
	if v.Sign() >= 0 {
		for i := 0; i < n; i++ {
			out[i] = Lit(v.Bit(i))
		}
		return norm(out)
	}
	t := new(big.Int).Not(v) // -v-1
	for i := 0; i < n; i++ {
		out[i] = Lit(t.Bit(i) ^ 1)
	}
	return norm(out)
}
func (c *Ctx) Int(v int64) Num { return c.Big(big.NewInt(v)) }

func norm(n Num) Num {
	for len(n) > 1 && n[len(n)-1] == n[len(n)-2] {
		n = n[:len(n)-1]
	}
	return n
}

// Bit i (sign extended).
func (n Num) Bit(i int) Lit {
	if i >= len(n) {
		return n[len(n)-1]
	}
	return n[i]
}
func (n Num) Const() bool {
	for _, l := range n {
		if !l.Const() {
			return false
		}
	}
	return true
}
func (n Num) Value() *big.Int {
	v := new(big.Int)
	for i := 0; i < len(n)-1; i++ {
		if n[i] == True {
			v.SetBit(v, i, 1)
		}
	}
	if n[len(n)-1] == True {
		t := new(big.Int).Lsh(big.NewInt(1), uint(len(n)-1))
		v.Sub(v, t)
	}
	return v
}
func (n Num) Int64() (int64, bool) {
	if !n.Const() {
		return 0, false
	}
	v := n.Value()
	return v.Int64(), v.IsInt64()
}

// VarNum makes an unsigned variable of w bits.
func (c *Ctx) VarNum(name string, w int, signed bool) Num {
	n := make(Num, 0, w+1)
	for i := 0; i < w; i++ {
		n = append(n, c.Var(name+"["+itoa(i)+"]"))
	}
	if !signed {
		n = append(n, False)
	}
	return n
}
func itoa(i int) string { return big.NewInt(int64(i)).String() }

func (c *Ctx) bitwise(a, b Num, f func(x, y Lit) Lit) Num {
	m := len(a)
	if len(b) > m {
		m = len(b)
	}
	o := make(Num, m)
	for i := range o {
		o[i] = f(a.Bit(i), b.Bit(i))
	}
	return norm(o)
}
func (c *Ctx) NAnd(a, b Num) Num { return c.bitwise(a, b, c.And) }
func (c *Ctx) NOr(a, b Num) Num  { return c.bitwise(a, b, c.Or) }
func (c *Ctx) NXor(a, b Num) Num { return c.bitwise(a, b, c.Xor) }
func (c *Ctx) NNot(a Num) Num {
	o := make(Num, len(a))
	for i := range a {
		o[i] = a[i].Not()
	}
	return o
}
func (c *Ctx) NShl(a Num, k int) Num {
	o := make(Num, len(a)+k)
	copy(o[k:], a)
	return norm(o)
}
func (c *Ctx) NShr(a Num, k int) Num {
	if k >= len(a) {
		return Num{a[len(a)-1]}
	}
	return append(Num{}, a[k:]...)
}
func (c *Ctx) addc(a, b Num, cin Lit) Num {
	m := len(a)
	if len(b) > m {
		m = len(b)
	}
	m++
	o := make(Num, m)
	cy := cin
	for i := 0; i < m; i++ {
		x, y := a.Bit(i), b.Bit(i)
		t := c.Xor(x, y)
		o[i] = c.Xor(t, cy)
		cy = c.Or(c.And(x, y), c.And(t, cy))
	}
	return norm(o)
}
func (c *Ctx) Add(a, b Num) Num { return c.addc(a, b, False) }
func (c *Ctx) Sub(a, b Num) Num { return c.addc(a, c.NNot(b), True) }
func (c *Ctx) Neg(a Num) Num    { return c.Sub(Num{False}, a) }
func (c *Ctx) Mul(a, b Num) Num {
	if a.Const() && b.Const() {
		return c.Big(new(big.Int).Mul(a.Value(), b.Value()))
	}
	if a.Const() {
		a, b = b, a
	}
	// a * b = sum b_i a 2^i - b_sign a 2^(n-1)
	acc := Num{False}
	for i := 0; i < len(b)-1; i++ {
		acc = c.Add(acc, c.maskNum(c.NShl(a, i), b[i]))
	}
	return c.Sub(acc, c.maskNum(c.NShl(a, len(b)-1), b[len(b)-1]))
}
func (c *Ctx) maskNum(a Num, l Lit) Num {
	if l == True {
		return a
	}
	if l == False {
		return Num{False}
	}
	o := make(Num, len(a))
	for i := range a {
		o[i] = c.And(a[i], l)
	}
	return norm(o)
}
func (c *Ctx) NIte(s Lit, a, b Num) Num {
	if s == True {
		return a
	}
	if s == False {
		return b
	}
	return c.bitwise(a, b, func(x, y Lit) Lit { return c.Ite(s, x, y) })
}

// Wrap reduces to w bits, signed or unsigned.
func (c *Ctx) Wrap(a Num, w int, signed bool) Num {
	o := make(Num, 0, w+1)
	for i := 0; i < w; i++ {
		o = append(o, a.Bit(i))
	}
	if !signed {
		o = append(o, False)
	}
	return norm(o)
}
func (c *Ctx) NEq(a, b Num) Lit {
	m := len(a)
	if len(b) > m {
		m = len(b)
	}
	r := True
	for i := 0; i < m; i++ {
		r = c.And(r, c.Eq(a.Bit(i), b.Bit(i)))
		if r == False {
			return r
		}
	}
	return r
}
func (c *Ctx) NLt(a, b Num) Lit {
	d := c.Sub(a, b)
	return d[len(d)-1]
}
func (c *Ctx) NZero(a Num) Lit { return c.NEq(a, Num{False}) }

// DivTrunc divides with truncation toward zero; rem has the sign of a.
// b must not be zero (the caller decides what zero means).
func (c *Ctx) DivTrunc(a, b Num) (q, r Num) {
	if a.Const() && b.Const() && b.Value().Sign() != 0 {
		qq, rr := new(big.Int).QuoRem(a.Value(), b.Value(), new(big.Int))
		return c.Big(qq), c.Big(rr)
	}
	sa, sb := a[len(a)-1], b[len(b)-1]
	ua := c.NIte(sa, c.Neg(a), a)
	ub := c.NIte(sb, c.Neg(b), b)
	// restoring division
	rem := Num{False}
	quo := make(Num, len(ua)+1)
	for i := len(ua) - 1; i >= 0; i-- {
		rem = append(Num{ua[i]}, rem...)
		ge := c.NLt(rem, ub).Not()
		quo[i] = ge
		rem = c.NIte(ge, c.Sub(rem, ub), rem)
	}
	quo[len(ua)] = False
	q = norm(quo)
	q = c.NIte(c.Xor(sa, sb), c.Neg(q), q)
	r = c.NIte(sa, c.Neg(rem), rem)
	return q, r
}

// DivFloor divides with floor; rem has the sign of b.
func (c *Ctx) DivFloor(a, b Num) (q, r Num) {
	if b.Const() && b.Value().Sign() > 0 {
		v := b.Value()
		if k := v.BitLen() - 1; v.TrailingZeroBits() == uint(k) {
			return c.NShr(a, k), c.Wrap(a, k, false)
		}
	}
	q, r = c.DivTrunc(a, b)
	adj := c.And(c.NZero(r).Not(), c.Xor(a[len(a)-1], b[len(b)-1]))
	return c.NIte(adj, c.Sub(q, c.Int(1)), q), c.NIte(adj, c.Add(r, b), r)
}

// EvalNum evaluates a under a model.
func (c *Ctx) EvalNum(a Num, m map[int32]bool) *big.Int {
	o := make(Num, len(a))
	for i, l := range a {
		if c.Eval(l, m) {
			o[i] = True
		}
	}
	return o.Value()
}
func (n Num) String() string {
	if n.Const() {
		return n.Value().String()
	}
	var sb strings.Builder
	sb.WriteString("bits<")
	for i := len(n) - 1; i >= 0; i-- {
		switch n[i] {
		case True:
			sb.WriteByte('1')
		case False:
			sb.WriteByte('0')
		default:
			sb.WriteByte('x')
		}
	}
	sb.WriteByte('>')
	return sb.String()
}
