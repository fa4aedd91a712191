// Package sym is the bit-level term language of the verifiers: and-inverter
// graphs with structural hashing, exact two's-complement integers of any
// width over them, and a z3 back end for what the normal form does not decide.
package sym

import "math/rand"

// Lit is a literal: 2*node or 2*node+1 (negated). Node 0 is the constant false.
type Lit int32

const (
	False Lit = 0
	True  Lit = 1
)

type node struct{ a, b Lit } // a==b==-1: variable

type Ctx struct {
	nodes  []node
	hash   map[node]Lit
	names  map[int32]string
	simv   []uint64 // 64 random assignments per node
	rng    *rand.Rand
	z      *z3proc
	s      *solver
	nlearn int
	Stats  Stats
}

type Stats struct {
	NormalForm int // obligations closed by the normal form
	Solver     int // obligations closed by z3
	SolverMs   float64
	Queries    int
	Crossed    int // unsatisfiable answers confirmed by z3
}

func NewCtx(seed int64) *Ctx {
	c := &Ctx{hash: map[node]Lit{}, names: map[int32]string{}, rng: rand.New(rand.NewSource(seed))}
	c.nodes = append(c.nodes, node{-1, -1})
	c.simv = append(c.simv, 0)
	return c
}

func (l Lit) Not() Lit    { return l ^ 1 }
func (l Lit) Const() bool { return l <= 1 }

func (c *Ctx) Var(name string) Lit {
	n := int32(len(c.nodes))
	c.nodes = append(c.nodes, node{-1, -1})
	c.simv = append(c.simv, c.rng.Uint64())
	c.names[n] = name
	return Lit(n << 1)
}

func (c *Ctx) sim(l Lit) uint64 {
	v := c.simv[l>>1]
	if l&1 == 1 {
		return ^v
	}
	return v
}

func (c *Ctx) And(a, b Lit) Lit {
	if a > b {
		a, b = b, a
	}
	switch {
	case a == False:
		return False
	case a == True:
		return b
	case a == b:
		return a
	case a == b.Not():
		return False
	}
	// one-level simplifications (absorption, contradiction)
	if b > 1 {
		nb := c.nodes[b>>1]
		if nb.a >= 0 {
			if b&1 == 0 {
				if nb.a == a || nb.b == a {
					return b
				}
				if nb.a == a.Not() || nb.b == a.Not() {
					return False
				}
			} else {
				if nb.a == a.Not() || nb.b == a.Not() {
					return a
				}
				if nb.a == a {
					return c.And(a, nb.b.Not())
				}
				if nb.b == a {
					return c.And(a, nb.a.Not())
				}
			}
		}
		na := c.nodes[a>>1]
		if na.a >= 0 {
			if a&1 == 0 {
				if na.a == b || na.b == b {
					return a
				}
				if na.a == b.Not() || na.b == b.Not() {
					return False
				}
			} else {
				if na.a == b.Not() || na.b == b.Not() {
					return b
				}
				if na.a == b {
					return c.And(b, na.b.Not())
				}
				if na.b == b {
					return c.And(b, na.a.Not())
				}
			}
		}
	}
	k := node{a, b}
	if l, ok := c.hash[k]; ok {
		return l
	}
	n := int32(len(c.nodes))
	c.nodes = append(c.nodes, k)
	c.simv = append(c.simv, c.sim(a)&c.sim(b))
	l := Lit(n << 1)
	c.hash[k] = l
	return l
}

func (c *Ctx) Or(a, b Lit) Lit { return c.And(a.Not(), b.Not()).Not() }
func (c *Ctx) Xor(a, b Lit) Lit {
	if a == b {
		return False
	}
	if a == b.Not() {
		return True
	}
	if a.Const() {
		if a == True {
			return b.Not()
		}
		return b
	}
	if b.Const() {
		if b == True {
			return a.Not()
		}
		return a
	}
	neg := (a & 1) ^ (b & 1)
	a &^= 1
	b &^= 1
	return c.Or(c.And(a, b.Not()), c.And(a.Not(), b)) ^ neg
}
func (c *Ctx) Eq(a, b Lit) Lit { return c.Xor(a, b).Not() }
func (c *Ctx) Ite(s, a, b Lit) Lit {
	switch {
	case s == True:
		return a
	case s == False:
		return b
	case a == b:
		return a
	case a == True:
		return c.Or(s, b)
	case a == False:
		return c.And(s.Not(), b)
	case b == True:
		return c.Or(s.Not(), a)
	case b == False:
		return c.And(s, a)
	case a == b.Not():
		return c.Eq(s, a)
	}
	return c.Or(c.And(s, a), c.And(s.Not(), b))
}
func (c *Ctx) Size() int { return len(c.nodes) }

// Eval evaluates l under an assignment of the variables (missing ones false).
func (c *Ctx) Eval(l Lit, m map[int32]bool) bool {
	memo := map[int32]bool{}
	var ev func(n int32) bool
	ev = func(n int32) bool {
		if n == 0 {
			return false
		}
		if v, ok := memo[n]; ok {
			return v
		}
		nd := c.nodes[n]
		var v bool
		if nd.a < 0 {
			v = m[n]
		} else {
			v = (ev(int32(nd.a>>1)) != (nd.a&1 == 1)) && (ev(int32(nd.b>>1)) != (nd.b&1 == 1))
		}
		memo[n] = v
		return v
	}
	return ev(int32(l>>1)) != (l&1 == 1)
}
