package gcv

import (
	"math/big"

	"verif/sym"
)

// SVal is a (symbolic) value of a schema type.
type SVal struct {
	T  *SType
	N  sym.Num // scalars: value; floats: bit pattern
	S  []rune8 // strings: code points
	Y  []sym.Num
	E  []*SVal
	F  []*SVal // per field of a struct; nil for void and constant fields
	It int
	// YN, when set, is the symbolic length of a blob whose content is not
	// looked at; YC is the length used in a concrete case.
	YN sym.Num
	YC int
}

// rune8 is one code point given by its UTF-8 bytes and UTF-16 units.
type rune8 struct{ b, u []sym.Num }

// Shape selects the concrete lengths of the variable parts, in order of
// appearance.
type Shape struct {
	Str []string // per string: one digit per code point, its UTF-8 length
	Byt []int    // per blob: its length
	Sym int      // blob bytes beyond this index are concrete
}

type valGen struct {
	in   *Interp
	sh   Shape
	si   int
	bi   int
	long int // 1 + index of the blob with a symbolic length
	ln   sym.Num
	lc   int
	wire bool // restrict integers to what the wire width can carry
	name string
}

// code makes a code point encoded in k bytes of UTF-8.
func (in *Interp) code(name string, k int) rune8 {
	c := in.C
	zext := func(bits []sym.Lit) sym.Num { return append(append(sym.Num{}, bits...), sym.False) }
	cat := func(lo []sym.Lit, k int, hi int64) sym.Num {
		n := append(sym.Num{}, lo[:k]...)
		for i := 0; i < 8-k; i++ {
			n = append(n, sym.Lit(hi>>uint(i)&1))
		}
		return append(n, sym.False)
	}
	sl := func(v []sym.Lit, lo, hi int) []sym.Lit {
		return append([]sym.Lit{}, v[lo:hi]...)
	}
	bits := func(w int) []sym.Lit {
		n := in.X.Var(name, w, false)
		out := make([]sym.Lit, w)
		for i := range out {
			out[i] = n.Bit(i)
		}
		return out
	}
	switch k {
	case 1:
		v := bits(7)
		n := zext(v)
		in.Assume(c.NZero(n).Not())
		return rune8{[]sym.Num{n}, []sym.Num{n}}
	case 2:
		v := bits(11)
		n := zext(v)
		in.Assume(c.NLt(n, c.Int(0x80)).Not())
		return rune8{[]sym.Num{cat(sl(v, 6, 11), 5, 6), cat(sl(v, 0, 6), 6, 2)}, []sym.Num{n}}
	case 3:
		v := bits(16)
		n := zext(v)
		in.Assume(c.NLt(n, c.Int(0x800)).Not())
		in.Assume(c.And(c.NLt(n, c.Int(0xD800)).Not(), c.NLt(n, c.Int(0xE000))).Not())
		return rune8{[]sym.Num{cat(sl(v, 12, 16), 4, 14), cat(sl(v, 6, 12), 6, 2), cat(sl(v, 0, 6), 6, 2)}, []sym.Num{n}}
	default:
		// surrogate form: v = code-0x10000 in 20 bits
		v := bits(20)
		n := c.Add(zext(v), c.Int(0x10000))
		nb := make([]sym.Lit, 21)
		for i := range nb {
			nb[i] = n.Bit(i)
		}
		hi := append(append(sym.Num{}, sl(v, 10, 20)...), 0, 1, 1, 0, 1, 1, sym.False) // 110110
		lo := append(append(sym.Num{}, sl(v, 0, 10)...), 1, 1, 1, 0, 1, 1, sym.False)  // 110111
		return rune8{
			[]sym.Num{cat(sl(nb, 18, 21), 3, 30), cat(sl(nb, 12, 18), 6, 2), cat(sl(nb, 6, 12), 6, 2), cat(sl(nb, 0, 6), 6, 2)},
			[]sym.Num{hi, lo},
		}
	}
}

func (g *valGen) val(t *SType, ew int, name string) *SVal {
	in := g.in
	v := &SVal{T: t}
	switch t.K {
	case 'i', 'u':
		if g.wire {
			v.N = in.C.Wrap(in.X.Var(name, ew, t.K == 'i'), ew, t.K == 'i')
		} else {
			v.N = in.X.Var(name, t.W, t.K == 'i')
		}
	case 'b':
		v.N = in.X.Var(name, 1, false)
	case 'f':
		v.N = in.X.Var(name, t.W, false)
		if ew < t.W && g.wire {
			v.N = in.C.Wrap(v.N, ew, false)
		}
	case 'e':
		v.N = in.X.Var(name, t.W, false)
		l := sym.False
		for _, it := range t.En.Items {
			l = in.C.Or(l, in.C.NEq(v.N, in.C.Int(it.Val)))
		}
		in.Assume(l)
	case 's':
		sh := "11"
		if g.si < len(g.sh.Str) {
			sh = g.sh.Str[g.si]
		}
		g.si++
		for i, d := range sh {
			v.S = append(v.S, in.code(name+"."+itoa(i), int(d-'0')))
		}
	case 'y':
		n := 2
		if g.bi < len(g.sh.Byt) {
			n = g.sh.Byt[g.bi]
		}
		g.bi++
		if g.bi == g.long {
			v.YN, v.YC = g.ln, g.lc
			return v
		}
		for i := 0; i < n; i++ {
			if g.sh.Sym > 0 && i >= g.sh.Sym && i != n-1 {
				v.Y = append(v.Y, in.C.Int(int64(i*37+11)&255))
				continue
			}
			v.Y = append(v.Y, in.X.Var(name+"."+itoa(i), 8, false))
		}
	case 'a':
		for i := 0; i < t.N; i++ {
			v.E = append(v.E, g.val(t.E, ew, name+"["+itoa(i)+"]"))
		}
	case 'c':
		return g.structVal(t.S, name)
	}
	return v
}

func (g *valGen) structVal(s *SStruct, name string) *SVal {
	v := &SVal{T: tStruct(s), F: make([]*SVal, len(s.Fields))}
	for i, f := range s.Fields {
		if f.Void || f.Const != "" {
			continue
		}
		n := f.Name
		if f.Embed {
			n = "~" + itoa(i)
		}
		v.F[i] = g.val(f.T, f.EW, name+"."+n)
	}
	return v
}

// ------------------------------------------------------------- wire

// Piece names the wire bits of one leaf.
type Piece struct {
	Name     string
	From, N  int
	Void     bool
	Const    bool
	ConstAll bool
}

type Wire struct {
	Bits   []sym.Lit
	Pieces []Piece
}

func (w *Wire) bytes() []sym.Num {
	out := make([]sym.Num, len(w.Bits)/8)
	for i := range out {
		out[i] = append(append(sym.Num{}, w.Bits[8*i:8*i+8]...), sym.False)
	}
	return out
}

func (w *Wire) put(name string, n sym.Num, ew int, big bool) {
	w.Pieces = append(w.Pieces, Piece{Name: name, From: len(w.Bits), N: ew})
	for i := 0; i < ew; i++ {
		w.Bits = append(w.Bits, n.Bit(valueBit(i, ew, big)))
	}
}
func (w *Wire) putBytes(name string, bs []sym.Num) {
	w.Pieces = append(w.Pieces, Piece{Name: name, From: len(w.Bits), N: 8 * len(bs)})
	for _, b := range bs {
		for i := 0; i < 8; i++ {
			w.Bits = append(w.Bits, b.Bit(i))
		}
	}
}

func (in *Interp) lenBytes(n int) []sym.Num {
	var out []sym.Num
	for {
		b := n & 0x7f
		n >>= 7
		if n > 0 {
			b |= 0x80
		}
		out = append(out, in.C.Int(int64(b)))
		if n == 0 {
			return out
		}
	}
}

// wire appends the encoding of v.
func (in *Interp) wire(w *Wire, t *SType, v *SVal, f *SField, name string) {
	switch t.K {
	case 'i', 'u', 'b', 'f', 'e':
		w.put(name, v.N, f.EW, f.Big)
	case 's':
		var bs []sym.Num
		for _, r := range v.S {
			bs = append(bs, r.b...)
		}
		w.putBytes(name, bs)
		w.putBytes(name+".nul", []sym.Num{in.C.Int(0)})
	case 'y':
		w.putBytes(name+".len", in.lenBytes(len(v.Y)))
		w.putBytes(name, v.Y)
	case 'a':
		for i, e := range v.E {
			in.wire(w, t.E, e, f, name+"["+itoa(i)+"]")
		}
	case 'c':
		in.wireStruct(w, t.S, v, name)
	}
}

func (in *Interp) wireStruct(w *Wire, s *SStruct, v *SVal, name string) {
	for i, f := range s.Fields {
		n := name + "." + f.Name
		switch {
		case f.Void:
			w.Pieces = append(w.Pieces, Piece{Name: name + ".void" + itoa(i), From: len(w.Bits), N: f.EW, Void: true})
			for k := 0; k < f.EW; k++ {
				w.Bits = append(w.Bits, sym.False)
			}
		case f.Const != "":
			at := len(w.Pieces)
			if f.T.K == 's' {
				var bs []sym.Num
				for _, b := range []byte(f.CS) {
					bs = append(bs, in.C.Int(int64(b)))
				}
				w.putBytes(n, append(bs, in.C.Int(0)))
			} else {
				w.put(n, in.C.Big(f.CN), f.EW, f.Big)
			}
			w.Pieces[at].Const = true
		case f.Embed:
			in.wireStruct(w, f.T.S, v.F[i], name)
		default:
			in.wire(w, f.T, v.F[i], f, n)
		}
	}
}

// conc evaluates a value under a model.
func (v *SVal) conc(c *sym.Ctx, m map[int32]bool) *CVal {
	if v == nil {
		return nil
	}
	o := &CVal{T: v.T}
	if v.N != nil {
		o.N = c.EvalNum(v.N, m)
	}
	for _, r := range v.S {
		for _, b := range r.b {
			o.B = append(o.B, byte(c.EvalNum(b, m).Int64()))
		}
	}
	for _, b := range v.Y {
		o.B = append(o.B, byte(c.EvalNum(b, m).Int64()))
	}
	for i := 0; i < v.YC; i++ {
		o.B = append(o.B, byte(i*37+11))
	}
	for _, e := range v.E {
		o.E = append(o.E, e.conc(c, m))
	}
	for _, e := range v.F {
		o.F = append(o.F, e.conc(c, m))
	}
	return o
}

// CVal is a concrete value.
type CVal struct {
	T *SType
	N *big.Int
	B []byte
	E []*CVal
	F []*CVal
}
