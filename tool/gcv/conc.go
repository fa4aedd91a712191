package gcv

import (
	"math/big"
	"math/rand"
	"unicode/utf8"

	"verif/sym"
)

// Concrete values: used where a function lies outside the interpreter's
// subset (a bounded stand-in, reported as such) and to cross-check the
// interpreter against the real languages.

func randBits(r *rand.Rand, w int) *big.Int {
	v := new(big.Int)
	switch r.Intn(5) {
	case 0:
		v.SetInt64(0)
	case 1:
		v.Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
	case 2:
		v.SetBit(v, w-1, 1)
	default:
		for i := 0; i < w; i++ {
			v.SetBit(v, i, uint(r.Intn(2)))
		}
	}
	return v
}

// RandVal makes a value whose integers fit the wire width when fit is set.
func RandVal(r *rand.Rand, t *SType, ew int, sh *Shape, si, bi *int, fit bool) *CVal {
	v := &CVal{T: t}
	switch t.K {
	case 'i', 'u':
		w := t.W
		if fit {
			w = ew
		}
		v.N = randBits(r, w)
		if t.K == 'i' && v.N.Bit(w-1) == 1 {
			v.N.Sub(v.N, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		}
	case 'b':
		v.N = big.NewInt(int64(r.Intn(2)))
	case 'f':
		for {
			v.N = randBits(r, t.W)
			if !isNaN(leafVal{t: t, val: v.N.String()}) {
				break
			}
		}
	case 'e':
		v.N = big.NewInt(t.En.Items[r.Intn(len(t.En.Items))].Val)
	case 's':
		s := "11"
		if *si < len(sh.Str) {
			s = sh.Str[*si]
		} else if sh.Str == nil {
			s = []string{"", "1", "12", "31", "4"}[r.Intn(5)]
		}
		*si++
		lo, hi := []int{0, 1, 0x80, 0x800, 0x10000}, []int{0, 0x80, 0x800, 0xd800, 0x110000}
		for _, d := range s {
			k := int(d - '0')
			v.B = utf8.AppendRune(v.B, rune(lo[k]+r.Intn(hi[k]-lo[k])))
		}
	case 'y':
		n := r.Intn(4)
		if *bi < len(sh.Byt) {
			n = sh.Byt[*bi]
		}
		*bi++
		v.B = make([]byte, n)
		r.Read(v.B)
	case 'a':
		for i := 0; i < t.N; i++ {
			v.E = append(v.E, RandVal(r, t.E, ew, sh, si, bi, fit))
		}
	case 'c':
		return randStruct(r, t.S, sh, si, bi, fit)
	}
	return v
}

func randStruct(r *rand.Rand, s *SStruct, sh *Shape, si, bi *int, fit bool) *CVal {
	v := &CVal{T: tStruct(s), F: make([]*CVal, len(s.Fields))}
	for i, f := range s.Fields {
		if f.Void || f.Const != "" {
			continue
		}
		v.F[i] = RandVal(r, f.T, f.EW, sh, si, bi, fit)
	}
	return v
}

// cwire is the concrete layout: the same rules as wireStruct, on numbers.
type cwire struct {
	bits []byte
	void []bool
	con  []bool
}

func (w *cwire) put(n *big.Int, ew int, bigEnd bool, con bool) {
	m := new(big.Int).Set(n)
	if m.Sign() < 0 {
		m.Add(m, new(big.Int).Lsh(big.NewInt(1), 128))
	}
	for i := 0; i < ew; i++ {
		w.bits = append(w.bits, byte(m.Bit(valueBit(i, ew, bigEnd))))
		w.void = append(w.void, false)
		w.con = append(w.con, con)
	}
}
func (w *cwire) raw(b []byte, con bool) {
	for _, x := range b {
		w.put(big.NewInt(int64(x)), 8, false, con)
	}
}
func (w *cwire) val(t *SType, v *CVal, f *SField) {
	switch t.K {
	case 's':
		w.raw(v.B, false)
		w.raw([]byte{0}, false)
	case 'y':
		n := len(v.B)
		for {
			b := byte(n & 0x7f)
			n >>= 7
			if n > 0 {
				b |= 0x80
			}
			w.raw([]byte{b}, false)
			if n == 0 {
				break
			}
		}
		w.raw(v.B, false)
	case 'a':
		for _, e := range v.E {
			w.val(t.E, e, f)
		}
	case 'c':
		w.str(t.S, v)
	default:
		w.put(v.N, f.EW, f.Big, false)
	}
}
func (w *cwire) str(s *SStruct, v *CVal) {
	for i, f := range s.Fields {
		switch {
		case f.Void:
			for k := 0; k < f.EW; k++ {
				w.bits, w.void, w.con = append(w.bits, 0), append(w.void, true), append(w.con, false)
			}
		case f.Const != "":
			if f.T.K == 's' {
				w.raw([]byte(f.CS), true)
				w.raw([]byte{0}, true)
			} else {
				w.put(f.CN, f.EW, f.Big, true)
			}
		default:
			w.val(f.T, v.F[i], f)
		}
	}
}
func packBits(b []byte) []byte {
	out := make([]byte, len(b)/8)
	for i := range b[:len(out)*8] {
		out[i/8] |= b[i] << (i % 8)
	}
	return out
}

// ConcreteCases samples the contracts of one job.
func ConcreteCases(r *rand.Rand, j *Job, n int, kinds string, target string) []*Case {
	var out []*Case
	shapes := j.Shapes
	if len(shapes) == 0 {
		shapes = []Shape{{}}
	}
	has := func(c byte) bool {
		for i := range kinds {
			if kinds[i] == c {
				return true
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		sp := shapes[i%len(shapes)]
		start := []int{0, 2, 5}[i%3]
		var si, bi int
		mk := func(fit bool) (*CVal, *cwire, []byte) {
			si, bi = 0, 0
			v := randStruct(r, j.S, &sp, &si, &bi, fit)
			w := &cwire{}
			w.str(j.S, v)
			return v, w, packBits(w.bits)
		}
		if has('e') {
			v, w, b := mk(false)
			_ = w
			L := len(b)
			buf := make([]byte, start+L+2)
			r.Read(buf)
			for k := start; k < start+L; k++ {
				buf[k] = 0
			}
			out = append(out, &Case{Kind: "encode", Struct: j.S, V: v, Buf: buf, Start: start, Want: b, WantN: L})
		}
		frame := func() (*CVal, *cwire, []byte, int) {
			v, w, _ := mk(true)
			for k := range w.bits {
				if w.void[k] {
					w.bits[k] = byte(r.Intn(2))
				}
			}
			b := packBits(w.bits)
			buf := make([]byte, start+len(b)+2)
			r.Read(buf)
			copy(buf[start:], b)
			return v, w, buf, len(b)
		}
		if has('d') {
			v, _, buf, L := frame()
			osh := Shape{}
			si, bi = 0, 0
			old := randStruct(r, j.S, &osh, &si, &bi, true)
			out = append(out, &Case{Kind: "decode", Struct: j.S, V: v, Old: old, Start: start, Buf: buf, N: len(buf) - start, WantOK: true, WantN: L})
		}
		if has('c') {
			v, w, buf, L := frame()
			var cs []int
			for k, c := range w.con {
				if c {
					cs = append(cs, k)
				}
			}
			if len(cs) > 0 {
				k := cs[r.Intn(len(cs))]
				buf[start+k/8] ^= 1 << (k % 8)
				out = append(out, &Case{Kind: "decode", Struct: j.S, V: v, Start: start, Buf: buf, N: len(buf) - start, WantN: L})
			}
		}
		if has('m') {
			_, _, buf, L := frame()
			k := r.Intn(L + 3)
			if k > len(buf)-start {
				k = len(buf) - start
			}
			buf = buf[:start+k]
			if k > 0 && r.Intn(2) == 0 {
				buf[start+r.Intn(k)] = byte(r.Intn(256))
			}
			m := &Case{Kind: "mprobe", Struct: j.S, Start: start, Buf: buf, N: k}
			m.classify()
			out = append(out, m)
			if target != "c" && target != "cpp" {
				m := &Case{Kind: "mald", Struct: j.S, Start: start, Buf: buf, N: k}
				m.classify()
				if m.WantOK && hasStrings(j.S) {
					m.WantOK, m.WantN = false, 0 // random bytes need not be UTF-8
				}
				out = append(out, m)
			}
		}
		if has('s') {
			v, _, buf, L := frame()
			out = append(out, &Case{Kind: "size", Struct: j.S, V: v, Start: start, Buf: buf, WantN: L})
			for _, n := range []int{L, L + 2, r.Intn(L + 1), r.Intn(L + 1)} {
				out = append(out, &Case{Kind: "probe", Struct: j.S, V: v, Start: start, Buf: buf, N: n, WantN: L})
			}
		}
	}
	return out
}

var _ = sym.True

func hasStrings(s *SStruct) bool {
	for _, f := range s.Fields {
		if f.Void {
			continue
		}
		l := f.T.leaf()
		if l.K == 's' || l.K == 'c' && hasStrings(l.S) {
			return true
		}
	}
	return false
}
