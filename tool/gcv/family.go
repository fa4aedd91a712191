package gcv

import (
	"fmt"
	"math/big"
)

// Job is one struct of one schema file with the contracts to discharge.
type Job struct {
	File   *SFile
	S      *SStruct
	Enc    bool
	Dec    bool
	Size   bool
	Con    bool
	Mal    int // malformed-data contract: largest data length
	Shapes []Shape
	Starts []int
	Dirty  bool
}

// Batch is one schema file with its jobs, compiled with several option sets.
type Batch struct {
	Name    string
	File    *SFile
	Jobs    []*Job
	Opts    [][]string // option sets; nil means the defaults only
	Targets []string   // nil means all
	Extra   map[string]*SFile
}

type sb struct {
	s   *SStruct
	pos int // bits since the start or the last dynamic field
	n   int
}

func newSB(name string) *sb { return &sb{s: &SStruct{Name: name}} }

// at pads with a plain field so that the next field starts at bit p of a byte.
func (b *sb) at(p int) *sb {
	d := ((p-b.pos)%8 + 8) % 8
	if d > 0 {
		b.n++
		b.s.Fields = append(b.s.Fields, fld(fmt.Sprintf("g%d", b.n), tUint(8), d))
		b.pos += d
	}
	return b
}

// voidAt pads with a reserved field.
func (b *sb) voidAt(p int) *sb {
	d := ((p-b.pos)%8 + 8) % 8
	if d > 0 {
		b.s.Fields = append(b.s.Fields, voidF(d))
		b.pos += d
	}
	return b
}

func (b *sb) add(fs ...*SField) *sb {
	for _, f := range fs {
		b.s.Fields = append(b.s.Fields, f)
		if !f.Void && f.T.dynamic() {
			b.pos = 0
		} else {
			b.pos += f.minBits()
		}
	}
	return b
}
func (b *sb) end() *SStruct { b.at(0); return b.s }

func order(f *SField, bigEnd bool) *SField {
	f.Big = bigEnd
	return f
}

var quickPos = []int{0, 1, 2, 3, 4, 5, 6, 7}

func structOf(t *SType, w int, bigEnd bool, name string) *SStruct {
	b := newSB(name)
	for _, p := range quickPos {
		b.at(p).add(order(fld(fmt.Sprintf("f%d", p), t, w), bigEnd))
	}
	return b.end()
}

func ordName(b bool) string {
	if b {
		return "B"
	}
	return "L"
}

// enumOf makes an enum of width w with values at the ends of its range.
func enumOf(name string, w int) *SEnum {
	e := &SEnum{Name: name, W: w}
	max := int64(1)<<uint(w) - 1
	if w > 31 {
		max = 1<<31 - 1
	}
	seen := map[int64]bool{}
	prev := int64(-1)
	for i, v := range []int64{0, 1, max / 3, max/2 + 1, max - 1, max} {
		if seen[v] || v < prev {
			continue
		}
		seen[v] = true
		e.Items = append(e.Items, SItem{Name: fmt.Sprintf("%s_V%d", name, i), Expl: v != prev+1 || i%2 == 0, Val: v})
		prev = v
	}
	return e
}

// ScalarBatches covers every scalar type, every width from 1 to its natural
// width, both orders and every start bit.
func ScalarBatches(pkg string, deep bool) []*Batch {
	var out []*Batch
	mk := func(name string, file *SFile) {
		b := &Batch{Name: name, File: file}
		for _, s := range file.Structs {
			b.Jobs = append(b.Jobs, &Job{File: file, S: s})
		}
		out = append(out, b)
	}
	for _, w0 := range []int{8, 16, 32, 64} {
		for _, sg := range []bool{true, false} {
			t, n := tUint(w0), "u"
			if sg {
				t, n = tInt(w0), "i"
			}
			f := &SFile{Pkg: pkg}
			lo := 1
			for w := 1; w <= w0; w++ {
				for _, be := range []bool{false, true} {
					if !deep && w0 >= 32 && w < w0-1 && (w%2 == 1) != (sg != be) {
						continue // the quick tier alternates sign and order for wide types
					}
					f.Structs = append(f.Structs, structOf(t, w, be, fmt.Sprintf("S%d%s", w, ordName(be))))
				}
				if len(f.Structs) >= 8 && w0 > 16 || w == w0 {
					mk(fmt.Sprintf("%s%d.%d", n, w0, lo), f)
					f = &SFile{Pkg: pkg}
					lo = w + 1
				}
			}
		}
	}
	f := &SFile{Pkg: pkg}
	for w := 1; w <= 8; w++ {
		for _, be := range []bool{false, true} {
			f.Structs = append(f.Structs, structOf(tBool(), w, be, fmt.Sprintf("B%d%s", w, ordName(be))))
		}
	}
	for _, w := range []int{32, 64} {
		for _, be := range []bool{false, true} {
			f.Structs = append(f.Structs, structOf(tFloat(w), w, be, fmt.Sprintf("F%d%s", w, ordName(be))))
		}
	}
	mk("boolfloat", f)
	for _, w := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 31, 32} {
		e := enumOf(fmt.Sprintf("E%d", w), w)
		f := &SFile{Pkg: pkg, Enums: []*SEnum{e}}
		for _, be := range []bool{false, true} {
			for _, p := range quickPos {
				if !deep && w > 16 && (p%2 == 1) != be {
					continue
				}
				b := newSB(fmt.Sprintf("N%d%sp%d", w, ordName(be), p))
				b.at(p).add(order(fld("f", tEnum(e), w), be))
				f.Structs = append(f.Structs, b.end())
			}
		}
		mk(fmt.Sprintf("enum%d", w), f)
	}
	// neighbouring fields of different kinds and orders
	f = &SFile{Pkg: pkg}
	e3 := enumOf("Em", 3)
	f.Enums = append(f.Enums, e3)
	kinds := []func(i int) *SField{
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tInt(8), 5) },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tBool(), 1) },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tUint(16), 11).big() },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tEnum(e3), 3) },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tInt(32), 29).big() },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tFloat(32), 32) },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tUint(64), 53) },
		func(i int) *SField { return voidF(6) },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tInt(64), 64).big() },
		func(i int) *SField { return fld(fmt.Sprintf("k%d", i), tFloat(64), 64).big() },
	}
	for r := 0; r < len(kinds); r++ {
		b := newSB(fmt.Sprintf("Mix%d", r))
		for i := range kinds {
			b.add(kinds[(i*3+r)%len(kinds)](i))
		}
		b.at(0)
		f.Structs = append(f.Structs, b.s)
	}
	mk("mixed", f)
	return out
}

// SignBatches covers sign extension under every method: the signed scalars of
// ScalarBatches, and arrays of every width decoded in a loop.
func SignBatches(pkg string, deep bool) []*Batch {
	var out []*Batch
	for _, b := range ScalarBatches(pkg, deep) {
		if b.Name[0] == 'i' {
			b.Opts = [][]string{{"-signext=arith"}}
			if deep {
				b.Opts = append(b.Opts, []string{"-signext=shift"})
			}
			b.Name = "sign." + b.Name
			out = append(out, b)
		}
	}
	for _, w0 := range []int{8, 16, 32, 64} {
		lo := w0/2 + 1
		if w0 == 8 || deep {
			lo = 1
		}
		f := &SFile{Pkg: pkg}
		first := lo
		for w := lo; w <= w0; w++ {
			for _, be := range []bool{false, true} {
				if !deep && w0 >= 32 && w < w0-1 && (w%2 == 1) == be {
					continue
				}
				b := newSB(fmt.Sprintf("L%d%s", w, ordName(be)))
				b.at(0).add(order(fld("f0", tArr(tInt(w0), 2), w), be)).at(3).add(order(fld("f3", tArr(tInt(w0), 3), w), be))
				f.Structs = append(f.Structs, b.end())
			}
			if len(f.Structs) >= 12 || w == w0 {
				out = append(out, allJobs(&Batch{Name: fmt.Sprintf("loop.i%d.%d", w0, first), File: f, Opts: [][]string{{"-unroll=0"}, {"-unroll=0", "-signext=shift"}, {"-unroll=0", "-signext=arith"}}}))
				f = &SFile{Pkg: pkg}
				first = w + 1
			}
		}
	}
	return out
}

func each(bs []*Batch, fn func(j *Job)) []*Batch {
	for _, b := range bs {
		for _, j := range b.Jobs {
			fn(j)
		}
	}
	return bs
}

func allJobs(b *Batch) *Batch {
	for _, s := range b.File.Structs {
		b.Jobs = append(b.Jobs, &Job{File: b.File, S: s})
	}
	return b
}

// elemTypes are element types for array families: (type, width).
func elemTypes(e *SEnum) []func(n int) (*SType, int, string) {
	mk := func(t *SType, w int, nm string) func(n int) (*SType, int, string) {
		return func(n int) (*SType, int, string) { return tArr(t, n), w, nm }
	}
	var out []func(n int) (*SType, int, string)
	for _, x := range []struct {
		t  *SType
		w  int
		nm string
	}{
		{tUint(8), 8, "u8"}, {tUint(8), 3, "u8"}, {tInt(8), 5, "i8"}, {tUint(16), 16, "u16"}, {tUint(16), 9, "u16"}, {tInt(16), 12, "i16"},
		{tUint(32), 32, "u32"}, {tInt(32), 32, "i32"}, {tInt(32), 17, "i32"}, {tUint(64), 64, "u64"}, {tInt(64), 64, "i64"}, {tUint(64), 33, "u64"}, {tInt(64), 61, "i64"},
		{tBool(), 1, "b"}, {tBool(), 3, "b"}, {tFloat(32), 32, "f32"}, {tFloat(64), 64, "f64"}, {tEnum(e), e.W, "e"},
	} {
		out = append(out, mk(x.t, x.w, x.nm))
	}
	return out
}

// ArrayBatches: arrays of every element kind at every alignment and around the
// unroll threshold; nested, embedded and combined structs.
func ArrayBatches(pkg string, deep bool) []*Batch {
	var out []*Batch
	e := enumOf("Ea", 5)
	pos := []int{0, 3}
	if deep {
		pos = quickPos
	}
	for k, et := range elemTypes(e) {
		f := &SFile{Pkg: pkg, Enums: []*SEnum{e}}
		for _, be := range []bool{false, true} {
			for _, n := range []int{1, 2, 4, 5, 7} {
				t, w, nm := et(n)
				if t.E.W == 64 && n == 7 && !deep {
					continue
				}
				b := newSB(fmt.Sprintf("A%d%s%s", n, nm, ordName(be)))
				for _, p := range pos {
					if n == 1 && p > 0 && !deep {
						continue
					}
					b.at((p + k) % 8).add(order(fld(fmt.Sprintf("f%d", p), t, w), be))
				}
				f.Structs = append(f.Structs, b.end())
			}
		}
		out = append(out, allJobs(&Batch{Name: fmt.Sprintf("arr%d", k), File: f}))
	}
	// structs
	f := &SFile{Pkg: pkg, Enums: []*SEnum{e}}
	leaf := newSB("Leaf").add(fld("p", tInt(16), 13).big(), fld("q", tUint(8), 3)).end()
	node := newSB("Node").add(fld("h", tUint(8), 4), fld("en", tEnum(e), 5), fld("ok", tBool(), 1)).at(0).add(fld("lf", tStruct(leaf), 0), fld("l2", tArr(tStruct(leaf), 2), 0), fld("l6", tArr(tStruct(leaf), 6), 0), fld("t", tUint(16), 16)).end()
	emb := newSB("Emb").add(fld("e1", tInt(8), 7), fld("e2", tArr(tUint(16), 3), 11)).at(0).add(fld("e3", tStruct(leaf), 0)).end()
	useEmb := newSB("UseEmb").add(fld("a", tUint(16), 16)).add(embedF(emb, false)).add(fld("z", tInt(32), 24).big()).end()
	inl := newSB("Inl").add(fld("i1", tInt(8), 4), fld("i2", tInt(8), 4)).end()
	useInl := newSB("UseInl").add(fld("a", tUint(8), 8)).add(embedF(inl, true)).add(fld("z", tInt(16), 16).big()).end()
	useInl.Fields[1].Anon = inl
	emb2 := newSB("Emb2").add(fld("b0", tBool(), 1), fld("b1", tInt(16), 15)).add(embedF(useEmb, false)).end()
	deepS := newSB("Deep").add(fld("n", tStruct(node), 0)).add(embedF(emb2, false)).add(fld("ns", tArr(tStruct(node), 2), 0), fld("us", tArr(tStruct(useEmb), 5), 0)).end()
	two := newSB("Two").add(embedF(leaf, false), embedF(emb, false)).end()
	f.Structs = []*SStruct{leaf, node, emb, useEmb, useInl, emb2, deepS, two}
	b := &Batch{Name: "nest", File: f}
	out = append(out, allJobs(b))
	// after variable-length fields
	f = &SFile{Pkg: pkg, Enums: []*SEnum{e}}
	blob := newSB("Blob").add(fld("d", tBytes(), 0), fld("k", tUint(8), 8)).end()
	dl := newSB("Dl").add(fld("a", tUint(16), 12), fld("a2", tUint(8), 4), fld("s", tStr(), 0), fld("w", tArr(tInt(16), 3), 12)).at(0).
		add(fld("lf", tStruct(leaf), 0), fld("l5", tArr(tStruct(leaf), 5), 0), fld("fl", tArr(tFloat(32), 5), 32), fld("en", tArr(tEnum(e), 5), 5)).at(0).add(fld("bo", tArr(tBool(), 9), 1)).at(0).add(fld("e1", tInt(64), 64).big()).end()
	da := newSB("Da").add(fld("x", tUint(8), 8), fld("bs", tArr(tStruct(blob), 2), 0), fld("y", tInt(16), 9), fld("y2", tUint(8), 7), fld("b6", tArr(tStruct(blob), 6), 0), fld("z", tUint(8), 8)).end()
	de := newSB("De").add(fld("x", tUint(8), 8)).add(embedF(blob, false)).add(fld("nb", tStruct(blob), 0), fld("z", tArr(tInt(8), 2), 4)).end()
	f.Structs = []*SStruct{leaf, blob, dl, da, de}
	out = append(out, allJobs(&Batch{Name: "dyn", File: f}))
	for _, b := range out {
		b.Opts = [][]string{nil, {"-unroll=0"}, {"-unroll=-1"}}
	}
	return out
}

// StringBatches: framing of strings and blobs.
func StringBatches(pkg string) []*Batch {
	f := &SFile{Pkg: pkg}
	s1 := newSB("Str1").add(fld("s", tStr(), 0), fld("t", tUint(8), 8)).end()
	b1 := newSB("Byt1").add(fld("b", tBytes(), 0), fld("t", tUint(8), 8)).end()
	mix := newSB("MixD").add(fld("h", tUint(16), 16).big(), fld("s", tStr(), 0), fld("x", tInt(16), 10), fld("y", tUint(8), 6), fld("b", tBytes(), 0), fld("t", tStr(), 0), fld("z", tUint(32), 32)).end()
	as := newSB("ArrS").add(fld("c", tUint(8), 8), fld("s", tArr(tStr(), 2), 0), fld("d", tUint(8), 8), fld("u", tArr(tStr(), 5), 0), fld("e", tUint(8), 8)).end()
	ab := newSB("ArrB").add(fld("c", tUint(8), 8), fld("s", tArr(tBytes(), 2), 0), fld("d", tUint(8), 8), fld("u", tArr(tBytes(), 5), 0), fld("e", tUint(8), 8)).end()
	nd := newSB("NestD").add(fld("m", tStruct(mix), 0), fld("q", tUint(16), 16), fld("ms", tArr(tStruct(mix), 2), 0), fld("k", tArr(tStruct(s1), 5), 0), fld("r", tUint(8), 8)).end()
	f.Structs = []*SStruct{s1, b1, mix, as, ab, nd}
	shp := func(strs []string, byt []int) Shape { return Shape{Str: strs, Byt: byt, Sym: 4} }
	b := &Batch{Name: "strings", File: f, Opts: [][]string{nil, {"-unroll=0"}, {"-unroll=-1"}, {"-memcpy"}, {"-compat"}}}
	b.Jobs = []*Job{
		{S: s1, Shapes: []Shape{shp([]string{""}, nil), shp([]string{"1"}, nil), shp([]string{"2"}, nil), shp([]string{"3"}, nil), shp([]string{"4"}, nil), shp([]string{"11213"}, nil), shp([]string{"41"}, nil)}},
		{S: b1, Shapes: []Shape{shp(nil, []int{0}), shp(nil, []int{1}), shp(nil, []int{2}), shp(nil, []int{127}), shp(nil, []int{128}), shp(nil, []int{300}), shp(nil, []int{16383}), shp(nil, []int{16384}), shp(nil, []int{70000})}},
		{S: mix, Shapes: []Shape{shp([]string{"", ""}, []int{0}), shp([]string{"1", "31"}, []int{3}), shp([]string{"21", "1"}, []int{129})}},
		{S: as, Shapes: []Shape{shp([]string{"", "1", "2", "", "11", "3", "1"}, nil), shp([]string{"4", "", "1", "1", "1", "1", ""}, nil)}},
		{S: ab, Shapes: []Shape{shp(nil, []int{0, 1, 2, 0, 3, 1, 1}), shp(nil, []int{130, 0, 1, 1, 128, 0, 0})}},
		{S: nd, Shapes: []Shape{{}, shp([]string{"", "1", "1", "", "11", "1", "2", "", "1", "1", "1"}, []int{0, 2, 1})}},
	}
	return []*Batch{b}
}

// ConstBatches: constants of every kind and width.
func ConstBatches(pkg string) []*Batch {
	var out []*Batch
	e := &SEnum{Name: "Ek", W: 6, Items: []SItem{{Name: "EK_A", Val: 0}, {Name: "EK_B", Expl: true, Val: 33}, {Name: "EK_C", Val: 34}}}
	val := func(w int, sg bool, k int) *big.Int {
		v := new(big.Int)
		switch k {
		case 0: // alternating, top bit set for unsigned
			for i := w - 1; i >= 0; i -= 2 {
				v.SetBit(v, i, 1)
			}
			if sg && v.Bit(w-1) == 1 {
				v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
		case 1:
			v.Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
			if sg {
				v.Rsh(v, 1)
			}
		case 2:
			v.SetInt64(0x5b)
			v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
			if sg {
				v.SetBit(v, w-1, 0)
			}
		}
		if v.BitLen() > 63 { // literals are 64-bit signed
			v.SetBit(v, 63, 0)
		}
		return v
	}
	for _, w0 := range []int{8, 16, 32, 64} {
		for _, sg := range []bool{true, false} {
			t, n := tUint(w0), "u"
			if sg {
				t, n = tInt(w0), "i"
			}
			f := &SFile{Pkg: pkg}
			for w := 1; w <= w0; w++ {
				if w0 == 64 && w%5 != 0 && w < 60 && w != 1 && (w < 31 || w > 34) {
					continue
				}
				for _, be := range []bool{false, true} {
					b := newSB(fmt.Sprintf("C%d%s%d%s", w0, n, w, ordName(be)))
					for i, p := range []int{0, 3, 6} {
						cf := order(fld(fmt.Sprintf("c%d", p), t, w), be)
						cf.CN = val(w, sg, (i+w)%3)
						cf.Const = cf.CN.String()
						if cf.CN.Sign() >= 0 && w%2 == 0 {
							cf.Const = "0x" + cf.CN.Text(16)
						}
						b.at(p).add(cf)
					}
					f.Structs = append(f.Structs, b.end())
				}
			}
			out = append(out, allJobs(&Batch{Name: fmt.Sprintf("const.%s%d", n, w0), File: f}))
		}
	}
	f := &SFile{Pkg: pkg, Enums: []*SEnum{e}}
	cv := func(name string, t *SType, w int, lit string, v *big.Int) *SField {
		x := fld(name, t, w)
		x.Const, x.CN = lit, v
		return x
	}
	bi := func(v int64) *big.Int { return big.NewInt(v) }
	bs := newSB("Bools").add(cv("t", tBool(), 1, "true", bi(1)), fld("a", tUint(8), 3), cv("f", tBool(), 1, "false", bi(0)), cv("g", tBool(), 3, "true", bi(1)), cv("h", tBool(), 8, "true", bi(1)), cv("i", tBool(), 8, "false", bi(0))).at(0).end()
	es := newSB("Enums").add(cv("t", tUint(8), 6, "EK_B", bi(33)), fld("a", tUint(8), 3), cv("f", tUint(16), 11, "EK_C", bi(34)).big(), cv("g", tInt(32), 20, "EK_A", bi(0)), fld("z", tEnum(e), 6)).at(0).end()
	f32 := func(x uint32) *big.Int { return new(big.Int).SetUint64(uint64(x)) }
	fs := newSB("Floats").add(cv("f", tFloat(32), 32, "1.5", f32(0x3FC00000)), fld("a", tUint(8), 8), cv("g", tFloat(64), 64, "-0.15625", new(big.Int).SetUint64(0xBFC4000000000000)), cv("h", tFloat(32), 32, "-2.25", f32(0xC0100000)).big()).end()
	ss := newSB("Unnamed").add(fld("a", tUint(8), 8), cv("", tUint(8), 8, "0x7E", bi(0x7e)), fld("x", tInt(16), 13), cv("", tUint(16), 11, "0x5A5", bi(0x5a5)), fld("b", tBytes(), 0), cv("", tUint(32), 32, "123456789", bi(123456789))).end()
	in1 := newSB("InC").add(cv("k", tUint(16), 12, "0xABC", bi(0xABC)), fld("v", tInt(8), 4)).end()
	nst := newSB("NestC").add(fld("a", tUint(8), 8), fld("n", tStruct(in1), 0), fld("arr", tArr(tStruct(in1), 2), 0), fld("ar5", tArr(tStruct(in1), 5), 0)).add(embedF(in1, false)).end()
	dn := newSB("DynC").add(fld("s", tStr(), 0), cv("k", tUint(16), 16, "0x1234", bi(0x1234)).big(), fld("n", tStruct(in1), 0), fld("b", tBytes(), 0), cv("m", tInt(8), 8, "-3", bi(-3)), fld("ns", tStruct(ss), 0)).end()
	f.Structs = []*SStruct{bs, es, fs, ss, in1, nst, dn}
	out = append(out, allJobs(&Batch{Name: "const.misc", File: f}))
	return out
}

// OptionBatches: one rich schema under every option and many combinations.
func OptionBatches(pkg string, deep bool) []*Batch {
	f := DemoFile()
	f.Pkg = pkg
	e := enumOf("Eo", 5)
	f.Enums = append(f.Enums, e)
	b := newSB("OptAll")
	for i, w := range []int{8, 7, 1, 16, 13, 9, 32, 31, 17, 64, 63, 33} {
		t := tInt(8)
		switch {
		case w > 32:
			t = tInt(64)
		case w > 16:
			t = tInt(32)
		case w > 8:
			t = tInt(16)
		}
		b.add(order(fld(fmt.Sprintf("s%d", i), t, w), i%2 == 1))
	}
	b.at(0).add(constF("kc", tUint(32), 32, "0xDEADBEEF", 0xDEADBEEF), constF("kn", tInt(16), 11, "-700", -700).big(), fld("pad", tUint(8), 5)).
		add(fld("a3", tArr(tInt(16), 3), 11)).at(0).add(fld("a9", tArr(tInt(32), 9), 21).big()).at(0).add(fld("ae", tArr(tEnum(e), 6), 5)).at(0).add(fld("ab", tArr(tBool(), 6), 1)).at(0)
	f.Structs = append(f.Structs, b.end())
	od := newSB("OptDyn").add(fld("a", tUint(8), 8), fld("b", tArr(tBytes(), 2), 0), fld("s", tArr(tStr(), 5), 0), constF("k", tUint(16), 16, "0xBEEF", 0xBEEF), fld("d", tStruct(f.Structs[2]), 0), fld("t", tInt(16), 12).big(), fld("u", tUint(8), 4)).end()
	f.Structs = append(f.Structs, od)
	oa := newSB("OptArr").add(fld("w", tArr(tInt(64), 6), 35)).at(3).add(order(fld("x", tArr(tUint(64), 5), 40), true)).at(0).
		add(order(fld("f", tArr(tFloat(32), 5), 32), true)).add(fld("g", tArr(tFloat(64), 3), 64)).at(0).add(order(fld("y", tArr(tInt(32), 3), 32), true)).end()
	f.Structs = append(f.Structs, oa)
	var opts [][]string
	opts = append(opts, nil)
	for _, o := range []string{"-unroll=-1", "-unroll=0", "-unroll=1", "-unroll=2", "-unroll=9", "-signext=shift", "-signext=arith", "-decnum", "-memcpy", "-compat", "-minimal", "-inner", "-single", "-relpath"} {
		opts = append(opts, []string{o})
	}
	opts = append(opts, []string{"-minimal", "-inner", "-single"}, []string{"-compat", "-memcpy", "-minimal", "-unroll=0"}, []string{"-decnum", "-signext=arith", "-unroll=-1", "-relpath"},
		[]string{"-compat", "-signext=shift", "-unroll=1", "-inner"}, []string{"-memcpy", "-single", "-decnum"})
	if deep {
		// every combination of the two-valued options
		flags := []string{"-decnum", "-memcpy", "-compat", "-minimal", "-inner", "-single", "-relpath"}
		for m := 0; m < 1<<len(flags); m++ {
			var o []string
			for i, fl := range flags {
				if m>>i&1 == 1 {
					o = append(o, fl)
				}
			}
			o = append(o, []string{"-unroll=0", "-unroll=-1", "-unroll=3"}[m%3], []string{"-signext=shift", "-signext=arith"}[m/3%2])
			opts = append(opts, o)
		}
	}
	bt := allJobs(&Batch{Name: "options", File: f, Opts: opts})
	return []*Batch{bt}
}
