package gcv

import (
	"fmt"
	"strings"

	"verif/sym"
)

// Case is a concrete situation for replay on the real generated code.
type Case struct {
	Kind   string // encode, decode, size, probe
	Struct *SStruct
	V      *CVal
	Old    *CVal  // decode: earlier contents of the object
	Void   []byte // encode: masks of reserved bits, which keep what they held
	Buf    []byte
	Start  int
	N      int
	Want   []byte
	WantOK bool
	WantN  int
}

// Unit is one struct of one generated module under contract.
type Unit struct {
	Target Target
	Mod    *Module
	File   *SFile
	S      *SStruct
	Opts   string
	Seed   int64
	Pkg    string
	Task   *Task
}

// Result of one contract check.
type Result struct {
	Target   string
	Struct   string
	Contract string
	Opts     string
	Proved   int
	Normal   int
	Solver   int
	Millis   int
	Crossed  int
	Paths    int
	Failed   []Obligation
	Err      error // outside the interpreter's subset or budget
	Unit     *Unit
}

func (u *Unit) explore(contract string, h func(in *Interp, a *Adapt)) (res Result) {
	x := NewExplorer(u.Seed)
	defer x.C.Close()
	pkg := u.Pkg
	if pkg == "" {
		pkg = u.File.Pkg
	}
	res = Result{Target: u.Target.Name, Struct: u.S.Name, Contract: contract, Opts: u.Opts, Unit: u}
	res.Err = x.Explore(u.Mod, func(in *Interp) {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case Fail:
					in.Refute(e.Kind, fmt.Sprintf("%s (line %d)", e.Msg, e.Line))
				case Throw:
					in.Refute("exception "+e.Kind, fmt.Sprintf("%s (line %d)", e.Msg, e.Line))
				default:
					panic(r)
				}
			}
		}()
		in.prefix = contract + "/"
		a := newAdapt(in, pkg)
		h(in, a)
	})
	res.Proved, res.Paths = x.Proved, x.Paths
	res.Normal, res.Solver = x.C.Stats.NormalForm, x.C.Stats.Solver
	res.Crossed = x.C.Stats.Crossed
	res.Millis = int(x.C.Stats.SolverMs)
	res.Failed = x.Obl
	return res
}

func concBytes(c *sym.Ctx, m map[int32]bool, b []sym.Num) []byte {
	out := make([]byte, len(b))
	for i, n := range b {
		out[i] = byte(c.EvalNum(n, m).Int64())
	}
	return out
}

// EncodeContract: for every value, encode writes exactly the specified bytes
// at [start, start+L), returns L and changes nothing else.
func (u *Unit) EncodeContract(sh Shape, start int, dirty bool) Result {
	name := "encode"
	if start > 0 {
		name = fmt.Sprintf("encode@%d", start)
	}
	if dirty {
		name += "+dirty"
	}
	if len(sh.Str)+len(sh.Byt) > 0 {
		name += sh.String()
	}
	return u.explore(name, func(in *Interp, a *Adapt) {
		g := &valGen{in: in, sh: sh}
		v := g.structVal(u.S, "v")
		var w Wire
		in.wireStruct(&w, u.S, v, u.S.Name)
		want := w.bytes()
		L := len(want)
		tail := 2
		buf := &Buf{Name: "buf"}
		for i := 0; i < start+L+tail; i++ {
			if i >= start && i < start+L && !dirty {
				buf.B = append(buf.B, in.C.Int(0))
			} else {
				buf.B = append(buf.B, in.X.Var("pre"+itoa(i), 8, false))
			}
		}
		pre := copyNums(buf.B)
		in.onFail = func(m map[int32]bool) *Case {
			var vm []byte
			if dirty {
				vm = make([]byte, L)
				for _, p := range w.Pieces {
					if p.Void {
						for k := p.From; k < p.From+p.N; k++ {
							vm[k/8] |= 1 << (k % 8)
						}
					}
				}
			}
			return &Case{Kind: "encode", Void: vm, Struct: u.S, V: v.conc(in.C, m), Start: start, Buf: concBytes(in.C, m, pre), Want: concBytes(in.C, m, want), WantN: L}
		}
		o := a.New(u.S)
		a.Fill(o, u.S, v)
		ret := a.Encode(o, u.S, buf, start)
		in.Prove("returned size", in.C.NEq(ret, in.C.Int(int64(L))), func() string {
			return fmt.Sprintf("encode reports %s bytes, the layout has %d", ret, L)
		})
		a.provePieces(&w, buf.B[start:start+L], want, dirty)
		for i := range buf.B {
			if i < start || i >= start+L {
				i := i
				in.Prove(fmt.Sprintf("frame[%d]", i-start), in.C.NEq(in.C.Wrap(buf.B[i], 8, false), pre[i]), func() string {
					return fmt.Sprintf("byte %d, outside the encoding, is changed", i-start)
				})
			}
		}
		a.Compare(o, u.S, v, "unchanged "+u.S.Name)
		if start == 0 && !dirty {
			o2 := a.New(u.S)
			a.Fill(o2, u.S, v)
			if out, ok := a.EncodeNew(o2, u.S); ok {
				if out.Len != L {
					in.Refute("encode() length", fmt.Sprintf("encode() returns %d bytes, the layout has %d", out.Len, L))
				} else {
					in.prefix += "new/"
					a.provePieces(&w, out.slice(), want, false)
				}
			}
		}
	})
}

func (a *Adapt) provePieces(w *Wire, got, want []sym.Num, dirty bool) {
	in := a.in
	for _, p := range w.Pieces {
		if p.Void && dirty {
			continue
		}
		l := sym.True
		for k := p.From; k < p.From+p.N; k++ {
			l = in.C.And(l, in.C.Eq(got[k/8].Bit(k%8), w.Bits[k]))
		}
		p := p
		in.Prove(p.Name, l, func() string {
			return fmt.Sprintf("wire bits %d..%d of %s differ from the declared layout", p.From, p.From+p.N-1, p.Name)
		})
	}
	_ = want
}

func (sh Shape) String() string {
	s := ""
	if len(sh.Str) > 0 {
		s += "{" + strings.Join(sh.Str, ",") + "}"
	}
	if len(sh.Byt) > 0 {
		s += fmt.Sprint(sh.Byt)
	}
	return s
}

// frame builds a buffer holding the encoding of a fresh value at start;
// void bits and everything outside are arbitrary. freeConst leaves the bits of
// constant fields arbitrary and returns the condition that they are right.
func (a *Adapt) frame(s *SStruct, sh Shape, start, tail int, freeConst bool) (v *SVal, buf *Buf, L int, constOK sym.Lit, w Wire) {
	in := a.in
	g := &valGen{in: in, sh: sh, wire: true}
	v = g.structVal(s, "v")
	in.wireStruct(&w, s, v, s.Name)
	constOK = sym.True
	bits := append([]sym.Lit{}, w.Bits...)
	for _, p := range w.Pieces {
		if p.Void {
			n := in.X.Var("void"+itoa(p.From), p.N, false)
			for k := 0; k < p.N; k++ {
				bits[p.From+k] = n.Bit(k)
			}
		}
		if p.Const && freeConst {
			n := in.X.Var("const"+itoa(p.From), p.N, false)
			for k := 0; k < p.N; k++ {
				constOK = in.C.And(constOK, in.C.Eq(n.Bit(k), bits[p.From+k]))
				bits[p.From+k] = n.Bit(k)
			}
		}
	}
	L = len(bits) / 8
	buf = &Buf{Name: "data", RO: true}
	for i := 0; i < start; i++ {
		buf.B = append(buf.B, in.X.Var("pre"+itoa(i), 8, false))
	}
	for i := 0; i < L; i++ {
		buf.B = append(buf.B, append(append(sym.Num{}, bits[8*i:8*i+8]...), sym.False))
	}
	for i := 0; i < tail; i++ {
		buf.B = append(buf.B, in.X.Var("post"+itoa(i), 8, false))
	}
	return
}

// garbage fills an object with arbitrary earlier contents.
func (a *Adapt) garbage(o Val, s *SStruct) *SVal {
	in := a.in
	g := &valGen{in: in, sh: Shape{Str: []string{"1", "1", "1", "1"}, Byt: []int{1, 1, 1, 1}}}
	v := g.structVal(s, "old")
	a.Fill(o, s, v)
	return v
}

// DecodeContract: for every frame, decode succeeds, reports L and the object
// holds exactly the stored values.
func (u *Unit) DecodeContract(sh Shape, start, tail int) Result {
	name := "decode"
	if start > 0 {
		name = fmt.Sprintf("decode@%d", start)
	}
	if len(sh.Str)+len(sh.Byt) > 0 {
		name += sh.String()
	}
	return u.explore(name, func(in *Interp, a *Adapt) {
		v, buf, L, _, _ := a.frame(u.S, sh, start, tail, false)
		var old *SVal
		in.onFail = func(m map[int32]bool) *Case {
			return &Case{Kind: "decode", Struct: u.S, V: v.conc(in.C, m), Old: old.conc(in.C, m), Start: start, Buf: concBytes(in.C, m, buf.B), N: len(buf.B) - start, WantOK: true, WantN: L}
		}
		o := a.New(u.S)
		old = a.garbage(o, u.S)
		ok, n := a.Decode(o, u.S, buf, start, -1)
		if !in.Prove("accepts", ok, func() string { return "decode rejects a valid frame" }) {
			return
		}
		in.Assume(ok)
		in.Prove("consumed size", in.C.NEq(n, in.C.Int(int64(L))), func() string {
			return fmt.Sprintf("decode reports %s bytes, the frame has %d", n, L)
		})
		a.Compare(o, u.S, v, u.S.Name)
	})
}

// ConstContract: decode succeeds exactly when all constant bits are right.
func (u *Unit) ConstContract(sh Shape, start int) Result {
	name := "const"
	if start > 0 {
		name = fmt.Sprintf("const@%d", start)
	}
	return u.explore(name, func(in *Interp, a *Adapt) {
		v, buf, L, cok, _ := a.frame(u.S, sh, start, 1, true)
		in.onFail = func(m map[int32]bool) *Case {
			return &Case{Kind: "decode", Struct: u.S, V: v.conc(in.C, m), Start: start, Buf: concBytes(in.C, m, buf.B), N: len(buf.B) - start, WantOK: in.C.Eval(cok, m), WantN: L}
		}
		o := a.New(u.S)
		ok, _ := a.Decode(o, u.S, buf, start, -1)
		in.Prove("enforced", in.C.Or(ok.Not(), cok), func() string { return "decode accepts a wrong constant" })
		in.Prove("accepted", in.C.Or(ok, cok.Not()), func() string { return "decode rejects the right constants" })
	})
}

// SizeContract: reported sizes agree with the layout; truncated data is
// reported with a usable lower bound.
func (u *Unit) SizeContract(sh Shape, start int) Result {
	name := "size"
	if start > 0 {
		name = fmt.Sprintf("size@%d", start)
	}
	if len(sh.Str)+len(sh.Byt) > 0 {
		name += sh.String()
	}
	return u.explore(name, func(in *Interp, a *Adapt) {
		v, buf, L, _, _ := a.frame(u.S, sh, start, 2, false)
		mk := func(kind string, n int) {
			in.onFail = func(m map[int32]bool) *Case {
				return &Case{Kind: kind, Struct: u.S, V: v.conc(in.C, m), Start: start, Buf: concBytes(in.C, m, buf.B), N: n, WantN: L}
			}
		}
		mk("size", 0)
		o := a.New(u.S)
		a.Fill(o, u.S, v)
		es := a.EncodeSize(o, u.S)
		in.Prove("encode_size", in.C.NEq(es, in.C.Int(int64(L))), func() string {
			return fmt.Sprintf("encode_size is %s, the encoding has %d bytes", es, L)
		})
		if ss, ok := a.StaticSize(o, u.S); ok {
			in.Prove("static size", in.C.NEq(ss, in.C.Int(int64(u.S.minBits()/8))), func() string {
				return fmt.Sprintf("the size constant is %s, the fixed part has %d bytes", ss, u.S.minBits()/8)
			})
		}
		for _, n := range []int{L, L + 2} {
			mk("probe", n)
			ds := a.DecodeSize(o, u.S, buf, start, n)
			in.Prove(fmt.Sprintf("decode_size(%d bytes)", n), in.C.NEq(ds, in.C.Int(int64(L))), func() string {
				return fmt.Sprintf("decode_size of %d bytes is %s, the frame has %d", n, ds, L)
			})
		}
		for n := 0; n < L; n++ {
			if n > 6 && n < L-6 && n%5 != 0 {
				continue
			}
			mk("probe", n)
			ds := a.DecodeSize(o, u.S, buf, start, n)
			in.Prove(fmt.Sprintf("decode_size(%d of %d)", n, L), in.C.NLt(ds, in.C.Int(int64(-n))), func() string {
				return fmt.Sprintf("decode_size of %d of %d bytes is %s", n, L, ds)
			})
			in.Prove(fmt.Sprintf("decode_size(%d of %d) bound", n, L), in.C.NLt(ds, in.C.Int(int64(-L))).Not(), func() string {
				return fmt.Sprintf("decode_size of %d of %d bytes is %s, more than the frame needs", n, L, ds)
			})
		}
	})
}

// Blobs counts the blobs of a struct in order of appearance.
func Blobs(s *SStruct) int {
	var one func(t *SType) int
	one = func(t *SType) int {
		switch t.K {
		case 'y':
			return 1
		case 'a':
			return t.N * one(t.E)
		case 'c':
			return Blobs(t.S)
		}
		return 0
	}
	n := 0
	for _, f := range s.Fields {
		if !f.Void && f.Const == "" {
			n += one(f.T)
		}
	}
	return n
}

// LongSizeContract: for one blob of any length written with k groups of seven
// bits (content arbitrary and of no influence) and empty other variable parts,
// encode_size is the fixed part plus the groups plus the length.
func (u *Unit) LongSizeContract(blob, k int) Result {
	return u.explore(fmt.Sprintf("encode_size, blob %d of any length of %d groups", blob, k), func(in *Interp, a *Adapt) {
		c := in.C
		n := in.X.Var("length", 7*k, false)
		lo := 0
		if k > 1 {
			lo = 1 << (7 * (k - 1))
			in.Assume(c.NLt(n, c.Int(int64(lo))).Not())
		}
		if k == 5 { // frames beyond 2^31-1 bytes have no int size
			in.Assume(c.NLt(n, c.Int(1<<31-1<<20)))
		}
		sh := Shape{Byt: make([]int, Blobs(u.S)), Str: make([]string, 64)}
		g := &valGen{in: in, sh: sh, wire: true, long: blob + 1, ln: n, lc: lo}
		v := g.structVal(u.S, "v")
		var w Wire
		in.wireStruct(&w, u.S, v, u.S.Name)
		rest := len(w.Bits)/8 - 1 + k // the blob was written as empty: one byte
		if lo <= 1<<21 {
			in.onFail = func(m map[int32]bool) *Case {
				return &Case{Kind: "size", Struct: u.S, V: v.conc(in.C, m), WantN: rest + lo}
			}
		}
		o := a.New(u.S)
		a.Fill(o, u.S, v)
		es := a.EncodeSize(o, u.S)
		in.Prove("encode_size", c.NEq(es, c.Add(n, c.Int(int64(rest)))), func() string {
			return fmt.Sprintf("encode_size is %s for a blob of %d groups, expected the length plus %d", es, k, rest)
		})
	})
}
