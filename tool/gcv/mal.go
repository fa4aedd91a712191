package gcv

import (
	"fmt"

	"verif/sym"
)

// refParse reads a frame of s from b by the wire rules. It returns the number
// of bytes of a complete frame, or complete=false when the data end inside it;
// sane is false when a length is written with more groups than a reader has to
// understand (five or more), where only safety is claimed.
func (in *Interp) refParse(s *SStruct, b []sym.Num) (n int, complete, sane bool) {
	bit := 0
	complete, sane = true, true
	var str func(s *SStruct)
	var one func(t *SType, f *SField)
	one = func(t *SType, f *SField) {
		if !complete || !sane {
			return
		}
		switch t.K {
		case 's':
			i := bit / 8
			for ; ; i++ {
				if i >= len(b) {
					complete = false
					return
				}
				if in.Branch(in.C.NZero(b[i])) {
					break
				}
			}
			bit = (i + 1) * 8
		case 'y':
			v := in.C.Int(0)
			i := bit / 8
			for k := 0; ; k++ {
				if i >= len(b) {
					complete = false
					return
				}
				if k == 4 {
					sane = false
					return
				}
				x := b[i]
				i++
				v = in.C.Add(v, in.C.NShl(in.C.Wrap(x, 7, false), 7*k))
				if !in.Branch(x.Bit(7)) {
					break
				}
			}
			left := len(b) - i
			if in.Branch(in.C.NLt(in.C.Int(int64(left)), v)) {
				complete = false
				return
			}
			bit = (i + int(in.Concrete(v).Int64())) * 8
		case 'a':
			for i := 0; i < t.N; i++ {
				one(t.E, f)
			}
		case 'c':
			str(t.S)
		default:
			bit += f.EW
		}
	}
	str = func(s *SStruct) {
		for _, f := range s.Fields {
			switch {
			case !complete || !sane:
				return
			case f.Void:
				bit += f.EW
			case f.Const != "" && f.T.K == 's':
				bit += 8 * (len(f.CS) + 1)
			case f.Const != "":
				bit += f.EW
			default:
				one(f.T, f)
			}
		}
	}
	str(s)
	n = bit / 8
	if n > len(b) {
		complete = false
	}
	return
}

func (s *SStruct) hasConst() bool {
	for _, f := range s.Fields {
		if f.Void {
			continue
		}
		if f.Const != "" {
			return true
		}
		if l := f.T.leaf(); l.K == 'c' && l.S.hasConst() {
			return true
		}
	}
	return false
}

// checksLength tells whether the target's decode is given the length of the
// data and checks it.
func (a *Adapt) checksLength() bool {
	return a.in.M.D != DC && a.in.M.D != DCpp
}

// MalContract: for every content of n bytes of data at start, the probe (and
// decode where it checks the length) touches nothing else, never claims more
// than n bytes, recognises exactly the complete frames.
func (u *Unit) MalContract(n, start int) Result {
	name := fmt.Sprintf("malformed(%d)", n)
	if start > 0 {
		name += fmt.Sprintf("@%d", start)
	}
	return u.explore(name, func(in *Interp, a *Adapt) {
		buf := &Buf{Name: "data", RO: true}
		for i := 0; i < start+n; i++ {
			buf.B = append(buf.B, in.X.Var("d"+itoa(i), 8, false))
		}
		kind := "mprobe"
		wantN, wantOK := 0, false
		in.onFail = func(m map[int32]bool) *Case {
			c := &Case{Kind: kind, Struct: u.S, Start: start, Buf: concBytes(in.C, m, buf.B), N: n, WantN: wantN, WantOK: wantOK}
			if wantN == 0 { // failed before the reference was consulted
				c.classify()
			}
			return c
		}
		N := in.C.Int(int64(n))
		o := a.New(u.S)
		r := a.DecodeSize(o, u.S, buf, start, n)
		in.Prove("probe within data", in.C.NLt(N, r).Not(), func() string {
			return fmt.Sprintf("decode_size of %d bytes can be %s", n, r)
		})
		var dok sym.Lit
		var dn sym.Num
		if a.checksLength() {
			kind = "mald"
			dok, dn = a.Decode(o, u.S, buf, start, n)
			in.Prove("decode within data", in.C.And(dok, in.C.NLt(N, dn)).Not(), func() string {
				return fmt.Sprintf("decode of %d bytes can report %s", n, dn)
			})
		}
		fl, complete, sane := in.refParse(u.S, buf.B[start:])
		switch {
		case !sane:
			return
		case complete:
			wantN, wantOK = fl, true
			kind = "mprobe"
			in.Prove("probe of complete frame", in.C.NEq(r, in.C.Int(int64(fl))), func() string {
				return fmt.Sprintf("decode_size of %d bytes holding a frame of %d bytes is %s", n, fl, r)
			})
			if dn != nil {
				kind = "mald"
				good := in.C.NEq(dn, in.C.Int(int64(fl)))
				if u.S.hasConst() {
					wantOK = false
					good = in.C.Or(dok.Not(), good)
				} else {
					good = in.C.And(dok, good)
				}
				in.Prove("decode of complete frame", good, func() string {
					return fmt.Sprintf("decode of %d bytes holding a frame of %d bytes reports %s", n, fl, dn)
				})
			}
		default:
			wantN = -1
			kind = "mprobe"
			in.Prove("probe of truncated frame", in.C.NLt(r, in.C.Int(0)), func() string {
				return fmt.Sprintf("decode_size of %d bytes that end inside the frame is %s", n, r)
			})
			if dn != nil {
				kind = "mald"
				in.Prove("decode of truncated frame", dok.Not(), func() string {
					return fmt.Sprintf("decode of %d bytes that end inside the frame reports %s", n, dn)
				})
			}
		}
	})
}

// classify sets the expectation of a malformed-data case by the concrete
// reference parse.
func (c *Case) classify() {
	n, ok, sane := concParse(c.Struct, c.Buf[c.Start:c.Start+c.N])
	switch {
	case !sane:
		c.WantN, c.WantOK = 0, false
	case ok:
		c.WantN, c.WantOK = n, c.Kind == "mprobe" || !c.Struct.hasConst()
	default:
		c.WantN, c.WantOK = -1, false
	}
}

func concParse(s *SStruct, b []byte) (n int, complete, sane bool) {
	bit := 0
	complete, sane = true, true
	var str func(s *SStruct)
	var one func(t *SType, f *SField)
	one = func(t *SType, f *SField) {
		if !complete || !sane {
			return
		}
		switch t.K {
		case 's':
			i := bit / 8
			for ; i < len(b) && b[i] != 0; i++ {
			}
			if i >= len(b) {
				complete = false
				return
			}
			bit = (i + 1) * 8
		case 'y':
			v, i := 0, bit/8
			for k := 0; ; k++ {
				if i >= len(b) {
					complete = false
					return
				}
				if k == 4 {
					sane = false
					return
				}
				x := b[i]
				i++
				v |= int(x&0x7f) << uint(7*k)
				if x&0x80 == 0 {
					break
				}
			}
			if v > len(b)-i {
				complete = false
				return
			}
			bit = (i + v) * 8
		case 'a':
			for i := 0; i < t.N; i++ {
				one(t.E, f)
			}
		case 'c':
			str(t.S)
		default:
			bit += f.EW
		}
	}
	str = func(s *SStruct) {
		for _, f := range s.Fields {
			switch {
			case !complete || !sane:
				return
			case f.Void:
				bit += f.EW
			case f.Const != "" && f.T.K == 's':
				bit += 8 * (len(f.CS) + 1)
			case f.Const != "":
				bit += f.EW
			default:
				one(f.T, f)
			}
		}
	}
	str(s)
	n = bit / 8
	if n > len(b) {
		complete = false
	}
	return
}

// MalBatches: frames with every kind of variable-length content, probed with
// arbitrary data of every length up to the job's bound.
func MalBatches(pkg string, deep bool) []*Batch {
	x := 0
	if deep {
		x = 1
	}
	e := enumOf("Em", 3)
	f := &SFile{Pkg: pkg, Enums: []*SEnum{e}}
	fx := newSB("Fx").add(fld("a", tUint(16), 11).big(), fld("b", tInt(8), 5), fld("c", tFloat(32), 32)).end()
	s1 := newSB("Ms").add(fld("s", tStr(), 0), fld("t", tUint(16), 16)).end()
	b1 := newSB("Mb").add(fld("h", tUint(8), 8), fld("b", tBytes(), 0), fld("t", tUint(8), 8)).end()
	sb1 := newSB("Msb").add(fld("s", tStr(), 0), fld("h", tUint(8), 8), fld("b", tBytes(), 0)).end()
	bs := newSB("Mbs").add(fld("b", tBytes(), 0), constF("k", tUint(8), 8, "0x5A", 0x5a), fld("s", tStr(), 0)).end()
	ar := newSB("Mar").add(fld("s", tArr(tStr(), 2), 0), fld("t", tUint(8), 8), fld("bb", tArr(tBytes(), 2), 0)).end()
	a5 := newSB("Ma5").add(fld("s", tArr(tStr(), 5), 0), fld("t", tUint(8), 8)).end()
	in1 := newSB("Mi").add(fld("p", tUint(8), 8), fld("b", tBytes(), 0)).end()
	ne := newSB("Mne").add(fld("h", tUint(8), 8), fld("n", tStruct(in1), 0), fld("q", tUint(8), 4), fld("q2", tUint(8), 4), fld("m", tArr(tStruct(in1), 2), 0)).end()
	n5 := newSB("Mn5").add(fld("m", tArr(tStruct(in1), 5), 0), fld("e", tUint(8), 8)).end()
	ne2 := newSB("Mn2").add(fld("n", tStruct(in1), 0), fld("f", tStruct(fx), 0), fld("s", tStr(), 0)).end()
	em := newSB("Me").add(embedF(in1, false), fld("z", tUint(16), 16)).add(embedF(s1, false)).end()
	var bs2 []*Batch
	for _, j := range []struct {
		s    *SStruct
		n    int
		deps []*SStruct
	}{{n5, 7 + x, []*SStruct{in1}}, {ne2, 8 + x, []*SStruct{in1, fx}}, {ne, 8 + x, []*SStruct{in1}}, {em, 8 + x, []*SStruct{in1, s1}}, {ar, 7 + x, nil}, {a5, 7 + x, nil},
		{bs, 6 + x, nil}, {sb1, 6 + x, nil}, {in1, 7 + x, nil}, {b1, 7 + x, nil}, {s1, 6 + x, nil}, {fx, 8, nil}} {
		g := &SFile{Pkg: f.Pkg, Enums: f.Enums, Structs: append(append([]*SStruct{}, j.deps...), j.s)}
		bs2 = append(bs2, &Batch{Name: "malformed-" + j.s.Name, File: g, Opts: [][]string{nil, {"-unroll=0"}, {"-unroll=-1", "-compat"}}, Jobs: []*Job{{File: g, S: j.s, Mal: j.n}}})
	}
	return bs2
}
