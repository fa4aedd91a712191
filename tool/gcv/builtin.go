package gcv

import (
	"math/big"
	"strings"

	"verif/sym"
)

func native(name string, f func(in *Interp, this Val, a []Val) Val) *FuncV {
	return &FuncV{Name: name, Native: f}
}

// ------------------------------------------------------------- byte helpers

func (in *Interp) newBytes(bs []sym.Num, kind string, signed bool) Bytes {
	return Bytes{B: &Buf{B: bs}, Len: len(bs), Cap: len(bs), Kind: kind, S: signed}
}

func (b Bytes) slice() []sym.Num {
	if b.SymLen != nil {
		panic(Unsup{"content of a blob with a symbolic length", 0})
	}
	return b.B.B[b.Off : b.Off+b.Len]
}

func copyNums(x []sym.Num) []sym.Num { return append([]sym.Num{}, x...) }

func zeros(n int) []sym.Num {
	b := make([]sym.Num, n)
	for i := range b {
		b[i] = sym.Num{sym.False}
	}
	return b
}

// span checks lo..lo+n against a view and throws the language's error.
func (in *Interp) span(b Bytes, lo, n Val, what string) (int, int) {
	c := in.C
	x, ok1 := in.toInt(lo)
	y, ok2 := in.toInt(n)
	if !ok1 || !ok2 {
		in.unsup("%s bounds", what)
	}
	sum := c.Add(x.N, y.N)
	ok := c.And(c.And(x.N[len(x.N)-1].Not(), y.N[len(y.N)-1].Not()), c.NLt(c.Int(int64(b.Len)), sum).Not())
	if b.Inf {
		ok = sym.True
	}
	if !in.Branch(ok) {
		if in.exc() {
			in.throw("IndexOutOfBounds", "%s outside a view of %d bytes", what, b.Len)
		}
		in.fail("oob", "%s outside a view of %d bytes", what, b.Len)
	}
	return int(in.Concrete(x.N).Int64()), int(in.Concrete(y.N).Int64())
}

func (in *Interp) blit(dst Bytes, do int, src []sym.Num) {
	if dst.B.RO {
		in.fail("write", "write to the input buffer")
	}
	cp := copyNums(src)
	for i, n := range cp {
		in.setByte(dst.B, dst.Off+do+i, n)
	}
}

func (in *Interp) asPtr(v Val) Ptr {
	switch x := v.(type) {
	case Ptr:
		return x
	case *Arr:
		return Ptr{A: x, T: x.T}
	case Bytes:
		return Ptr{B: x.B, Off: x.Off, T: rtU8}
	case Nil:
		in.fail("null", "null pointer")
	}
	in.unsup("pointer expected, got %s", describe(v))
	return Ptr{}
}

func (in *Interp) cstrlen(p Ptr) int {
	for k := 0; ; k++ {
		b := in.readByte(p, k)
		if in.Branch(in.C.NZero(b)) {
			return k
		}
	}
}

func (in *Interp) ptrBytes(p Ptr, n int) []sym.Num {
	var out []sym.Num
	for k := 0; k < n; k++ {
		out = append(out, in.readByte(p, k))
	}
	return out
}

// length turns a possibly symbolic size into a concrete one, refusing absurd sizes.
func (in *Interp) length(v Val, lim int) int {
	x, ok := in.toInt(v)
	if !ok {
		in.unsup("length %s", describe(v))
	}
	if !x.N.Const() {
		bad := in.C.Or(x.N[len(x.N)-1], in.C.NLt(in.C.Int(int64(lim)), x.N))
		if in.Branch(bad) {
			if in.exc() {
				in.throw("Length", "length outside 0..%d", lim)
			}
			in.fail("oob", "length outside 0..%d", lim)
		}
	}
	k := in.ConcInt(x)
	if k < 0 || k > lim {
		if in.exc() {
			in.throw("Length", "length %d", k)
		}
		in.fail("oob", "length %d exceeds the object", k)
	}
	return k
}

// ------------------------------------------------------------- free functions

func (in *Interp) biCall(name string, an []*Node, n *Node, e *Env) Val {
	switch in.M.D {
	case DKt:
		if v, ok := in.ktCall(name, an, n, e); ok {
			return v
		}
	case DPy:
		if v, ok := in.pyCall(name, an, n, e); ok {
			return v
		}
	case DGo:
		return in.goBuiltin(name, an, n, e)
	}
	return in.biNS(name, in.args(an, e), n)
}

func (in *Interp) cLib(name string, a []Val) (Val, bool) {
	switch name {
	case "memcpy", "memmove":
		nb := in.length(a[2], 1<<17)
		if nb == 0 {
			return Nil{}, true
		}
		d, s := in.asPtr(a[0]), in.asPtr(a[1])
		bs := in.ptrBytes(s, nb)
		for k, b := range bs {
			in.writeByte(d, k, b)
		}
		return a[0], true
	case "memset":
		nb := in.length(a[2], 1<<17)
		d := in.asPtr(a[0])
		x, _ := in.toInt(a[1])
		for k := 0; k < nb; k++ {
			in.writeByte(d, k, in.C.Wrap(x.N, 8, false))
		}
		return a[0], true
	case "malloc":
		nb := in.length(a[0], 1<<17)
		b := &Buf{Name: "heap"}
		in.nheap++
		for k := 0; k < nb; k++ {
			b.B = append(b.B, in.X.Var("heap"+itoa(in.nheap)+"."+itoa(k), 8, false))
		}
		return Ptr{B: b, T: rtInt(u8)}, true
	case "strlen":
		return in.intc(int64(in.cstrlen(in.asPtr(a[0]))), u64), true
	case "memchr":
		p := in.asPtr(a[0])
		x, _ := in.toInt(a[1])
		cn, _ := in.toInt(a[2])
		ch := in.C.Wrap(x.N, 8, false)
		for k := 0; ; k++ {
			if in.Branch(in.C.NLt(in.C.Int(int64(k)), cn.N).Not()) {
				return Nil{}, true
			}
			b := in.readByte(p, k)
			if in.Branch(in.C.NEq(b, ch)) {
				p.Off += k
				return p, true
			}
		}
	}
	return nil, false
}

// biNS calls a library name.
func (in *Interp) biNS(name string, a []Val, n *Node) Val {
	switch in.M.D {
	case DC, DCpp:
		if v, ok := in.cLib(name, a); ok {
			return v
		}
		if name == "move" || name == "forward" {
			return a[0]
		}
		if it, ok := cInts[name]; ok && len(a) == 1 {
			return in.convert(a[0], rtInt(it), true)
		}
	case DJs:
		if v, ok := in.jsLib("", name, a); ok {
			return v
		}
	}
	in.unsup("call of %s", name)
	return nil
}

func (in *Interp) biType(t *Ty, a []Val) Val {
	switch lastName(t.N) {
	case "string":
		switch len(a) {
		case 0:
			return &Str{HasB: true}
		case 1:
			p := in.asPtr(a[0])
			return &Str{HasB: true, B: in.ptrBytes(p, in.cstrlen(p))}
		case 2:
			p := in.asPtr(a[0])
			return &Str{HasB: true, B: in.ptrBytes(p, in.length(a[1], 1<<17))}
		}
	case "shared_ptr":
		if len(a) == 0 {
			return Nil{}
		}
		return a[0]
	case "span":
		if len(a) == 2 {
			p := in.asPtr(a[0])
			x, _ := in.toInt(a[1])
			if x.N.Const() && in.C.Wrap(x.N, 64, true).Value().Sign() < 0 {
				return Bytes{B: p.B, Off: p.Off, Len: len(p.B.B) - p.Off, Kind: "span", Inf: true}
			}
			k := in.ConcInt(x)
			return Bytes{B: p.B, Off: p.Off, Len: k, Kind: "span"}
		}
		return a[0]
	case "memcpy", "memchr", "strlen", "memset":
		v, _ := in.cLib(lastName(t.N), a)
		return v
	case "Span", "Memory", "ReadOnlySpan", "ReadOnlyMemory":
		return in.biNew(lastName(t.N), t, a)
	case "move":
		return a[0]
	}
	in.unsup("call of type %s", t)
	return nil
}

// ------------------------------------------------------------- members

func (in *Interp) biMember(o Val, name string) (Val, bool) {
	di := in.defInt()
	switch x := o.(type) {
	case Bytes:
		switch name {
		case "length", "Length", "size", "byteLength":
			if in.M.D == DCpp {
				break
			}
			return in.blen(x, di), true
		case "Span", "Memory":
			if in.M.D == DCs {
				return x, true
			}
		case "IsEmpty":
			return Bool{in.bempty(x)}, true
		case "indices":
			return rangeV{0, x.Len, 1, i32}, true
		case "byteOffset":
			return in.intc(int64(x.Off), di), true
		case "buffer":
			return Bytes{B: x.B, Len: len(x.B.B), Kind: "js"}, true
		case "nbytes":
			return in.blen(x, di), true
		}
	case *Arr:
		switch name {
		case "length", "size", "Length", "Count":
			return in.intc(int64(len(x.E)), di), true
		case "indices":
			return rangeV{0, len(x.E), 1, i32}, true
		}
	case *Str:
		switch name {
		case "length", "Length":
			if in.M.D == DJava {
				break
			}
			if !x.HasU {
				in.unsup("UTF-16 length")
			}
			return in.intc(int64(len(x.U)), di), true
		}
	case NS:
		return in.nsMember(x.N, name), true
	case TyV:
		return in.nsMember(lastName(x.T.N), name), true
	case *FuncV:
		if in.M.D == DJs {
			return in.jsGet(in.fnObj(x), name), true
		}
	case ClsV:
		if in.M.D == DPy && name == "__name__" {
			return in.str(x.C.Name), true
		}
	}
	return &FuncV{Name: name, Native: func(in *Interp, this Val, a []Val) Val {
		return in.biMethod(o, name, a, nil)
	}}, true
}

func (in *Interp) nsMember(ns, name string) Val {
	switch in.M.D {
	case DCs:
		if name == "Empty" && (ns == "Memory" || ns == "Span" || ns == "ReadOnlyMemory") {
			return in.newBytes(nil, strings.ToLower(ns), false)
		}
		if it, ok := csInts[ns]; ok {
			if v, ok := in.minMax(it, name, "MinValue", "MaxValue"); ok {
				return v
			}
		}
	case DKt:
		if it, ok := ktInts[ns]; ok {
			if v, ok := in.minMax(it, name, "MIN_VALUE", "MAX_VALUE"); ok {
				return v
			}
		}
	case DJava:
		if it, ok := jInts[ns]; ok {
			if v, ok := in.minMax(it, name, "MIN_VALUE", "MAX_VALUE"); ok {
				return v
			}
		}
	case DJs:
		if ns == "Number" && name == "MAX_SAFE_INTEGER" {
			return in.intc(1<<53-1, inum)
		}
	}
	return NS{ns + "." + name}
}

func (in *Interp) minMax(it IT, name, mn, mx string) (Val, bool) {
	hi := new(big.Int).Lsh(big.NewInt(1), uint(it.W))
	if it.S {
		hi.Rsh(hi, 1)
	}
	switch name {
	case mx:
		return Int{N: in.C.Big(new(big.Int).Sub(hi, big.NewInt(1))), T: it}, true
	case mn:
		if it.S {
			return Int{N: in.C.Big(new(big.Int).Neg(hi)), T: it}, true
		}
		return in.intc(0, it), true
	}
	return nil, false
}

// ------------------------------------------------------------- methods

func (in *Interp) biMethod(recv Val, name string, a []Val, n *Node) Val {
	var v Val
	ok := false
	switch in.M.D {
	case DCpp, DC:
		v, ok = in.cppMethod(recv, name, a)
	case DJava:
		v, ok = in.javaMethod(recv, name, a)
	case DCs:
		v, ok = in.csMethod(recv, name, a)
	case DKt:
		v, ok = in.ktMethod(recv, name, a)
	case DJs:
		v, ok = in.jsMethod(recv, name, a)
	case DPy:
		v, ok = in.pyMethod(recv, name, a)
	case DGo:
		v, ok = in.goMethod(recv, name, a)
	}
	if !ok {
		in.unsup("method %s of %s", name, describe(recv))
	}
	return v
}

func (in *Interp) cppMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case *Str:
		switch name {
		case "size", "length":
			return in.intc(int64(len(x.B)), u64), true
		case "empty":
			return Bool{litOf(len(x.B) == 0)}, true
		case "data", "c_str":
			b := &Buf{B: append(copyNums(x.B), sym.Num{sym.False}), RO: true}
			return Ptr{B: b, T: rtInt(i8)}, true
		}
	case Bytes:
		switch name {
		case "size", "length":
			if x.Inf {
				return Int{N: in.C.Big(new(big.Int).SetUint64(1<<64 - 1 - uint64(x.Off))), T: u64}, true
			}
			return in.blen(x, u64), true
		case "data":
			return Ptr{B: x.B, Off: x.Off, T: rtU8}, true
		case "empty":
			return Bool{in.bempty(x)}, true
		case "subspan":
			cnt := Val(nil)
			off := a[0]
			if len(a) > 1 {
				cnt = a[1]
			}
			if cnt == nil {
				o, _ := in.span(x, off, in.intc(0, u64), "subspan")
				if o > len(x.B.B)-x.Off {
					in.fail("oob", "subspan(%d) past the end", o)
				}
				return Bytes{B: x.B, Off: x.Off + o, Len: x.Len - o, Kind: "span", Inf: x.Inf}, true
			}
			o, k := in.span(x, off, cnt, "subspan")
			return Bytes{B: x.B, Off: x.Off + o, Len: k, Kind: "span"}, true
		}
	case Ptr:
		if name == "get" {
			return x, true
		}
	case Nil:
		if name == "get" {
			return x, true
		}
	case NS:
		if v, ok := in.cLib(name, a); ok {
			return v, true
		}
		if name == "move" {
			return a[0], true
		}
		if name == "min" || name == "max" {
			return in.minmax(name == "min", a), true
		}
		if name == "string" || name == "span" || name == "shared_ptr" {
			return in.biType(&Ty{K: "n", N: name}, a), true
		}
	}
	return nil, false
}

func (in *Interp) minmax(min bool, a []Val) Val {
	x, _ := in.toInt(a[0])
	for _, v := range a[1:] {
		y, _ := in.toInt(v)
		l := in.C.NLt(x.N, y.N)
		if !min {
			l = l.Not()
		}
		t := x.T
		if x.Lit {
			t = y.T
		}
		x = Int{N: in.C.NIte(l, x.N, y.N), T: t}
	}
	return x
}

func (in *Interp) utf8(b []sym.Num) *Str { return &Str{HasB: true, B: copyNums(b)} }

func (in *Interp) needB(s *Str) []sym.Num {
	if !s.HasB {
		in.unsup("UTF-8 bytes of a string")
	}
	return s.B
}

func (in *Interp) javaMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case NS:
		switch x.N + "." + name {
		case "System.arraycopy":
			src, ok1 := a[0].(Bytes)
			dst, ok2 := a[2].(Bytes)
			if !ok1 || !ok2 {
				break
			}
			so, k := in.span(src, a[1], a[4], "arraycopy source")
			do, _ := in.span(dst, a[3], a[4], "arraycopy target")
			in.blit(dst, do, src.slice()[so:so+k])
			return Undef{}, true
		case "Byte.toUnsignedInt", "Short.toUnsignedInt":
			y := a[0].(Int)
			return in.mk(in.C.Wrap(y.N, y.T.W, false), i32), true
		case "Byte.toUnsignedLong", "Short.toUnsignedLong", "Integer.toUnsignedLong":
			y := a[0].(Int)
			return in.mk(in.C.Wrap(y.N, y.T.W, false), i64), true
		case "Float.floatToRawIntBits":
			if f, ok := a[0].(Flt); ok && f.W == 32 {
				return in.mk(f.B, i32), true
			}
		case "Double.doubleToRawLongBits":
			if f, ok := a[0].(Flt); ok && f.W == 64 {
				return in.mk(f.B, i64), true
			}
		case "Float.intBitsToFloat":
			return Flt{32, in.C.Wrap(a[0].(Int).N, 32, false)}, true
		case "Double.longBitsToDouble":
			return Flt{64, in.C.Wrap(in.convert(a[0], rtInt(i64), true).(Int).N, 64, false)}, true
		case "Math.min", "Math.max":
			return in.mk(in.minmax(name == "min", a).(Int).N, in.usual(a[0].(Int), a[1].(Int))), true
		case "Arrays.copyOfRange":
			b, ok := a[0].(Bytes)
			if !ok {
				break
			}
			lo, _ := in.toInt(a[1])
			hi, _ := in.toInt(a[2])
			d := Int{N: in.C.Sub(hi.N, lo.N), T: i64}
			if in.Branch(d.N[len(d.N)-1]) {
				in.throw("IllegalArgumentException", "from > to")
			}
			o, k := in.span(b, lo, d, "copyOfRange") // zero padding past the end is not modelled
			return in.newBytes(copyNums(b.slice()[o:o+k]), "byte[]", b.S), true
		case "Byte.valueOf", "Short.valueOf", "Integer.valueOf", "Long.valueOf":
			return a[0], true
		case "Boolean.compare":
		}
	case *Str:
		switch name {
		case "getBytes":
			return in.newBytes(copyNums(in.needB(x)), "byte[]", true), true
		case "isEmpty":
			return Bool{litOf(len(in.needB(x)) == 0)}, true
		}
	case Bytes:
		if name == "clone" {
			return in.newBytes(copyNums(x.slice()), x.Kind, x.S), true
		}
	}
	return nil, false
}

func (in *Interp) csMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case NS:
		ns := x.N
		if i := strings.LastIndex(ns, "."); i >= 0 {
			ns = ns[i+1:]
		}
		switch ns + "." + name {
		case "UTF8.GetBytes":
			if s, ok := a[0].(*Str); ok && len(a) == 1 {
				return in.newBytes(copyNums(in.needB(s)), "byte[]", false), true
			}
			if s, ok := a[0].(*Str); ok && len(a) == 2 {
				if d, ok := a[1].(Bytes); ok {
					if len(in.needB(s)) > d.Len {
						in.throw("ArgumentException", "destination too short")
					}
					in.blit(d, 0, s.B)
					return in.intc(int64(len(s.B)), i32), true
				}
			}
		case "UTF8.GetByteCount":
			if s, ok := a[0].(*Str); ok {
				return in.intc(int64(len(in.needB(s))), i32), true
			}
		case "UTF8.GetString":
			b, ok := a[0].(Bytes)
			if !ok {
				break
			}
			if len(a) == 1 {
				return in.utf8(b.slice()), true
			}
			if len(a) == 3 {
				o, k := in.span(b, a[1], a[2], "GetString")
				return in.utf8(b.slice()[o : o+k]), true
			}
		case "BitConverter.GetBytes":
			nn, w := in.bits(a[0])
			var bs []sym.Num
			for k := 0; k < w/8; k++ {
				bs = append(bs, in.C.Wrap(in.C.NShr(nn, 8*k), 8, false))
			}
			return in.newBytes(bs, "byte[]", false), true
		case "BitConverter.ToUInt32", "BitConverter.ToSingle", "BitConverter.ToUInt64", "BitConverter.ToDouble", "BitConverter.ToInt32", "BitConverter.ToInt64":
			w := 4
			if strings.Contains(name, "64") || name == "ToDouble" {
				w = 8
			}
			b, ok := a[0].(Bytes)
			if !ok {
				break
			}
			off := Val(in.intc(0, i32))
			if len(a) > 1 {
				off = a[1]
			}
			o, _ := in.span(b, off, in.intc(int64(w), i32), name)
			var nn sym.Num
			for k := 0; k < w; k++ {
				for j := 0; j < 8; j++ {
					nn = append(nn, b.slice()[o+k].Bit(j))
				}
			}
			nn = append(nn, sym.False)
			switch name {
			case "ToUInt32":
				return in.mk(nn, u32), true
			case "ToUInt64":
				return in.mk(nn, u64), true
			case "ToInt32":
				return in.mk(nn, i32), true
			case "ToInt64":
				return in.mk(nn, i64), true
			case "ToSingle":
				return Flt{32, in.C.Wrap(nn, 32, false)}, true
			}
			return Flt{64, in.C.Wrap(nn, 64, false)}, true
		case "BitConverter.SingleToInt32Bits":
			return in.mk(a[0].(Flt).B, i32), true
		case "BitConverter.SingleToUInt32Bits":
			return in.mk(a[0].(Flt).B, u32), true
		case "BitConverter.DoubleToInt64Bits":
			return in.mk(a[0].(Flt).B, i64), true
		case "BitConverter.DoubleToUInt64Bits":
			return in.mk(a[0].(Flt).B, u64), true
		case "Array.Copy", "Buffer.BlockCopy":
			if len(a) == 5 {
				src, ok1 := a[0].(Bytes)
				dst, ok2 := a[2].(Bytes)
				if ok1 && ok2 {
					so, k := in.span(src, a[1], a[4], "copy source")
					do, _ := in.span(dst, a[3], a[4], "copy target")
					in.blit(dst, do, src.slice()[so:so+k])
					return Undef{}, true
				}
			}
		case "Array.Empty":
			return in.newBytes(nil, "byte[]", false), true
		case "Math.Min", "Math.Max":
			return in.mk(in.minmax(name == "Min", a).(Int).N, in.usual(a[0].(Int), a[1].(Int))), true
		}
	case Bytes:
		switch name {
		case "Slice":
			if len(a) == 1 {
				o, _ := in.span(x, a[0], in.intc(0, i32), "Slice")
				return Bytes{B: x.B, Off: x.Off + o, Len: x.Len - o, Kind: x.Kind}, true
			}
			o, k := in.span(x, a[0], a[1], "Slice")
			return Bytes{B: x.B, Off: x.Off + o, Len: k, Kind: x.Kind}, true
		case "ToArray":
			return in.newBytes(copyNums(x.slice()), "byte[]", false), true
		case "CopyTo":
			d, ok := a[0].(Bytes)
			if !ok {
				break
			}
			do := 0
			if len(a) > 1 {
				do, _ = in.span(d, a[1], in.intc(int64(x.Len), i32), "CopyTo")
			}
			if x.Len > d.Len {
				in.throw("ArgumentException", "destination too short")
			}
			in.blit(d, do, x.slice())
			return Undef{}, true
		case "AsSpan", "AsMemory":
			y := x
			y.Kind = "span"
			if name == "AsMemory" {
				y.Kind = "memory"
			}
			switch len(a) {
			case 1:
				o, _ := in.span(x, a[0], in.intc(0, i32), name)
				y.Off, y.Len = x.Off+o, x.Len-o
			case 2:
				o, k := in.span(x, a[0], a[1], name)
				y.Off, y.Len = x.Off+o, k
			}
			return y, true
		case "Clear":
			in.blit(x, 0, zeros(x.Len))
			return Undef{}, true
		case "IndexOf":
			if v, ok := in.toInt(a[0]); ok {
				for i, b := range x.slice() {
					if in.Branch(in.C.NEq(b, in.C.Wrap(v.N, 8, false))) {
						return in.intc(int64(i), i32), true
					}
				}
				return in.intc(-1, i32), true
			}
		}
	case TyV:
		return in.csMethod(NS{lastName(x.T.N)}, name, a)
	}
	return nil, false
}

func (in *Interp) biNew(name string, t *Ty, a []Val) Val {
	switch in.M.D {
	case DJava:
		switch name {
		case "String":
			b, ok := Val(nil), false
			if len(a) > 0 {
				b, ok = a[0], true
			}
			bs, ok2 := b.(Bytes)
			if ok && ok2 {
				if len(a) >= 3 {
					o, k := in.span(bs, a[1], a[2], "String")
					return in.utf8(bs.slice()[o : o+k])
				}
				return in.utf8(bs.slice())
			}
		}
		if strings.HasSuffix(name, "Exception") {
			return &Obj{Kind: name, F: map[string]*Cell{}}
		}
	case DCs:
		switch name {
		case "Memory", "Span", "ReadOnlySpan", "ReadOnlyMemory":
			if len(a) == 0 {
				return in.newBytes(nil, strings.ToLower(name), false)
			}
			b, ok := a[0].(Bytes)
			if !ok {
				break
			}
			kind := "span"
			if strings.HasSuffix(name, "Memory") {
				kind = "memory"
			}
			if len(a) == 3 {
				o, k := in.span(b, a[1], a[2], name)
				return Bytes{B: b.B, Off: b.Off + o, Len: k, Kind: kind}
			}
			return Bytes{B: b.B, Off: b.Off, Len: b.Len, Kind: kind}
		}
		if strings.HasSuffix(name, "Exception") {
			return &Obj{Kind: name, F: map[string]*Cell{}}
		}
	case DJs:
		return in.jsNewLib(name, a)
	}
	in.unsup("new %s", name)
	return nil
}

// ------------------------------------------------------------- Kotlin

func (in *Interp) ktCall(name string, an []*Node, n *Node, e *Env) (Val, bool) {
	lambda := func(i int) *FuncV {
		v, ok := in.eval(an[i], e).(*FuncV)
		if !ok {
			in.unsup("lambda expected")
		}
		return v
	}
	switch name {
	case "run":
		return in.callLambda(lambda(0), nil), true
	case "repeat":
		k := in.ConcInt(in.eval(an[0], e))
		f := lambda(1)
		for i := 0; i < k; i++ {
			in.callLambda(f, []Val{in.intc(int64(i), i32)})
		}
		return Undef{}, true
	case "maxOf", "minOf":
		a := in.args(an, e)
		r := in.minmax(name == "minOf", a).(Int)
		r.T = in.usual(a[0].(Int), a[1].(Int))
		return in.mk(r.N, r.T), true
	case "ByteArray":
		if len(an) == 1 {
			k := in.length(in.eval(an[0], e), 1<<17)
			return in.newBytes(zeros(k), "ByteArray", true), true
		}
	case "byteArrayOf":
		var bs []sym.Num
		for _, v := range in.args(an, e) {
			x, _ := in.toInt(v)
			bs = append(bs, in.C.Wrap(x.N, 8, false))
		}
		return in.newBytes(bs, "ByteArray", true), true
	case "arrayOf", "listOf", "mutableListOf":
		et := (*RT)(nil)
		if n.A[0].T != nil {
			et = in.rt(n.A[0].T)
		}
		return in.arrOf(et, in.args(an, e)), true
	case "arrayOfNulls":
		k := in.length(in.eval(an[0], e), 1<<17)
		a := &Arr{}
		for i := 0; i < k; i++ {
			a.E = append(a.E, &Cell{V: Undef{}})
		}
		return a, true
	case "Array", "MutableList", "List":
		k := in.length(in.eval(an[0], e), 1<<17)
		f := lambda(1)
		a := &Arr{}
		for i := 0; i < k; i++ {
			v := in.callLambda(f, []Val{in.intc(int64(i), i32)})
			a.E = append(a.E, &Cell{V: v, T: in.typeOf(v)})
		}
		return a, true
	case "require", "check":
		if !in.Branch(in.truth(in.eval(an[0], e))) {
			in.throw("IllegalArgumentException", "require")
		}
		return Undef{}, true
	case "error":
		in.throw("IllegalStateException", "error")
	}
	if strings.HasSuffix(name, "Array") {
		et := in.rt(&Ty{K: "n", N: strings.TrimSuffix(name, "Array")})
		k := in.length(in.eval(an[0], e), 1<<17)
		if len(an) > 1 {
			f := lambda(1)
			a := &Arr{T: et}
			for i := 0; i < k; i++ {
				a.E = append(a.E, &Cell{V: in.convert(in.callLambda(f, []Val{in.intc(int64(i), i32)}), et, false), T: et})
			}
			return a, true
		}
		return in.mkArr(et, k), true
	}
	if strings.HasSuffix(name, "Of") {
		b := strings.TrimSuffix(name, "ArrayOf")
		if b != name {
			et := in.rt(&Ty{K: "n", N: strings.ToUpper(b[:1]) + b[1:]})
			return in.arrOf(et, in.args(an, e)), true
		}
	}
	return nil, false
}

func (in *Interp) ktMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case Int:
		if strings.HasPrefix(name, "to") && len(a) == 0 {
			if it, ok := ktInts[name[2:]]; ok {
				return in.mk(x.N, it), true
			}
			switch name {
			case "toFloat":
				return in.intToFlt(x, 32), true
			case "toDouble":
				return in.intToFlt(x, 64), true
			}
		}
		switch name {
		case "inv":
			return in.mk(in.C.NNot(x.N), x.T), true
		case "and", "or", "xor", "shl", "shr", "ushr":
			return in.arith(name, x, a[0]), true
		case "unaryMinus":
			return in.mk(in.C.Neg(x.N), x.T), true
		case "coerceAtLeast", "coerceAtMost":
			return in.minmax(name == "coerceAtMost", []Val{x, a[0]}), true
		}
	case Flt:
		switch name {
		case "toRawBits", "toBits":
			if x.W == 32 {
				return in.mk(x.B, i32), true
			}
			return in.mk(x.B, i64), true
		}
	case NS:
		switch x.N + "." + name {
		case "Float.fromBits":
			return Flt{32, in.C.Wrap(a[0].(Int).N, 32, false)}, true
		case "Double.fromBits":
			return Flt{64, in.C.Wrap(a[0].(Int).N, 64, false)}, true
		case "System.arraycopy":
			return in.javaMethod(recv, name, a)
		}
	case *Str:
		switch name {
		case "encodeToByteArray", "toByteArray":
			return in.newBytes(copyNums(in.needB(x)), "ByteArray", true), true
		case "isEmpty":
			return Bool{litOf(len(in.needB(x)) == 0)}, true
		case "isNotEmpty":
			return Bool{litOf(len(in.needB(x)) != 0)}, true
		}
	case Bytes:
		switch name {
		case "copyInto":
			d, ok := a[0].(Bytes)
			if !ok {
				break
			}
			get := func(i int, def int) Val {
				if i < len(a) {
					return a[i]
				}
				return in.intc(int64(def), i32)
			}
			so, _ := in.toInt(get(2, 0))
			se, _ := in.toInt(get(3, x.Len))
			k := Int{N: in.C.Sub(se.N, so.N), T: i64}
			o, kk := in.span(x, so, k, "copyInto source")
			do, _ := in.span(d, get(1, 0), k, "copyInto target")
			in.blit(d, do, x.slice()[o:o+kk])
			return d, true
		case "copyOfRange":
			lo, _ := in.toInt(a[0])
			hi, _ := in.toInt(a[1])
			o, k := in.span(x, lo, Int{N: in.C.Sub(hi.N, lo.N), T: i64}, "copyOfRange")
			return in.newBytes(copyNums(x.slice()[o:o+k]), x.Kind, x.S), true
		case "copyOf":
			if len(a) == 0 {
				return in.newBytes(copyNums(x.slice()), x.Kind, x.S), true
			}
		case "decodeToString":
			if len(a) == 0 {
				return in.utf8(x.slice()), true
			}
			lo, _ := in.toInt(a[0])
			hi, _ := in.toInt(a[1])
			o, k := in.span(x, lo, Int{N: in.C.Sub(hi.N, lo.N), T: i64}, "decodeToString")
			return in.utf8(x.slice()[o : o+k]), true
		case "isEmpty":
			return Bool{in.bempty(x)}, true
		}
	}
	switch name {
	case "let", "also", "apply", "run":
		if f, ok := a[0].(*FuncV); ok {
			r := in.callLambda(f, []Val{recv})
			if name == "also" || name == "apply" {
				return recv, true
			}
			return r, true
		}
	}
	return nil, false
}

// ------------------------------------------------------------- JavaScript

func (in *Interp) jsNewLib(name string, a []Val) Val {
	switch name {
	case "Array":
		arr := &Arr{}
		if len(a) == 1 {
			k := in.length(a[0], 1<<17)
			for i := 0; i < k; i++ {
				arr.E = append(arr.E, &Cell{V: Undef{}})
			}
		}
		return arr
	case "Uint8Array", "ArrayBuffer":
		if len(a) == 0 {
			return in.jsBytes(0)
		}
		switch x := a[0].(type) {
		case Int:
			return in.jsBytes(in.length(x, 1<<17))
		case *Arr:
			var bs []sym.Num
			for _, c := range x.E {
				v, ok := in.toInt(c.V)
				if !ok {
					in.unsup("Uint8Array element")
				}
				bs = append(bs, in.C.Wrap(v.N, 8, false))
			}
			return in.newBytes(bs, "js", false)
		case Bytes:
			if len(a) == 1 {
				if x.Kind == "jsbuf" {
					return Bytes{B: x.B, Len: x.Len, Off: x.Off, Kind: "js"}
				}
				return in.newBytes(copyNums(x.slice()), "js", false)
			}
			if len(a) == 3 {
				o, k := in.span(x, a[1], a[2], "Uint8Array")
				return Bytes{B: x.B, Off: x.Off + o, Len: k, Kind: "js"}
			}
		}
	case "DataView":
		if b, ok := a[0].(Bytes); ok {
			b.Kind = "DataView"
			return b
		}
	case "Error", "TypeError", "RangeError":
		o := newJSObj(nil)
		o.Kind = name
		return o
	}
	in.unsup("new %s", name)
	return nil
}

func (in *Interp) jsLib(ns, name string, a []Val) (Val, bool) {
	arg := func(i int) Val {
		if i < len(a) {
			return a[i]
		}
		return Undef{}
	}
	full := name
	if ns != "" {
		full = ns + "." + name
	}
	switch full {
	case "BigInt":
		switch x := arg(0).(type) {
		case Int:
			return Int{N: x.N, T: ibig}, true
		case Bool:
			return Int{N: sym.Num{x.L, sym.False}, T: ibig}, true
		case Undef, Nil:
			in.throw("TypeError", "cannot convert to a BigInt")
		}
	case "Number":
		switch x := arg(0).(type) {
		case Int:
			if x.T.W == 0 {
				lim := in.C.Big(new(big.Int).Lsh(big.NewInt(1), 53))
				big1 := in.C.Or(in.C.NLt(lim, x.N), in.C.NLt(x.N, in.C.Neg(lim)))
				if big1 != sym.False && in.Branch(big1) {
					in.fail("precision", "Number() of a BigInt beyond 2^53")
				}
			}
			n := x.N
			if len(n) > 55 {
				n = in.C.Wrap(n, 55, true)
			}
			return Int{N: n, T: inum}, true
		case Bool:
			return Int{N: sym.Num{x.L, sym.False}, T: inum}, true
		}
	case "Boolean":
		return Bool{in.truth(arg(0))}, true
	case "String":
		return in.toStr(arg(0)), true
	case "BigInt.asUintN", "BigInt.asIntN":
		k := in.ConcInt(arg(0))
		x, ok := arg(1).(Int)
		if ok && x.T.W == 0 {
			return Int{N: in.C.Wrap(x.N, k, name == "asIntN"), T: ibig}, true
		}
	case "Array.isArray":
		_, ok := arg(0).(*Arr)
		return Bool{litOf(ok)}, true
	case "Array.from":
		o := &Arr{}
		switch x := arg(0).(type) {
		case *Arr:
			for _, c := range x.E {
				o.E = append(o.E, &Cell{V: c.V})
			}
		case *Obj:
			k := in.ConcInt(in.jsGet(x, "length"))
			for i := 0; i < k; i++ {
				o.E = append(o.E, &Cell{V: Undef{}})
			}
		default:
			return nil, false
		}
		if f, ok := arg(1).(*FuncV); ok {
			for i, c := range o.E {
				c.V = in.callVal(f, nil, []Val{c.V, in.intc(int64(i), inum)}, nil)
			}
		}
		return o, true
	case "Array":
		return in.jsNewLib("Array", a), true
	case "Object.create":
		p, _ := arg(0).(*Obj)
		return newJSObj(p), true
	case "Object.assign":
		o, ok := arg(0).(*Obj)
		if !ok {
			return nil, false
		}
		for _, s := range a[1:] {
			if so, ok := s.(*Obj); ok {
				for _, k := range so.Keys {
					in.jsProp(o, k).set(in, in.jsGet(so, k))
				}
			}
		}
		return o, true
	case "Object.keys":
		o := &Arr{}
		if ob, ok := arg(0).(*Obj); ok {
			for _, k := range ob.Keys {
				o.E = append(o.E, &Cell{V: in.str(k)})
			}
		}
		return o, true
	case "Object.freeze", "Object.setPrototypeOf":
		return arg(0), true
	case "Object.defineProperty":
		var o *Obj
		switch x := arg(0).(type) {
		case *Obj:
			o = x
		case *FuncV:
			o = in.fnObj(x)
		default:
			return nil, false
		}
		d, ok := arg(2).(*Obj)
		if !ok {
			return nil, false
		}
		k := in.propKey(arg(1))
		g, s := in.jsGet(d, "get"), in.jsGet(d, "set")
		if _, und := g.(Undef); !und {
			in.defAcc(o, k, "get", g)
		}
		if _, und := s.(Undef); !und {
			in.defAcc(o, k, "set", s)
		}
		if v := in.jsGet(d, "value"); d.F["value"] != nil {
			o.F[k] = &Cell{V: v}
		}
		return arg(0), true
	case "Object.defineProperties":
		d, ok := arg(1).(*Obj)
		if !ok {
			return nil, false
		}
		for _, k := range d.Keys {
			in.jsLib("Object", "defineProperty", []Val{arg(0), in.str(k), in.jsGet(d, k)})
		}
		return arg(0), true
	case "Math.floor", "Math.trunc":
		switch x := arg(0).(type) {
		case quot:
			n, _ := in.C.DivFloor(x.n, x.d)
			if name == "trunc" {
				n, _ = in.C.DivTrunc(x.n, x.d)
			}
			return in.mk(n, inum), true
		case Int:
			return x, true
		}
	case "Math.ceil":
		if x, ok := arg(0).(quot); ok {
			n, _ := in.C.DivFloor(in.C.Neg(x.n), x.d)
			return in.mk(in.C.Neg(n), inum), true
		}
		if x, ok := arg(0).(Int); ok {
			return x, true
		}
	case "Math.pow":
		return in.arith("**", arg(0), arg(1)), true
	case "Math.min", "Math.max":
		return in.minmax(name == "min", a), true
	case "Number.isInteger":
		_, ok := arg(0).(Int)
		return Bool{litOf(ok)}, true
	case "String.fromCharCode":
		s := &Str{HasU: true}
		for _, v := range a {
			x, ok := in.toInt(v)
			if !ok {
				in.unsup("fromCharCode")
			}
			s.U = append(s.U, in.C.Wrap(x.N, 16, false))
		}
		return s, true
	case "Uint8Array.from":
		return in.jsNewLib("Uint8Array", a), true
	}
	return nil, false
}

func (in *Interp) jsMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case NS:
		return in.jsLib(x.N, name, a)
	case *Str:
		switch name {
		case "charCodeAt":
			if !x.HasU {
				in.unsup("UTF-16 units")
			}
			i := in.ConcInt(a[0])
			if i < 0 || i >= len(x.U) {
				in.fail("undefined", "charCodeAt(%d) beyond the string", i)
			}
			return Int{N: x.U[i], T: inum}, true
		}
	case Bytes:
		if x.Kind == "DataView" {
			w := 4
			if strings.HasSuffix(name, "64") {
				w = 8
			}
			arg := 0
			put := strings.HasPrefix(name, "set")
			if put {
				arg = 1
			}
			le := false
			if len(a) > arg+1 {
				le = in.Branch(in.truth(a[arg+1]))
			}
			o, _ := in.span(x, a[0], in.intc(int64(w), inum), name)
			pos := func(k int) int {
				if le {
					return o + k
				}
				return o + w - 1 - k
			}
			if put {
				var n sym.Num
				switch name {
				case "setFloat32", "setFloat64":
					switch f := a[1].(type) {
					case Flt:
						if f.W != w*8 {
							f = in.convert(f, &RT{K: 'f', W: w * 8}, true).(Flt)
						}
						n = f.B
					case Int:
						n = in.intToFlt(f, w*8).B
					default:
						in.unsup("%s of %s", name, describe(a[1]))
					}
				case "setUint32", "setInt32":
					v, ok := in.toInt(a[1])
					if !ok {
						in.unsup("%s of %s", name, describe(a[1]))
					}
					n = in.C.Wrap(v.N, 32, false)
				case "setBigUint64", "setBigInt64":
					v, ok := a[1].(Int)
					if !ok || v.T.W != 0 {
						in.throw("TypeError", "BigInt expected")
					}
					n = in.C.Wrap(v.N, 64, false)
				default:
					return nil, false
				}
				for k := 0; k < w; k++ {
					in.setByte(x.B, x.Off+pos(k), in.C.Wrap(in.C.NShr(n, 8*k), 8, false))
				}
				return Undef{}, true
			}
			var n sym.Num
			for k := 0; k < w; k++ {
				b := x.B.B[x.Off+pos(k)]
				for j := 0; j < 8; j++ {
					n = append(n, b.Bit(j))
				}
			}
			n = append(n, sym.False)
			switch name {
			case "getUint32":
				return Int{N: n, T: inum}, true
			case "getInt32":
				return Int{N: in.C.Wrap(n, 32, true), T: inum}, true
			case "getFloat32":
				return Flt{32, in.C.Wrap(n, 32, false)}, true
			case "getFloat64":
				return Flt{64, in.C.Wrap(n, 64, false)}, true
			case "getBigUint64":
				return Int{N: n, T: ibig}, true
			case "getBigInt64":
				return Int{N: in.C.Wrap(n, 64, true), T: ibig}, true
			}
			return nil, false
		}
		switch name {
		case "set":
			src, ok := a[0].(Bytes)
			if !ok {
				if ar, ok2 := a[0].(*Arr); ok2 {
					src = in.jsNewLib("Uint8Array", []Val{ar}).(Bytes)
					ok = true
				}
			}
			if !ok {
				break
			}
			off := Val(in.intc(0, inum))
			if len(a) > 1 {
				off = a[1]
			}
			o, _ := in.span(x, off, in.intc(int64(src.Len), inum), "set")
			in.blit(x, o, src.slice())
			return Undef{}, true
		case "slice", "subarray":
			lo, hi := in.jsBounds(a, x.Len)
			if name == "subarray" {
				return Bytes{B: x.B, Off: x.Off + lo, Len: hi - lo, Kind: x.Kind}, true
			}
			return in.newBytes(copyNums(x.slice()[lo:hi]), x.Kind, false), true
		case "fill":
			v, _ := in.toInt(a[0])
			bs := make([]sym.Num, x.Len)
			for i := range bs {
				bs[i] = in.C.Wrap(v.N, 8, false)
			}
			in.blit(x, 0, bs)
			return x, true
		}
	case *Arr:
		switch name {
		case "push":
			for _, v := range a {
				in.growArr(x, &Cell{V: v})
			}
			return in.intc(int64(len(x.E)), inum), true
		case "shift":
			if len(x.E) == 0 {
				return Undef{}, true
			}
			v := x.E[0].V
			x.E = x.E[1:]
			return v, true
		case "map", "forEach":
			o := &Arr{}
			for i, c := range x.E {
				o.E = append(o.E, &Cell{V: in.callVal(a[0], nil, []Val{c.V, in.intc(int64(i), inum), x}, nil)})
			}
			return o, true
		case "fill":
			for _, c := range x.E {
				in.setCell(c, a[0])
			}
			return x, true
		case "slice":
			lo, hi := in.jsBounds(a, len(x.E))
			o := &Arr{}
			for _, c := range x.E[lo:hi] {
				o.E = append(o.E, &Cell{V: c.V})
			}
			return o, true
		}
	case *FuncV:
		switch name {
		case "call":
			return in.callVal(x, a[0], a[1:], nil), true
		case "apply":
			if ar, ok := a[1].(*Arr); ok {
				var vs []Val
				for _, c := range ar.E {
					vs = append(vs, c.V)
				}
				return in.callVal(x, a[0], vs, nil), true
			}
		case "bind":
			y := *x
			y.This, y.HasT = a[0], true
			return &y, true
		}
	case Undef, Nil:
		in.throw("TypeError", "property %s of %s", name, describe(recv))
	}
	return nil, false
}

func (in *Interp) jsBounds(a []Val, n int) (int, int) {
	s := sliceV{}
	if len(a) > 0 {
		if _, und := a[0].(Undef); !und {
			s.lo = a[0]
		}
	}
	if len(a) > 1 {
		if _, und := a[1].(Undef); !und {
			s.hi = a[1]
		}
	}
	return in.pyBounds(s, n)
}

// ------------------------------------------------------------- Python

func (in *Interp) pyCall(name string, an []*Node, n *Node, e *Env) (Val, bool) {
	var pos []*Node
	kw := map[string]*Node{}
	for _, x := range an {
		if x.K == "kwarg" {
			kw[x.S] = x.A[0]
		} else {
			pos = append(pos, x)
		}
	}
	a := in.args(pos, e)
	arg := func(i int) Val {
		if i < len(a) {
			return a[i]
		}
		return Nil{}
	}
	switch name {
	case "len":
		switch x := arg(0).(type) {
		case Bytes:
			return in.blen(x, ibig), true
		case *Arr:
			return in.intc(int64(len(x.E)), ibig), true
		case Tuple:
			return in.intc(int64(len(x)), ibig), true
		case *Str:
			if x.HasU {
				return in.intc(int64(len(x.U)), ibig), true
			}
		case Nil:
			in.throw("TypeError", "len() of None")
		}
	case "range":
		t := ibig
		switch len(a) {
		case 1:
			return rangeV{0, in.ConcInt(a[0]), 1, t}, true
		case 2:
			return rangeV{in.ConcInt(a[0]), in.ConcInt(a[1]), 1, t}, true
		case 3:
			return rangeV{in.ConcInt(a[0]), in.ConcInt(a[1]), in.ConcInt(a[2]), t}, true
		}
	case "bytes", "bytearray":
		kind := name
		switch x := arg(0).(type) {
		case Nil:
			if len(a) == 0 {
				return in.newBytes(nil, kind, false), true
			}
		case Bytes:
			return in.newBytes(copyNums(x.slice()), kind, false), true
		case *Str:
			if len(a) >= 2 || kw["encoding"] != nil {
				return in.newBytes(copyNums(in.needB(x)), kind, false), true
			}
		case Int:
			return in.newBytes(zeros(in.length(x, 1<<17)), kind, false), true
		case *Arr:
			var bs []sym.Num
			for _, c := range x.E {
				v, ok := in.toInt(c.V)
				if !ok {
					return nil, false
				}
				bs = append(bs, in.C.Wrap(v.N, 8, false))
			}
			return in.newBytes(bs, kind, false), true
		}
	case "memoryview":
		if b, ok := arg(0).(Bytes); ok {
			b.Kind = "memoryview"
			return b, true
		}
	case "isinstance":
		var ns []Val
		if t, ok := arg(1).(Tuple); ok {
			ns = t
		} else {
			ns = []Val{arg(1)}
		}
		r := false
		for _, t := range ns {
			switch x := t.(type) {
			case NS:
				b, isB := arg(0).(Bytes)
				switch x.N {
				case "bytes", "bytearray", "memoryview":
					r = r || isB && b.Kind == x.N
				case "int":
					_, ok := arg(0).(Int)
					_, ok2 := arg(0).(Bool)
					r = r || ok || ok2
				case "str":
					_, ok := arg(0).(*Str)
					r = r || ok
				case "float":
					_, ok := arg(0).(Flt)
					r = r || ok
				default:
					in.unsup("isinstance %s", x.N)
				}
			case ClsV:
				switch v := arg(0).(type) {
				case *Obj:
					r = r || v.Cls == x.C
				case EnumV:
					r = r || v.Cls == x.C
				}
			}
		}
		return Bool{litOf(r)}, true
	case "int":
		switch x := arg(0).(type) {
		case Int:
			return x, true
		case Bool:
			return Int{N: sym.Num{x.L, sym.False}, T: ibig}, true
		case Flt:
			if f, ok := in.fltConst(x); ok {
				return in.intc(int64(f), ibig), true
			}
		}
	case "bool":
		return Bool{in.truth(arg(0))}, true
	case "float":
		if len(a) == 0 {
			return in.mkFlt(0, 64), true
		}
		switch x := arg(0).(type) {
		case Flt:
			return x, true
		case Int:
			return in.intToFlt(x, 64), true
		}
	case "max", "min":
		return in.minmax(name == "min", a), true
	case "list":
		o := &Arr{Kind: "list"}
		if len(a) > 0 {
			s := in.iterate(a[0])
			for i := 0; ; i++ {
				v, ok := s(i)
				if !ok {
					break
				}
				o.E = append(o.E, &Cell{V: v})
			}
		}
		return o, true
	case "str":
		if b, ok := arg(0).(Bytes); ok {
			if len(a) < 2 {
				in.unsup("str() of bytes without an encoding")
			}
			return in.utf8(b.slice()), true
		}
		return in.toStr(arg(0)), true
	case "ValueError", "TypeError", "IndexError", "RuntimeError":
		return &Obj{Kind: name, F: map[string]*Cell{}}, true
	case "super":
		return NS{"super"}, true
	case "abs":
		if x, ok := in.toInt(arg(0)); ok {
			return Int{N: in.C.NIte(x.N[len(x.N)-1], in.C.Neg(x.N), x.N), T: ibig}, true
		}
	}
	return nil, false
}

func (in *Interp) pyMethod(recv Val, name string, a []Val) (Val, bool) {
	switch x := recv.(type) {
	case NS:
		switch x.N + "." + name {
		case "struct.pack":
			f, _ := in.goStr(a[0].(*Str))
			big1 := strings.HasPrefix(f, ">") || strings.HasPrefix(f, "!")
			f = strings.TrimLeft(f, "<>=!@")
			if len(f) != 1 {
				break
			}
			var n sym.Num
			w := 4
			switch f {
			case "f", "d":
				if f == "d" {
					w = 8
				}
				switch v := a[1].(type) {
				case Flt:
					n = in.convert(v, &RT{K: 'f', W: w * 8}, true).(Flt).B
				case Int:
					n = in.intToFlt(v, w*8).B
				default:
					in.throw("struct.error", "required argument is not a float")
				}
			case "I", "Q", "i", "q":
				if f == "Q" || f == "q" {
					w = 8
				}
				v, ok := in.toInt(a[1])
				if !ok {
					in.throw("struct.error", "required argument is not an integer")
				}
				rng := in.C.NEq(in.C.Wrap(v.N, w*8, f == "i" || f == "q"), v.N)
				if rng != sym.True && !in.Branch(rng) {
					in.throw("struct.error", "argument out of range")
				}
				n = in.C.Wrap(v.N, w*8, false)
			default:
				return nil, false
			}
			bs := make([]sym.Num, w)
			for k := 0; k < w; k++ {
				p := k
				if big1 {
					p = w - 1 - k
				}
				bs[p] = in.C.Wrap(in.C.NShr(n, 8*k), 8, false)
			}
			return in.newBytes(bs, "bytes", false), true
		case "struct.unpack":
			f, _ := in.goStr(a[0].(*Str))
			big1 := strings.HasPrefix(f, ">") || strings.HasPrefix(f, "!")
			f = strings.TrimLeft(f, "<>=!@")
			b, ok := a[1].(Bytes)
			if !ok || len(f) != 1 {
				break
			}
			w := map[string]int{"f": 4, "I": 4, "i": 4, "d": 8, "Q": 8, "q": 8}[f]
			if w == 0 {
				return nil, false
			}
			if b.Len != w {
				in.throw("struct.error", "unpack requires a buffer of %d bytes", w)
			}
			var n sym.Num
			for k := 0; k < w; k++ {
				p := k
				if big1 {
					p = w - 1 - k
				}
				for j := 0; j < 8; j++ {
					n = append(n, b.slice()[p].Bit(j))
				}
			}
			n = append(n, sym.False)
			switch f {
			case "f":
				return Tuple{Flt{32, in.C.Wrap(n, 32, false)}}, true
			case "d":
				return Tuple{Flt{64, in.C.Wrap(n, 64, false)}}, true
			case "i", "q":
				return Tuple{Int{N: in.C.Wrap(n, w*8, true), T: ibig}}, true
			}
			return Tuple{Int{N: n, T: ibig}}, true
		case "int.from_bytes":
			b, ok := a[0].(Bytes)
			if !ok || len(a) < 2 {
				break
			}
			ord, _ := in.goStr(a[1].(*Str))
			var n sym.Num
			for k := 0; k < b.Len; k++ {
				p := k
				if ord == "big" {
					p = b.Len - 1 - k
				}
				for j := 0; j < 8; j++ {
					n = append(n, b.slice()[p].Bit(j))
				}
			}
			return Int{N: append(n, sym.False), T: ibig}, true
		}
	case Int:
		switch name {
		case "to_bytes":
			k := in.ConcInt(a[0])
			ord, _ := in.goStr(a[1].(*Str))
			var bs = make([]sym.Num, k)
			for i := 0; i < k; i++ {
				p := i
				if ord == "big" {
					p = k - 1 - i
				}
				bs[p] = in.C.Wrap(in.C.NShr(x.N, 8*i), 8, false)
			}
			return in.newBytes(bs, "bytes", false), true
		case "bit_length":
		}
	case *Str:
		switch name {
		case "encode":
			return in.newBytes(copyNums(in.needB(x)), "bytes", false), true
		}
	case Bytes:
		switch name {
		case "decode":
			return in.utf8(x.slice()), true
		case "tobytes":
			return in.newBytes(copyNums(x.slice()), "bytes", false), true
		case "cast", "release", "toreadonly":
			return x, true
		case "find", "index":
			t, ok := a[0].(Bytes)
			if !ok || t.Len != 1 {
				break
			}
			lo := 0
			if len(a) > 1 {
				lo, _ = in.pyBounds(sliceV{lo: a[1]}, x.Len)
			}
			for i := lo; i < x.Len; i++ {
				if in.Branch(in.C.NEq(x.slice()[i], t.slice()[0])) {
					return in.intc(int64(i), ibig), true
				}
			}
			if name == "index" {
				in.throw("ValueError", "subsection not found")
			}
			return in.intc(-1, ibig), true
		case "append":
			v, _ := in.toInt(a[0])
			if in.merge > 0 {
				panic(mergeAbort{})
			}
			_ = v
			in.unsup("bytearray.append")
		}
	case *Arr:
		switch name {
		case "append":
			in.growArr(x, &Cell{V: a[0]})
			return Nil{}, true
		case "copy":
			o := &Arr{Kind: x.Kind}
			for _, c := range x.E {
				o.E = append(o.E, &Cell{V: c.V})
			}
			return o, true
		}
	}
	return nil, false
}
