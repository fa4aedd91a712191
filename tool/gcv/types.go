package gcv

import (
	"strings"

	"verif/sym"
)

func lastName(s string) string {
	if i := strings.LastIndexAny(s, ".:"); i >= 0 {
		return s[i+1:]
	}
	return s
}

var rtAny = &RT{K: '?'}
var rtU8 = &RT{K: 'i', I: u8}
var rtStr = &RT{K: 's'}
var rtBool = &RT{K: 'b'}
var rtVoid = &RT{K: 'v'}

func rtInt(t IT) *RT { return &RT{K: 'i', I: t} }

var cInts = map[string]IT{
	"uint8_t": u8, "uint16_t": u16, "uint32_t": u32, "uint64_t": u64, "int8_t": i8, "int16_t": i16, "int32_t": i32, "int64_t": i64,
	"char": i8, "signed char": i8, "unsigned char": u8, "short": i16, "unsigned short": u16, "int": i32, "unsigned int": u32, "signed": i32,
	"unsigned": u32, "long": i64, "unsigned long": u64, "size_t": u64, "uintptr_t": u64, "ptrdiff_t": i64, "intptr_t": i64, "unsigned char_t": u8,
}
var jInts = map[string]IT{"byte": i8, "short": i16, "int": i32, "long": i64, "char": u16, "Byte": i8, "Short": i16, "Integer": i32, "Long": i64}
var csInts = map[string]IT{"byte": u8, "sbyte": i8, "short": i16, "ushort": u16, "int": i32, "uint": u32, "long": i64, "ulong": u64, "char": u16}
var ktInts = map[string]IT{"Byte": i8, "UByte": u8, "Short": i16, "UShort": u16, "Int": i32, "UInt": u32, "Long": i64, "ULong": u64}

// rt resolves a syntactic type.
func (in *Interp) rt(t *Ty) *RT {
	if t == nil {
		return nil
	}
	if r, ok := in.M.rtc[t]; ok {
		return r
	}
	r := in.rt1(t)
	if in.M.rtc == nil {
		in.M.rtc = map[*Ty]*RT{}
	}
	in.M.rtc[t] = r
	return r
}

func (in *Interp) rt1(t *Ty) *RT {
	m := in.M
	switch t.K {
	case "p":
		return &RT{K: 'p', E: in.rt(t.E)}
	case "r":
		return in.rt(t.E)
	case "a":
		e := in.rt(t.E)
		if (m.D == DJava || m.D == DCs) && e.K == 'i' && e.I.W == 8 {
			return &RT{K: 'y', E: e, N: "byte[]"}
		}
		r := &RT{K: 'a', E: e, Len: -1}
		if t.n != nil {
			r.Len = in.ConcInt(in.eval(t.n, &Env{vars: map[string]*Cell{}}))
		}
		return r
	}
	n := lastName(t.N)
	switch m.D {
	case DC, DCpp:
		if it, ok := cInts[n]; ok {
			return rtInt(it)
		}
		switch n {
		case "bool", "_Bool":
			return rtBool
		case "void":
			return rtVoid
		case "float":
			return &RT{K: 'f', W: 32}
		case "double":
			return &RT{K: 'f', W: 64}
		case "auto":
			return rtAny
		case "string":
			return rtStr
		case "span":
			return &RT{K: 'y', E: rtU8, N: "span"}
		case "shared_ptr":
			return &RT{K: 'p', E: rtU8}
		}
	case DJava:
		if it, ok := jInts[n]; ok {
			return rtInt(it)
		}
		switch n {
		case "boolean", "Boolean":
			return rtBool
		case "void":
			return rtVoid
		case "float", "Float":
			return &RT{K: 'f', W: 32}
		case "double", "Double":
			return &RT{K: 'f', W: 64}
		case "String":
			return rtStr
		case "var", "Object":
			return rtAny
		}
	case DCs:
		if it, ok := csInts[n]; ok {
			return rtInt(it)
		}
		switch n {
		case "bool":
			return rtBool
		case "void":
			return rtVoid
		case "float":
			return &RT{K: 'f', W: 32}
		case "double":
			return &RT{K: 'f', W: 64}
		case "string", "String":
			return rtStr
		case "var", "object", "Object":
			return rtAny
		case "Span", "ReadOnlySpan":
			return &RT{K: 'y', E: rtU8, N: "span"}
		case "Memory", "ReadOnlyMemory":
			return &RT{K: 'y', E: rtU8, N: "memory"}
		}
	case DKt:
		if it, ok := ktInts[n]; ok {
			return rtInt(it)
		}
		switch n {
		case "Boolean":
			return rtBool
		case "Unit":
			return rtVoid
		case "Float":
			return &RT{K: 'f', W: 32}
		case "Double":
			return &RT{K: 'f', W: 64}
		case "String":
			return rtStr
		case "ByteArray":
			return &RT{K: 'y', E: rtInt(i8), N: "ByteArray"}
		case "Array", "List", "MutableList":
			r := &RT{K: 'a', Len: -1}
			if len(t.A) > 0 {
				r.E = in.rt(t.A[0])
			}
			return r
		case "Any":
			return rtAny
		}
		if strings.HasSuffix(n, "Array") {
			e := strings.TrimSuffix(n, "Array")
			return &RT{K: 'a', Len: -1, E: in.rt(&Ty{K: "n", N: e})}
		}
	}
	if c := m.Classes[n]; c != nil {
		k := byte('c')
		if c.Kind == "enum" {
			k = 'e'
		}
		return &RT{K: k, Cls: c}
	}
	in.unsup("type %s", t)
	return nil
}

// enumIT is the integer type behind an enumeration.
func (in *Interp) enumIT(c *Class) IT {
	if c.Base != nil {
		if r := in.rt(c.Base); r != nil && r.K == 'i' {
			return r.I
		}
	}
	switch in.M.D {
	case DC:
		return u32
	}
	return i32
}

// enumVal is the number of an enumerator by position.
func (in *Interp) enumVals(c *Class) []sym.Num {
	if v, ok := in.M.enums[c]; ok {
		return v
	}
	var out []sym.Num
	prev := in.C.Int(-1)
	for _, it := range c.Items {
		if len(it.Args) > 0 {
			if v, ok := in.eval(it.Args[0], &Env{vars: map[string]*Cell{}}).(Int); ok {
				prev = v.N
			} else {
				in.unsup("enum argument")
			}
		} else {
			prev = in.C.Add(prev, in.C.Int(1))
		}
		out = append(out, prev)
	}
	if in.M.enums == nil {
		in.M.enums = map[*Class][]sym.Num{}
	}
	in.M.enums[c] = out
	return out
}

func (in *Interp) sizeOf(t *RT) int {
	switch t.K {
	case 'i':
		return t.I.W / 8
	case 'b':
		return 1
	case 'f':
		return t.W / 8
	case 'e':
		return in.enumIT(t.Cls).W / 8
	case 'p':
		return 8
	case 'v':
		return 1
	case 'a':
		if t.Len >= 0 {
			return t.Len * in.sizeOf(t.E)
		}
	}
	return -1
}

func (in *Interp) fresh(w int) sym.Num {
	in.gen++
	return in.X.Var("uninit"+itoa(in.gen), w, false)
}

func itoa(i int) string { return bigOf(int64(i)).String() }

// zero makes the initial value of a variable of type t; garbage selects
// unknown contents (uninitialised C memory).
func (in *Interp) zero(t *RT, garbage bool) Val {
	num := func(w int) sym.Num {
		if garbage {
			return in.fresh(w)
		}
		return sym.Num{sym.False}
	}
	switch t.K {
	case 'i':
		if garbage {
			return Int{N: in.C.Wrap(num(t.I.W), t.I.W, t.I.S), T: t.I}
		}
		return Int{N: sym.Num{sym.False}, T: t.I}
	case 'b':
		return Bool{in.C.Wrap(num(1), 1, false)[0]}
	case 'f':
		return Flt{t.W, num(t.W)}
	case 'e':
		switch in.M.D {
		case DJava, DKt:
			return Nil{}
		}
		return EnumV{t.Cls, num(8)}
	case 'c':
		switch in.M.D {
		case DC, DCpp, DGo:
			return in.newObj(t.Cls, garbage)
		}
		return Nil{}
	case 's':
		switch in.M.D {
		case DCpp, DGo:
			return &Str{HasB: true}
		}
		return Nil{}
	case 'a':
		if t.Len >= 0 {
			a := &Arr{T: t.E}
			for i := 0; i < t.Len; i++ {
				a.E = append(a.E, &Cell{V: in.zero(t.E, garbage), T: t.E})
			}
			return a
		}
		return Nil{}
	case 'y':
		if in.M.D == DCs && t.N == "memory" || in.M.D == DGo || in.M.D == DCpp {
			return Bytes{B: &Buf{}, Kind: t.N}
		}
		return Nil{}
	case 'p':
		return Nil{}
	}
	return Undef{}
}

// newObj makes an object of class c with its field initialisers run.
func (in *Interp) newObj(c *Class, garbage bool) *Obj {
	o := &Obj{Cls: c, F: map[string]*Cell{}}
	for _, f := range c.Fields {
		if f.Static {
			continue
		}
		t := in.rtField(f)
		cell := &Cell{T: t}
		o.F[f.Name] = cell
		o.Keys = append(o.Keys, f.Name)
		if n := f.init(in.M); n != nil {
			fr := &frame{this: o, cls: c}
			e := &Env{vars: map[string]*Cell{}, up: in.genv, frame: fr}
			sv := in.fr
			in.fr = fr
			cell.V = in.convert(in.eval(in.initNode(n, t), e), t, false)
			in.fr = sv
			if cell.T == nil {
				cell.T = in.typeOf(cell.V)
			}
			continue
		}
		if t != nil {
			cell.V = in.zero(t, garbage)
		}
	}
	return o
}

func (in *Interp) rtField(f *Field) *RT {
	if f.RT != nil {
		return f.RT
	}
	return in.rt(f.T)
}

// initNode gives a bare array initialiser its type.
func (in *Interp) initNode(n *Node, t *RT) *Node {
	if n.K == "init" && t != nil {
		return &Node{K: "initT", A: n.A, R: t, L: n.L}
	}
	return n
}

func (in *Interp) typeOf(v Val) *RT {
	switch x := v.(type) {
	case Int:
		if in.M.D == DPy || in.M.D == DJs {
			return nil
		}
		return rtInt(x.T)
	case Bool:
		if in.M.D == DPy || in.M.D == DJs {
			return nil
		}
		return rtBool
	case EnumV:
		return &RT{K: 'e', Cls: x.Cls}
	}
	return nil
}
