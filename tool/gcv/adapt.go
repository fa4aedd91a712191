package gcv

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/sym"
)

// Target is one output language of the compiler.
type Target struct {
	Name string
	D    Dialect
	Ext  []string
}

var Targets = []Target{
	{"c", DC, []string{".h", ".c"}},
	{"cpp", DCpp, []string{".hpp", ".cpp"}},
	{"csharp", DCs, []string{".cs"}},
	{"java", DJava, []string{".java"}},
	{"go", DGo, []string{".go"}},
	{"cjs", DJs, []string{".js"}},
	{"esm", DJs, []string{".js"}},
	{"python", DPy, []string{".py"}},
	{"kotlin", DKt, []string{".kt"}},
}

func TargetByName(n string) Target {
	for _, t := range Targets {
		if t.Name == n {
			return t
		}
	}
	panic("target " + n)
}

// LoadDir parses every generated file of one target below dir.
func LoadDir(t Target, dir string) (*Module, error) {
	m := NewModule(t.D)
	var files []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			files = append(files, p)
		}
		return nil
	})
	rank := func(p string) int {
		for i, e := range t.Ext {
			if strings.HasSuffix(p, e) {
				return i
			}
		}
		return -1
	}
	sort.Slice(files, func(i, j int) bool {
		if a, b := rank(files[i]), rank(files[j]); a != b {
			return a < b
		}
		return files[i] < files[j]
	})
	n := 0
	for _, f := range files {
		if rank(f) < 0 {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		rel, _ := filepath.Rel(dir, f)
		if err := m.AddFile(rel, string(src)); err != nil {
			return nil, err
		}
		n++
	}
	if n == 0 {
		return nil, fmt.Errorf("no generated files in %s", dir)
	}
	return m, nil
}

// Adapt calls the generated API of one target.
type Adapt struct {
	in  *Interp
	pkg string
	exp map[string]Val
}

func newAdapt(in *Interp, pkg string) *Adapt {
	a := &Adapt{in: in, pkg: pkg}
	if in.M.D == DJs {
		a.exp = in.runJS(in.M)
	}
	return a
}

func pascal(s string) string {
	var out strings.Builder
	up := true
	for _, r := range s {
		if r == '_' {
			up = true
			continue
		}
		if up {
			out.WriteString(strings.ToUpper(string(r)))
			up = false
		} else {
			out.WriteRune(r)
		}
	}
	return out.String()
}
func camelName(s string) string {
	p := pascal(s)
	return strings.ToLower(p[:1]) + p[1:]
}

func (a *Adapt) class(name string) *Class {
	c := a.in.M.Classes[name]
	if c == nil {
		a.in.unsup("generated code has no type %s", name)
	}
	return c
}

func (a *Adapt) New(s *SStruct) Val {
	in := a.in
	switch in.M.D {
	case DC, DCpp:
		return in.newObj(a.class(s.Name), true)
	case DGo:
		return in.newObj(a.class(s.Name), false)
	case DJs:
		v := in.jsFind(a.exp, a.pkg, s.Name)
		if v == nil {
			in.unsup("no export %s", s.Name)
		}
		return in.jsConstruct(v, nil)
	}
	return in.construct(a.class(s.Name), nil)
}

// slot finds the storage or accessor of a field.
func (a *Adapt) slot(o *Obj, name string) lval {
	in := a.in
	if in.M.D == DJs {
		return in.jsProp(o, camelCandidate(o, name))
	}
	c := o.Cls
	cand := []string{name, camelName(name), pascal(name), "_" + name}
	for _, n := range cand {
		if c != nil && (c.Get[n] != nil && c.Set[n] != nil) {
			return in.memberLV(o, n, nil)
		}
	}
	for _, n := range []string{name, pascal(name), camelName(name)} {
		g, s := "get"+pascal(n), "set"+pascal(n)
		if c != nil && len(c.Funcs[g]) > 0 && len(c.Funcs[s]) > 0 && (in.M.D == DJava) {
			return funcLV{
				g: func() Val { return in.callFunc(c.Funcs[g][0], o, nil, nil) },
				s: func(v Val) {
					f := in.pick(c.Funcs[s], []Val{v})
					in.callFunc(f, o, []Val{v}, nil)
				},
			}
		}
	}
	for _, n := range cand {
		if o.F[n] != nil {
			return cellLV{o.F[n]}
		}
	}
	in.unsup("no field %s in %s", name, c.Name)
	return nil
}

func camelCandidate(o *Obj, name string) string {
	for _, n := range []string{name, camelName(name), pascal(name)} {
		if o.F[n] != nil {
			return n
		}
	}
	return name
}

// rtSlot is the declared type of a field's storage.
func (a *Adapt) rtSlot(o *Obj, name string) *RT {
	for _, n := range []string{name, camelName(name), pascal(name), "_" + name} {
		if c := o.F[n]; c != nil {
			return c.T
		}
	}
	return nil
}

// scalar converts a schema scalar to the target's representation.
func (a *Adapt) scalar(t *SType, n sym.Num) Val {
	in := a.in
	switch t.K {
	case 'i', 'u':
		it := IT{t.W, t.K == 'i'}
		switch in.M.D {
		case DJs:
			it = inum
			if t.W == 64 {
				it = ibig
			}
		case DPy:
			it = ibig
		case DJava:
			it.S = true
			return in.mk(n, it)
		}
		return Int{N: n, T: it}
	case 'b':
		return Bool{n.Bit(0)}
	case 'f':
		return Flt{t.W, n}
	case 'e':
		if in.M.D == DJs {
			return Int{N: n, T: inum}
		}
		return EnumV{a.class(t.Name), n}
	}
	in.unsup("scalar %c", t.K)
	return nil
}

func (a *Adapt) value(t *SType, v *SVal) Val {
	in := a.in
	switch t.K {
	case 's':
		s := &Str{HasB: true, HasU: true, B: []sym.Num{}, U: []sym.Num{}}
		for _, r := range v.S {
			s.B = append(s.B, r.b...)
			s.U = append(s.U, r.u...)
		}
		if in.M.D == DC {
			b := &Buf{B: append(copyNums(s.B), in.C.Int(0)), Name: "string"}
			return Ptr{B: b, T: rtInt(i8)}
		}
		if in.M.D == DCpp || in.M.D == DGo {
			s.HasU, s.U = false, nil
		}
		return s
	case 'y':
		bs := copyNums(v.Y)
		if v.YN != nil {
			switch in.M.D {
			case DC, DCpp:
				o := in.newObj(a.class("bytes"), true)
				o.F["data"].V = Ptr{B: &Buf{Name: "bytes"}, T: rtU8}
				o.F["length"].V = Int{N: v.YN, T: u64}
				return o
			}
			kind := map[Dialect]string{DPy: "bytearray", DJs: "js", DJava: "byte[]", DKt: "ByteArray", DCs: "memory"}[in.M.D]
			if kind == "" {
				kind = "[]byte"
			}
			b := in.newBytes(nil, kind, in.M.D == DJava || in.M.D == DKt)
			b.SymLen = v.YN
			return b
		}
		switch in.M.D {
		case DC, DCpp:
			o := in.newObj(a.class("bytes"), true)
			o.F["data"].V = Ptr{B: &Buf{B: bs, Name: "bytes"}, T: rtU8}
			o.F["length"].V = Int{N: in.C.Int(int64(len(bs))), T: u64}
			return o
		case DPy:
			return in.newBytes(bs, "bytearray", false)
		case DJs:
			return in.newBytes(bs, "js", false)
		case DJava:
			return in.newBytes(bs, "byte[]", true)
		case DKt:
			return in.newBytes(bs, "ByteArray", true)
		case DCs:
			return in.newBytes(bs, "memory", false)
		}
		return in.newBytes(bs, "[]byte", false)
	}
	return a.scalar(t, v.N)
}

// Fill stores v into the object.
func (a *Adapt) Fill(ov Val, s *SStruct, v *SVal) {
	o, ok := a.in.asObj(ov)
	if !ok {
		a.in.unsup("object expected, got %s", describe(ov))
	}
	for i, f := range s.Fields {
		if f.Void || f.Const != "" {
			continue
		}
		if f.Embed {
			a.Fill(o, f.T.S, v.F[i])
			continue
		}
		sl := a.slot(o, f.Name)
		switch f.T.K {
		case 'c':
			a.Fill(sl.get(a.in), f.T.S, v.F[i])
		case 'a':
			a.fillArr(o, sl, f, v.F[i])
		default:
			x := a.value(f.T, v.F[i])
			if _, isObj := x.(*Obj); isObj {
				if c, ok := sl.(cellLV); ok {
					c.c.V = x
					continue
				}
			}
			sl.set(a.in, x)
		}
	}
}

func (a *Adapt) fillArr(o *Obj, sl lval, f *SField, v *SVal) {
	in := a.in
	if in.M.D == DJs {
		if f.T.E.K == 'c' {
			arr, ok := sl.get(in).(*Arr)
			if ok && len(arr.E) == f.T.N {
				for i, c := range arr.E {
					a.Fill(c.V, f.T.E.S, v.E[i])
				}
				return
			}
		}
		var vs []Val
		for _, e := range v.E {
			if f.T.E.K == 'c' {
				x := a.New(f.T.E.S)
				a.Fill(x, f.T.E.S, e)
				vs = append(vs, x)
			} else {
				vs = append(vs, a.value(f.T.E, e))
			}
		}
		sl.set(in, in.arrOf(nil, vs))
		return
	}
	cur := sl.get(in)
	switch x := cur.(type) {
	case *Arr:
		if len(x.E) != f.T.N {
			in.fail("array length", "array %s has %d elements, schema says %d", f.Name, len(x.E), f.T.N)
		}
		for i, c := range x.E {
			if f.T.E.K == 'c' {
				a.Fill(c.V, f.T.E.S, v.E[i])
				continue
			}
			w := a.value(f.T.E, v.E[i])
			if c.T != nil {
				w = in.convert(w, c.T, true)
			}
			c.V = w
		}
	case Bytes:
		if x.Len != f.T.N {
			in.fail("array length", "array %s has %d elements, schema says %d", f.Name, x.Len, f.T.N)
		}
		for i, e := range v.E {
			x.B.B[x.Off+i] = in.C.Wrap(e.N, 8, false)
		}
	default:
		in.unsup("array storage %s", describe(cur))
	}
}

// same builds the condition that got is the value v of type t.
func (a *Adapt) same(t *SType, got Val, v *SVal, name string) (sym.Lit, string) {
	in := a.in
	switch t.K {
	case 'i', 'u':
		x, ok := got.(Int)
		if !ok {
			return sym.False, fmt.Sprintf("%s is %s, not an integer", name, describe(got))
		}
		want := v.N
		if in.M.D == DJava {
			return in.C.NEq(in.C.Wrap(x.N, t.W, false), in.C.Wrap(want, t.W, false)), ""
		}
		if in.M.D == DJs && (t.W == 64) != (x.T.W == 0) {
			return sym.False, fmt.Sprintf("%s has number type %s", name, x.T)
		}
		return in.C.NEq(x.N, want), ""
	case 'b':
		if n, isN := got.(Int); isN && in.M.D == DPy { // 0 and 1 compare equal to False and True
			return in.C.NEq(n.N, v.N), ""
		}
		x, ok := got.(Bool)
		if !ok {
			return sym.False, fmt.Sprintf("%s is %s, not a boolean", name, describe(got))
		}
		return in.C.Eq(x.L, v.N.Bit(0)), ""
	case 'f':
		x, ok := got.(Flt)
		if !ok {
			return sym.False, fmt.Sprintf("%s is %s, not a float", name, describe(got))
		}
		if x.W != t.W {
			in.unsup("%s is a float of width %d", name, x.W)
		}
		return in.C.NEq(in.C.Wrap(x.B, t.W, false), in.C.Wrap(v.N, t.W, false)), ""
	case 'e':
		switch x := got.(type) {
		case Sel:
			l := sym.False
			for i, c := range x.C {
				k, msg := a.same(t, x.V[i], v, name)
				if msg == "" {
					l = in.C.Or(l, in.C.And(c, k))
				}
			}
			return l, ""
		case EnumV:
			return in.C.NEq(x.N, v.N), ""
		case Int:
			return in.C.NEq(x.N, v.N), ""
		case *Str:
			s, ok := in.goStr(x)
			if !ok {
				break
			}
			l := sym.False
			for _, it := range t.En.Items {
				if it.Name == s {
					l = in.C.NEq(v.N, in.C.Int(it.Val))
				}
			}
			return l, ""
		}
		return sym.False, fmt.Sprintf("%s is %s, not an enum value", name, describe(got))
	case 's':
		var wb, wu []sym.Num
		for _, r := range v.S {
			wb = append(wb, r.b...)
			wu = append(wu, r.u...)
		}
		switch x := got.(type) {
		case *Str:
			if x.HasB {
				return a.seqEq(x.B, wb), ""
			}
			return a.seqEq(x.U, wu), ""
		case Ptr:
			for i := 0; i <= len(wb); i++ {
				b := in.readByte(x, i)
				if i == len(wb) {
					wb = append(wb, in.C.Int(0))
					var g []sym.Num
					for k := 0; k <= i; k++ {
						g = append(g, in.readByte(x, k))
					}
					return a.seqEq(g, wb), ""
				}
				_ = b
			}
		}
		return sym.False, fmt.Sprintf("%s is %s, not a string", name, describe(got))
	case 'y':
		switch x := got.(type) {
		case Bytes:
			if x.Len != len(v.Y) {
				return sym.False, fmt.Sprintf("%s has length %d, expected %d", name, x.Len, len(v.Y))
			}
			return a.seqEq(x.slice(), v.Y), ""
		case *Arr: // -compat JavaScript
			if len(x.E) != len(v.Y) {
				return sym.False, fmt.Sprintf("%s has length %d, expected %d", name, len(x.E), len(v.Y))
			}
			l := sym.True
			for i, c := range x.E {
				iv, ok := c.V.(Int)
				if !ok {
					return sym.False, name + ": element is not a number"
				}
				l = in.C.And(l, in.C.NEq(iv.N, v.Y[i]))
			}
			return l, ""
		case *Obj:
			ln, ok := x.F["length"]
			if !ok {
				break
			}
			n, ok := ln.V.(Int)
			if !ok {
				return sym.False, name + ".length not set"
			}
			l := in.C.NEq(n.N, in.C.Int(int64(len(v.Y))))
			if len(v.Y) == 0 {
				return l, ""
			}
			if in.Decide(l) != 1 {
				return l, ""
			}
			p, ok := x.F["data"].V.(Ptr)
			if !ok {
				return sym.False, name + ".data not set"
			}
			var g []sym.Num
			for k := range v.Y {
				g = append(g, in.readByte(p, k))
			}
			return a.seqEq(g, v.Y), ""
		}
		return sym.False, fmt.Sprintf("%s is %s, not a blob", name, describe(got))
	}
	in.unsup("compare %c", t.K)
	return sym.False, ""
}

func (a *Adapt) seqEq(x, y []sym.Num) sym.Lit {
	if len(x) != len(y) {
		return sym.False
	}
	l := sym.True
	for i := range x {
		l = a.in.C.And(l, a.in.C.NEq(a.in.C.Wrap(x[i], 32, false), a.in.C.Wrap(y[i], 32, false)))
	}
	return l
}

// Compare proves that the object holds v.
func (a *Adapt) Compare(ov Val, s *SStruct, v *SVal, name string) {
	in := a.in
	defer func(o bool) { in.rawSel = o }(in.rawSel)
	in.rawSel = true
	o, ok := in.asObj(ov)
	if !ok {
		in.unsup("object expected, got %s", describe(ov))
	}
	for i, f := range s.Fields {
		if f.Void || f.Const != "" {
			continue
		}
		n := name + "." + f.Name
		if f.Embed {
			a.Compare(o, f.T.S, v.F[i], name)
			continue
		}
		got := a.slot(o, f.Name).get(in)
		switch f.T.K {
		case 'c':
			a.Compare(got, f.T.S, v.F[i], n)
		case 'a':
			switch x := got.(type) {
			case *Arr:
				if len(x.E) != f.T.N {
					in.Refute(n, fmt.Sprintf("%s has %d elements, expected %d", n, len(x.E), f.T.N))
					continue
				}
				for k, c := range x.E {
					nk := n + "[" + itoa(k) + "]"
					if f.T.E.K == 'c' {
						a.Compare(c.V, f.T.E.S, v.F[i].E[k], nk)
					} else {
						a.prove(nk, f.T.E, in.load(c), v.F[i].E[k])
					}
				}
			case Bytes:
				if x.Len != f.T.N {
					in.Refute(n, fmt.Sprintf("%s has %d elements, expected %d", n, x.Len, f.T.N))
					continue
				}
				for k := 0; k < x.Len; k++ {
					a.prove(n+"["+itoa(k)+"]", f.T.E, in.byteAt(x, k), v.F[i].E[k])
				}
			default:
				in.Refute(n, fmt.Sprintf("%s is %s, not an array", n, describe(got)))
			}
		default:
			a.prove(n, f.T, got, v.F[i])
		}
	}
}

func (a *Adapt) prove(name string, t *SType, got Val, v *SVal) {
	l, msg := a.same(t, got, v, name)
	a.in.Prove(name, l, func() string {
		if msg != "" {
			return msg
		}
		return name + " does not hold the declared bits"
	})
}

// ------------------------------------------------------------- API calls

func (a *Adapt) num(v Val) sym.Num {
	switch x := v.(type) {
	case Int:
		return x.N
	case Undef, Nil:
		a.in.fail("result", "no numeric result: %s", describe(v))
	}
	a.in.unsup("numeric result expected, got %s", describe(v))
	return nil
}

func (a *Adapt) self(o Val) Val {
	if ob, ok := o.(*Obj); ok {
		return Ptr{C: &Cell{V: ob, T: &RT{K: 'c', Cls: ob.Cls}}, T: &RT{K: 'c', Cls: ob.Cls}}
	}
	return o
}

func (a *Adapt) cfn(name string) *Func {
	fs := a.in.M.Funcs[name]
	for _, f := range fs {
		if f.toks != nil || f.body != nil {
			return f
		}
	}
	a.in.unsup("no function %s", name)
	return nil
}

// method calls a method by the first matching name and overload.
func (a *Adapt) method(o Val, cls *Class, names []string, argSets ...[]Val) Val {
	in := a.in
	for _, n := range names {
		fs := cls.Funcs[n]
		if len(fs) == 0 {
			continue
		}
		for _, args := range argSets {
			if f := in.pick(fs, args); f != nil {
				this := o
				if in.M.D == DGo {
					this = a.self(o)
				}
				if f.Static {
					this = nil
				}
				return in.callFunc(f, this, args, nil)
			}
		}
	}
	in.unsup("no method %v in %s", names, cls.Name)
	return nil
}

func (a *Adapt) ptr(b *Buf, off int) Val {
	return Ptr{B: b, Off: off, T: &RT{K: 'v'}}
}

func (a *Adapt) view(b *Buf, start, n int, kind string) Bytes {
	if n < 0 {
		n = len(b.B) - start
	}
	return Bytes{B: b, Off: start, Len: n, Cap: n, Kind: kind}
}

func (a *Adapt) intArg(v int) Val {
	in := a.in
	switch in.M.D {
	case DJs:
		return in.intc(int64(v), inum)
	case DPy:
		return in.intc(int64(v), ibig)
	case DC, DCpp:
		return in.intc(int64(v), u64)
	}
	return in.intc(int64(v), i32)
}

func (a *Adapt) jsStatic(s *SStruct, name string, args ...Val) Val {
	in := a.in
	cv := in.jsFind(a.exp, a.pkg, s.Name)
	fv, ok := cv.(*FuncV)
	if !ok {
		in.unsup("no export %s", s.Name)
	}
	return in.callVal(in.jsGet(in.fnObj(fv), name), fv, args, nil)
}

func (a *Adapt) jsBuf(b *Buf, start, n int) Val {
	return a.view(b, start, n, "js")
}

// Encode writes the object into b at start and returns the reported size.
func (a *Adapt) Encode(o Val, s *SStruct, b *Buf, start int) sym.Num {
	in := a.in
	switch in.M.D {
	case DC:
		return a.num(in.callFunc(a.cfn(s.Name+"_encode"), nil, []Val{a.self(o), a.ptr(b, start)}, nil))
	case DCpp:
		return a.num(a.method(o, a.class(s.Name), []string{"encode"}, []Val{a.view(b, start, -1, "span")}, []Val{a.ptr(b, start)}))
	case DGo:
		return a.num(a.method(o, a.class(s.Name), []string{"EncodeTo"}, []Val{a.view(b, start, -1, "[]byte")}))
	case DJava:
		return a.num(a.method(o, a.class(s.Name), []string{"encode"}, []Val{a.byteArr(b), a.intArg(start)}))
	case DKt:
		return a.num(a.method(o, a.class(s.Name), []string{"encode"}, []Val{a.byteArr(b), a.intArg(start)}))
	case DCs:
		return a.num(a.method(o, a.class(s.Name), []string{"Encode"}, []Val{a.byteArr(b), a.intArg(start)}))
	case DJs:
		return a.num(a.jsStatic(s, "encode", o, a.jsBuf(b, 0, -1), a.intArg(start)))
	case DPy:
		// Python has no start argument: a memoryview slice is the documented way.
		return a.num(a.method(o, a.class(s.Name), []string{"encode"}, []Val{a.view(b, start, -1, "memoryview")}))
	}
	return nil
}

func (a *Adapt) byteArr(b *Buf) Val {
	x := a.view(b, 0, -1, "byte[]")
	switch a.in.M.D {
	case DJava:
		x.S = true
	case DKt:
		x.S = true
		x.Kind = "ByteArray"
	}
	return x
}

// EncodeNew is the allocating form of encode; ok is false where there is none.
func (a *Adapt) EncodeNew(o Val, s *SStruct) (Bytes, bool) {
	in := a.in
	var v Val
	switch in.M.D {
	case DC, DCpp:
		return Bytes{}, false
	case DGo, DCs:
		v = a.method(o, a.class(s.Name), []string{"Encode"}, []Val{})
	case DJava, DKt, DPy:
		v = a.method(o, a.class(s.Name), []string{"encode"}, []Val{})
	case DJs:
		v = a.jsStatic(s, "encode", o)
	}
	switch b := v.(type) {
	case Bytes:
		return b, true
	case *Arr:
		out := &Buf{}
		for _, c := range b.E {
			iv, ok := c.V.(Int)
			if !ok {
				in.fail("encode", "array element is %s", describe(c.V))
			}
			out.B = append(out.B, iv.N)
		}
		return Bytes{B: out, Len: len(out.B)}, true
	}
	in.unsup("encode returned %s", describe(v))
	return Bytes{}, false
}

func (a *Adapt) EncodeSize(o Val, s *SStruct) sym.Num {
	in := a.in
	switch in.M.D {
	case DC:
		return a.num(in.callFunc(a.cfn(s.Name+"_encode_size"), nil, []Val{a.self(o)}, nil))
	case DJs:
		return a.num(a.jsStatic(s, "encode_size", o))
	}
	return a.num(a.method(o, a.class(s.Name), []string{"encode_size", "encodeSize", "EncodeSize"}, []Val{}))
}

// StaticSize is the published size constant of the fixed part.
func (a *Adapt) StaticSize(o Val, s *SStruct) (sym.Num, bool) {
	in := a.in
	switch in.M.D {
	case DC:
		if g := in.global(s.Name + "_size"); g != nil {
			return a.num(in.load(g)), true
		}
		return nil, false
	case DJs:
		return a.num(a.jsStatic(s, "size")), true
	case DCpp:
		for _, f := range a.class(s.Name).Fields {
			if f.Name == "size" && f.Static {
				return a.num(in.load(in.staticCell(a.class(s.Name), f))), true
			}
		}
		return nil, false
	}
	c := a.class(s.Name)
	for _, n := range []string{"size", "Size"} {
		if len(c.Funcs[n]) > 0 {
			return a.num(a.method(o, c, []string{n}, []Val{})), true
		}
		if g := c.Get[n]; g != nil {
			return a.num(in.callFunc(g, nil, nil, nil)), true
		}
	}
	return nil, false
}

// decodes tells whether decode of the target receives the data length.
func (a *Adapt) decodeSized() bool { return a.in.M.D != DC }

// Decode reads the object from b[start:start+n]; ok is the success condition,
// num the number of bytes reported.
func (a *Adapt) Decode(o Val, s *SStruct, b *Buf, start, n int) (sym.Lit, sym.Num) {
	in := a.in
	res := func(v Val) (sym.Lit, sym.Num) {
		x := a.num(v)
		return in.C.NLt(x, in.C.Int(0)).Not(), x
	}
	whole := a.trunc(b, start, n)
	switch in.M.D {
	case DC:
		return res(in.callFunc(a.cfn(s.Name+"_decode"), nil, []Val{a.ptr(b, start), a.self(o)}, nil))
	case DCpp:
		return res(a.method(o, a.class(s.Name), []string{"decode"}, []Val{a.view(b, start, n, "span")}, []Val{a.ptr(b, start)}))
	case DGo:
		return res(a.method(o, a.class(s.Name), []string{"Decode"}, []Val{a.view(b, start, n, "[]byte")}))
	case DJava, DKt:
		return res(a.method(o, a.class(s.Name), []string{"decode"}, []Val{a.byteArr(whole), a.intArg(start)}))
	case DCs:
		return res(a.method(o, a.class(s.Name), []string{"Decode"}, []Val{a.byteArr(whole), a.intArg(start)}))
	case DJs:
		return res(a.jsStatic(s, "decode", o, a.jsBuf(whole, 0, -1), a.intArg(start)))
	case DPy:
		v := a.method(o, a.class(s.Name), []string{"decode"}, []Val{a.view(b, start, n, "memoryview")})
		t, ok := v.(Tuple)
		if !ok || len(t) != 2 {
			in.fail("decode", "decode returned %s, not a pair", describe(v))
		}
		bl, ok := t[0].(Bool)
		if !ok {
			in.fail("decode", "decode returned %s", describe(v))
		}
		return bl.L, a.num(t[1])
	}
	return sym.False, nil
}

func (a *Adapt) trunc(b *Buf, start, n int) *Buf {
	if n < 0 || start+n == len(b.B) {
		return b
	}
	return &Buf{B: b.B[:start+n], Name: b.Name, RO: b.RO}
}

func (a *Adapt) DecodeSize(o Val, s *SStruct, b *Buf, start, n int) sym.Num {
	in := a.in
	whole := a.trunc(b, start, n)
	if n < 0 {
		n = len(b.B) - start
	}
	switch in.M.D {
	case DC:
		return a.num(in.callFunc(a.cfn(s.Name+"_decode_size"), nil, []Val{a.ptr(b, start), a.intArg(n)}, nil))
	case DCpp:
		return a.num(a.method(o, a.class(s.Name), []string{"decode_size"}, []Val{a.view(b, start, n, "span")}, []Val{a.ptr(b, start), a.intArg(n)}))
	case DGo:
		return a.num(a.method(o, a.class(s.Name), []string{"DecodeSize"}, []Val{a.view(b, start, n, "[]byte")}))
	case DJava, DKt:
		return a.num(a.method(o, a.class(s.Name), []string{"decodeSize"}, []Val{a.byteArr(whole), a.intArg(start)}))
	case DCs:
		return a.num(a.method(o, a.class(s.Name), []string{"DecodeSize"}, []Val{a.byteArr(whole), a.intArg(start)}))
	case DJs:
		return a.num(a.jsStatic(s, "decode_size", a.jsBuf(whole, 0, -1), a.intArg(start)))
	case DPy:
		return a.num(a.method(o, a.class(s.Name), []string{"decode_size"}, []Val{a.view(b, start, n, "memoryview")}))
	}
	return nil
}

var _ = big.NewInt
