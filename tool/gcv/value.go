package gcv

import (
	"fmt"
	"math/big"
	"strings"

	"verif/sym"
)

// IT is an integer type: W bits (8..64), W==0 unbounded (Python int, BigInt),
// W==-1 a JavaScript number holding an integer.
type IT struct {
	W int
	S bool
}

func (t IT) String() string {
	switch t.W {
	case 0:
		return "big"
	case -1:
		return "number"
	}
	if t.S {
		return fmt.Sprintf("i%d", t.W)
	}
	return fmt.Sprintf("u%d", t.W)
}

var (
	i8, i16, i32, i64 = IT{8, true}, IT{16, true}, IT{32, true}, IT{64, true}
	u8, u16, u32, u64 = IT{8, false}, IT{16, false}, IT{32, false}, IT{64, false}
	ibig              = IT{0, true}
	inum              = IT{-1, true}
)

// Val is a run-time value.
type Val any

type Int struct {
	N   sym.Num
	T   IT
	Lit bool // an untyped or adaptable literal
}
type Bool struct{ L sym.Lit }
type Flt struct {
	W int // 32 or 64
	B sym.Num
}

// Str is a string: UTF-8 bytes and/or UTF-16 units, whichever are known.
type Str struct {
	B    []sym.Num
	U    []sym.Num
	HasB bool
	HasU bool
}
type Nil struct{}
type Undef struct{}
type EnumV struct {
	Cls *Class
	N   sym.Num
}
type Tuple []Val
type ClsV struct{ C *Class }
type NS struct{ N string }
type TyV struct{ T *Ty }

type Obj struct {
	Cls   *Class
	F     map[string]*Cell
	Keys  []string
	Acc   map[string][2]Val // JS accessor properties
	Proto *Obj
	Fn    *FuncV // JS function objects with properties
	Kind  string
	Ext   any
}
type Arr struct {
	E    []*Cell
	T    *RT
	Kind string
}

// Buf is byte memory.
type Buf struct {
	B    []sym.Num // each an unsigned 8-bit number
	Name string
	RO   bool
}

// Bytes is a view of byte memory (byte[], span, slice, memoryview, Uint8Array).
type Bytes struct {
	B    *Buf
	Off  int
	Len  int
	Cap  int
	S    bool   // elements are signed
	Kind string // language type
	Inf  bool   // length unknown (C++ span built from a bare pointer)
	// SymLen, when set, is the symbolic length of bytes whose content is not
	// looked at; only the length can be used.
	SymLen sym.Num
}

// blen is the length of a view in the given integer type.
func (in *Interp) blen(b Bytes, t IT) Val {
	if b.SymLen != nil {
		return Int{N: b.SymLen, T: t}
	}
	return in.intc(int64(b.Len), t)
}

// empty tells whether a view has no bytes.
func (in *Interp) bempty(b Bytes) sym.Lit {
	if b.SymLen != nil {
		return in.C.NZero(b.SymLen)
	}
	return litOf(b.Len == 0)
}

// Ptr is a C pointer into byte memory, an array or a single cell.
type Ptr struct {
	B   *Buf
	A   *Arr
	C   *Cell
	Off int // bytes (element units for arrays of structs)
	T   *RT // pointee
}

type FuncV struct {
	F      *Func
	Env    *Env
	This   Val
	HasT   bool
	Native func(in *Interp, this Val, args []Val) Val
	Props  *Obj
	Name   string
	Cls    *JSClass
}
type JSClass struct {
	Name    string
	Ctor    *Func
	Fields  []*Node
	Proto   *Obj
	Env     *Env
	Statics *Obj
}

// RT is a resolved run-time type.
type RT struct {
	K   byte // i b f s c e p a v y ? (bytes view: y)
	I   IT
	W   int
	Cls *Class
	E   *RT
	Len int
	N   string
}

func (t *RT) String() string {
	if t == nil {
		return "?"
	}
	switch t.K {
	case 'i':
		return t.I.String()
	case 'b':
		return "bool"
	case 'f':
		return fmt.Sprintf("f%d", t.W)
	case 'c', 'e':
		return t.Cls.Name
	case 'p':
		return t.E.String() + "*"
	case 'a':
		return fmt.Sprintf("%s[%d]", t.E, t.Len)
	}
	return string(t.K) + t.N
}

type Cell struct {
	V     Val
	T     *RT
	Const bool
}

type Env struct {
	vars  map[string]*Cell
	up    *Env
	frame *frame
}
type frame struct {
	fn   *Func
	this Val
	cls  *Class
	up   *frame
}

func (e *Env) child() *Env { return &Env{vars: map[string]*Cell{}, up: e, frame: e.frame} }
func (e *Env) look(n string) *Cell {
	for ; e != nil; e = e.up {
		if c, ok := e.vars[n]; ok {
			return c
		}
	}
	return nil
}

// ------------------------------------------------------------- outcomes

// Fail is a property failure inside the generated code: memory error, type
// error or undefined behaviour on a feasible path.
type Fail struct {
	Kind string
	Msg  string
	Line int
}

// Throw is a language exception.
type Throw struct {
	Kind string
	Msg  string
	Line int
	V    Val
}

// Unsup is a construct outside the interpreter's subset.
type Unsup struct {
	Msg  string
	Line int
}

type pathEnd struct{ why string }
type nonLocal struct {
	fr *frame
	v  Val
}

func describe(v Val) string {
	switch x := v.(type) {
	case nil:
		return "uninit"
	case Int:
		return x.N.String() + ":" + x.T.String()
	case Bool:
		switch x.L {
		case sym.True:
			return "true"
		case sym.False:
			return "false"
		}
		return "bool?"
	case Flt:
		return fmt.Sprintf("f%d(%s)", x.W, x.B)
	case *Str:
		var sb strings.Builder
		bs := x.B
		if !x.HasB {
			bs = x.U
		}
		for _, b := range bs {
			if v, ok := b.Int64(); ok {
				sb.WriteRune(rune(v))
			} else {
				sb.WriteByte('?')
			}
		}
		return fmt.Sprintf("%q", sb.String())
	case Nil:
		return "null"
	case Undef:
		return "undefined"
	case EnumV:
		return x.Cls.Name + "(" + x.N.String() + ")"
	case Tuple:
		var p []string
		for _, e := range x {
			p = append(p, describe(e))
		}
		return "(" + strings.Join(p, ",") + ")"
	case Bytes:
		return fmt.Sprintf("bytes[%d:%d]", x.Off, x.Off+x.Len)
	case *Obj:
		if x.Cls != nil {
			return "object " + x.Cls.Name
		}
		return "object " + x.Kind
	case *Arr:
		return fmt.Sprintf("array(%d)", len(x.E))
	case Ptr:
		return fmt.Sprintf("ptr+%d to %s", x.Off, x.T)
	case *FuncV:
		return "function " + x.Name
	case ClsV:
		return "class " + x.C.Name
	case NS:
		return "ns " + x.N
	}
	return fmt.Sprintf("%T", v)
}

func bigOf(v int64) *big.Int { return big.NewInt(v) }
