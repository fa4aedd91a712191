package gcv

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// The independent schema model: the checks build schemas from it, print them
// as .bb text for the compiler under check, and derive the wire layout that
// the generated code's contracts are stated against.

// SType: K is i u b f e s y c a (signed, unsigned, bool, float, enum, string,
// bytes, struct, array).
type SType struct {
	K    byte
	W    int // natural width of a scalar
	Name string
	E    *SType
	N    int
	S    *SStruct
	En   *SEnum
}

type SField struct {
	Name  string
	T     *SType
	EW    int // wire width of one scalar
	Big   bool
	Void  bool
	Embed bool
	Anon  *SStruct // embedded anonymous definition printed in place
	Const string   // literal as printed; "" for none
	CN    *big.Int // numeric value (float: bit pattern)
	CS    string   // string constant
	NoLen bool     // print no width
	Raw   string   // accessor block
	Bytes bool     // print the width as [bytes] or [bytes#bits]
}

type SStruct struct {
	Name   string
	Fields []*SField
	Decl   string // declared size text
}

type SItem struct {
	Name string
	Expl bool
	Val  int64
	Text string
}

type SEnum struct {
	Name  string
	W     int
	Items []SItem
}

// SFile is one .bb file.
type SFile struct {
	Pkg     string
	Imports []string
	Options []string
	Enums   []*SEnum
	Structs []*SStruct
}

func tInt(w int) *SType  { return &SType{K: 'i', W: w} }
func tUint(w int) *SType { return &SType{K: 'u', W: w} }
func tBool() *SType      { return &SType{K: 'b', W: 8} }
func tFloat(w int) *SType {
	return &SType{K: 'f', W: w}
}
func tStr() *SType                { return &SType{K: 's'} }
func tBytes() *SType              { return &SType{K: 'y'} }
func tEnum(e *SEnum) *SType       { return &SType{K: 'e', W: e.W, En: e, Name: e.Name} }
func tStruct(s *SStruct) *SType   { return &SType{K: 'c', S: s, Name: s.Name} }
func tArr(e *SType, n int) *SType { return &SType{K: 'a', E: e, N: n} }
func (t *SType) leaf() *SType {
	if t.K == 'a' {
		return t.E
	}
	return t
}
func (t *SType) scalar() bool { return strings.IndexByte("iubfe", t.K) >= 0 }
func fld(n string, t *SType, w int) *SField {
	l := t.leaf()
	if w == 0 && l.scalar() {
		w = l.W
	}
	return &SField{Name: n, T: t, EW: w}
}
func (f *SField) big() *SField { f.Big = true; return f }
func voidF(w int) *SField      { return &SField{Void: true, EW: w} }
func embedF(s *SStruct, inline bool) *SField {
	f := &SField{Embed: true, T: tStruct(s)}
	if inline {
		f.Anon = s
	}
	return f
}
func constF(n string, t *SType, w int, lit string, v int64) *SField {
	f := fld(n, t, w)
	f.Const = lit
	f.CN = big.NewInt(v)
	return f
}

func (t *SType) bb() string {
	switch t.K {
	case 'i':
		return "int" + strconv.Itoa(t.W)
	case 'u':
		return "uint" + strconv.Itoa(t.W)
	case 'b':
		return "bool"
	case 'f':
		return "float" + strconv.Itoa(t.W)
	case 's':
		return "string"
	case 'y':
		return "bytes"
	case 'a':
		return t.E.bb() + "<" + strconv.Itoa(t.N) + ">"
	}
	return t.Name
}

// dynamic reports whether the encoding has no fixed length.
func (t *SType) dynamic() bool {
	switch t.K {
	case 's', 'y':
		return true
	case 'a':
		return t.E.dynamic()
	case 'c':
		return t.S.dynamic()
	}
	return false
}
func (s *SStruct) dynamic() bool {
	for _, f := range s.Fields {
		if !f.Void && f.T.dynamic() {
			return true
		}
	}
	return false
}

// minBits is the fixed part that the enclosing struct reserves: strings,
// bytes, variable-length structs and arrays of them count nothing.
func (s *SStruct) minBits() int {
	n := 0
	for _, f := range s.Fields {
		n += f.minBits()
	}
	return n
}
func (f *SField) minBits() int {
	if f.Void {
		return f.EW
	}
	if f.Embed {
		return f.T.S.minBits()
	}
	n := 1
	l := f.T
	if l.K == 'a' {
		n, l = l.N, l.E
	}
	switch l.K {
	case 's', 'y':
		return 0
	case 'c':
		if l.S.dynamic() {
			return 0
		}
		return n * l.S.minBits()
	}
	return n * f.EW
}

func widthText(bits int, bytes bool) string {
	if bytes {
		if bits%8 == 0 {
			return fmt.Sprintf("[%d]", bits/8)
		}
		if bits > 8 {
			return fmt.Sprintf("[%d#%d]", bits/8, bits%8)
		}
	}
	return fmt.Sprintf("[#%d]", bits)
}

func (f *SField) bb(ind string) string {
	if f.Void {
		return ind + "void " + widthText(f.EW, f.Bytes) + ";\n"
	}
	if f.Embed {
		if f.Anon != nil {
			return f.Anon.bb(ind)
		}
		return ind + f.T.Name + ";\n"
	}
	s := ind + f.T.bb()
	if f.Name != "" {
		s += " " + f.Name
	}
	l := f.T.leaf()
	if l.scalar() && f.EW != l.W && !f.NoLen {
		n := 1
		if f.T.K == 'a' {
			n = f.T.N
		}
		s += widthText(n*f.EW, f.Bytes)
	}
	if f.Const != "" {
		s += " = " + f.Const
	}
	if f.Big {
		s += ` [order = "big"]`
	}
	if f.Raw != "" {
		s += " { " + f.Raw + " }"
	}
	return s + ";\n"
}

func (s *SStruct) bb(ind string) string {
	out := ind + "struct " + s.Name + s.Decl + " {\n"
	for _, f := range s.Fields {
		out += f.bb(ind + "    ")
	}
	return out + ind + "};\n"
}

func (e *SEnum) bb() string {
	out := "enum " + e.Name + widthText(e.W, false) + " {\n"
	for _, it := range e.Items {
		if it.Text != "" {
			out += "    " + it.Name + " = " + it.Text + ",\n"
		} else if it.Expl {
			out += fmt.Sprintf("    %s = %d,\n", it.Name, it.Val)
		} else {
			out += "    " + it.Name + ",\n"
		}
	}
	return out + "};\n"
}

func (f *SFile) BB() string {
	s := "package " + f.Pkg + ";\n"
	for _, o := range f.Options {
		s += "option " + o + ";\n"
	}
	for _, i := range f.Imports {
		s += "import \"" + i + "\";\n"
	}
	for _, e := range f.Enums {
		s += e.bb()
	}
	for _, st := range f.Structs {
		s += st.bb("")
	}
	return s
}

// ------------------------------------------------------------- layout

// valueBit is the wire-format rule: which value bit stands at position i of a
// field of width w.
func valueBit(i, w int, big bool) int {
	if !big {
		return i
	}
	// eight-bit groups are counted from the most significant end; the last,
	// partial group holds the lowest bits.
	g := i / 8
	hi := w - 8*g // exclusive top value bit of this group
	lo := hi - 8
	if lo < 0 {
		lo = 0
	}
	return lo + i%8
}
