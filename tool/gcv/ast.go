package gcv

import (
	"math/big"

	"verif/sym"
)

// Node is the common syntax tree of all target languages.
type Node struct {
	K string // kind
	S string // operator / name / literal text
	A []*Node
	T *Ty
	V *big.Int // integer literal
	F *Func    // function literal
	R *RT      // resolved type (Go front end)
	L int      // line
}

// Ty is a type expression.
type Ty struct {
	K string // "n" named, "p" pointer, "a" array/slice, "r" reference, "f" function
	N string // name (last path component is enough for resolution; full path kept)
	E *Ty
	A []*Ty
	n *Node // array length expression
}

func (t *Ty) String() string {
	if t == nil {
		return "?"
	}
	switch t.K {
	case "p":
		return t.E.String() + "*"
	case "r":
		return t.E.String() + "&"
	case "a":
		return t.E.String() + "[]"
	}
	s := t.N
	if len(t.A) > 0 {
		s += "<"
		for i, a := range t.A {
			if i > 0 {
				s += ","
			}
			s += a.String()
		}
		s += ">"
	}
	return s
}

type Param struct {
	Name string
	T    *Ty
	Def  *Node
	Rest bool
	RT   *RT
}

// Func is a function with a lazily parsed body.
type Func struct {
	Name    string
	Cls     *Class
	Static  bool
	Get     bool // property getter
	Set     bool // property setter
	Ctor    bool
	Params  []Param
	Ret     *Ty
	Recv    string // Go receiver name
	RecvP   bool   // Go pointer receiver
	mod     *Module
	toks    []tok
	lo, hi  int // token range of the body (C family)
	expr    bool
	body    *Node
	Attr    []string
	Arrow   bool
	Results []Param
}

type Field struct {
	Name   string
	T      *Ty
	Static bool
	toks   []tok
	lo, hi int // initializer tokens
	Init   *Node
	RT     *RT
}

type EnumItem struct {
	Name string
	Args []*Node
}

type Class struct {
	Name   string
	Kind   string // class struct enum namespace interface
	Base   *Ty
	Fields []*Field
	Funcs  map[string][]*Func
	Get    map[string]*Func
	Set    map[string]*Func
	Ctor   []*Func
	Items  []EnumItem
	Inner  map[string]*Class
	Outer  *Class
	mod    *Module
	static map[string]*Cell
}

// Module is a parsed set of generated files of one target.
type Module struct {
	D       Dialect
	toks    []tok
	Classes map[string]*Class
	Funcs   map[string][]*Func
	Globals map[string]*Field
	Defines map[string]string
	top     []*Node // JS, Python: top level statements
	parsed  int
	Files   []string
	Src     []string
	pinfo   any
	rtc     map[*Ty]*RT
	enums   map[*Class][]sym.Num
	Deps    []*Module
	Path    string
}

func NewModule(d Dialect) *Module {
	return &Module{D: d, Classes: map[string]*Class{}, Funcs: map[string][]*Func{}, Globals: map[string]*Field{}, Defines: map[string]string{}}
}

func newClass(name, kind string, m *Module) *Class {
	return &Class{Name: name, Kind: kind, Funcs: map[string][]*Func{}, Get: map[string]*Func{}, Set: map[string]*Func{}, Inner: map[string]*Class{}, mod: m}
}
