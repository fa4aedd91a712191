package gcv

import (
	"math/big"
	"strings"

	"verif/sym"
)

func (in *Interp) propKey(v Val) string {
	switch x := v.(type) {
	case *Str:
		s, ok := in.goStr(x)
		if !ok {
			in.unsup("symbolic property name")
		}
		return s
	case Int:
		return in.Concrete(x.N).String()
	case Undef:
		return "undefined"
	case Nil:
		return "null"
	case Bool:
		if in.Branch(x.L) {
			return "true"
		}
		return "false"
	}
	in.unsup("property key %s", describe(v))
	return ""
}

func newJSObj(proto *Obj) *Obj { return &Obj{F: map[string]*Cell{}, Proto: proto, Kind: "js"} }

// fnObj is the property table of a function value.
func (in *Interp) fnObj(f *FuncV) *Obj {
	if f.Props == nil {
		f.Props = newJSObj(nil)
		f.Props.Fn = f
	}
	if f.F != nil && !f.F.Arrow && f.Props.F["prototype"] == nil {
		p := newJSObj(nil)
		p.F["constructor"] = &Cell{V: f}
		f.Props.F["prototype"] = &Cell{V: p}
	}
	return f.Props
}

func (in *Interp) jsGet(o *Obj, name string) Val {
	for p := o; p != nil; p = p.Proto {
		if c := p.F[name]; c != nil {
			return in.load(c)
		}
		if a, ok := p.Acc[name]; ok {
			if a[0] == nil {
				return Undef{}
			}
			return in.callVal(a[0], o, nil, nil)
		}
	}
	if v, ok := in.jsObjProto(o, name); ok {
		return v
	}
	return Undef{}
}

func (in *Interp) jsObjProto(o *Obj, name string) (Val, bool) {
	switch name {
	case "hasOwnProperty":
		return &FuncV{Name: name, Native: func(in *Interp, this Val, a []Val) Val {
			return Bool{litOf(o.F[in.propKey(a[0])] != nil)}
		}}, true
	case "call", "apply":
		if o.Fn != nil {
			return &FuncV{Name: name, Native: func(in *Interp, this Val, a []Val) Val {
				return in.callVal(o.Fn, a[0], a[1:], nil)
			}}, true
		}
	case "name":
		if o.Fn != nil {
			return in.str(o.Fn.Name), true
		}
	}
	return nil, false
}

func (in *Interp) jsProp(o *Obj, name string) lval {
	for p := o; p != nil; p = p.Proto {
		if a, ok := p.Acc[name]; ok {
			return funcLV{
				g: func() Val { return in.jsGet(o, name) },
				s: func(v Val) {
					if a[1] == nil {
						in.throw("TypeError", "property %s has only a getter", name)
					}
					in.callVal(a[1], o, []Val{v}, nil)
				},
			}
		}
	}
	if c := o.F[name]; c != nil {
		return cellLV{c}
	}
	return funcLV{
		g: func() Val { return in.jsGet(o, name) },
		s: func(v Val) {
			if c := o.F[name]; c != nil {
				in.setCell(c, v)
				return
			}
			o.F[name] = &Cell{V: v}
			o.Keys = append(o.Keys, name)
			if in.merge > 0 {
				n := len(o.Keys) - 1
				in.jrnl = append(in.jrnl, undo{fn: func() { delete(o.F, name); o.Keys = o.Keys[:n] }})
			}
		},
	}
}

// jsGetIdx is o[key]; a symbolic numeric key is split over the known keys.
func (in *Interp) jsGetIdx(o *Obj, iv Val) Val {
	x, ok := iv.(Int)
	if !ok || x.N.Const() {
		return in.jsGet(o, in.propKey(iv))
	}
	for p := o; p != nil; p = p.Proto {
		for _, k := range p.Keys {
			n, ok := new(big.Int).SetString(k, 10)
			if !ok {
				continue
			}
			if in.Branch(in.C.NEq(x.N, in.C.Big(n))) {
				return in.jsGet(o, k)
			}
		}
	}
	return Undef{}
}

// Sel is a property value selected by a symbolic key; it is resolved by
// forking only when the program looks at it.
type Sel struct {
	C []sym.Lit
	V []Val
}

func (in *Interp) jsSel(o *Obj, x Int) Val {
	var s Sel
	for p := o; p != nil; p = p.Proto {
		for _, k := range p.Keys {
			n, ok := new(big.Int).SetString(k, 10)
			if !ok {
				continue
			}
			s.C = append(s.C, in.C.NEq(x.N, in.C.Big(n)))
			s.V = append(s.V, in.jsGet(o, k))
		}
	}
	if len(s.C) == 0 {
		return nil
	}
	return s
}

func (in *Interp) force(s Sel) Val {
	for i, c := range s.C {
		if in.Branch(c) {
			return s.V[i]
		}
	}
	return Undef{}
}

func (in *Interp) jsTypeof(v Val) string {
	switch x := v.(type) {
	case Int:
		if x.T.W == 0 {
			return "bigint"
		}
		return "number"
	case Flt, quot:
		return "number"
	case Bool:
		return "boolean"
	case *Str:
		return "string"
	case Undef:
		return "undefined"
	case *FuncV:
		return "function"
	case NS:
		return "function"
	}
	return "object"
}

func (in *Interp) jsObjLit(n *Node, e *Env) Val {
	o := newJSObj(nil)
	for _, p := range n.A {
		if p.K == "spread" {
			if s, ok := in.eval(p.A[0], e).(*Obj); ok {
				for _, k := range s.Keys {
					in.jsProp(o, k).set(in, in.jsGet(s, k))
				}
			}
			continue
		}
		key := in.propKey(in.eval(p.A[0], e))
		v := in.eval(p.A[1], e)
		if p.S == "get" || p.S == "set" {
			in.defAcc(o, key, p.S, v)
			continue
		}
		if fv, ok := v.(*FuncV); ok && fv.Name == "" {
			fv.Name = key
		}
		in.jsProp(o, key).set(in, v)
	}
	return o
}

func (in *Interp) defAcc(o *Obj, key, kind string, v Val) {
	if o.Acc == nil {
		o.Acc = map[string][2]Val{}
	}
	a := o.Acc[key]
	if kind == "get" {
		a[0] = v
	} else {
		a[1] = v
	}
	o.Acc[key] = a
}

func (in *Interp) jsClass(n *Node, e *Env) Val {
	ctor := &Func{Name: n.S, mod: in.M, body: &Node{K: "block"}}
	var fields []*Node
	for _, m := range n.A {
		if m.K == "method" && m.F.Name == "constructor" && !m.F.Static {
			ctor = m.F
		}
		if m.K == "fieldinit" && !m.F.Static {
			fields = append(fields, m)
		}
	}
	fv := &FuncV{F: ctor, Env: e, Name: n.S, Cls: &JSClass{Name: n.S, Fields: fields}}
	ob := in.fnObj(fv)
	proto := ob.F["prototype"].V.(*Obj)
	for _, m := range n.A {
		dst := proto
		if m.F.Static {
			dst = ob
		}
		switch {
		case m.K == "fieldinit":
			if m.F.Static {
				in.jsProp(ob, m.F.Name).set(in, in.eval(m.F.body, &Env{vars: map[string]*Cell{}, up: e, frame: &frame{this: fv}}))
			}
		case m.F.Get:
			in.defAcc(dst, m.F.Name, "get", &FuncV{F: m.F, Env: e, Name: m.F.Name})
		case m.F.Set:
			in.defAcc(dst, m.F.Name, "set", &FuncV{F: m.F, Env: e, Name: m.F.Name})
		case m.F == ctor:
		default:
			// methods are not enumerable
			dst.F[m.F.Name] = &Cell{V: &FuncV{F: m.F, Env: e, Name: m.F.Name}}
		}
	}
	return fv
}

func (in *Interp) jsNew(n *Node, e *Env) Val {
	c := n.A[0]
	args := in.args(n.A[1:], e)
	cv := in.eval(c, e)
	return in.jsConstruct(cv, args)
}

func (in *Interp) jsConstruct(cv Val, args []Val) Val {
	switch f := cv.(type) {
	case *FuncV:
		if f.F == nil {
			in.unsup("new of a native function")
		}
		o := newJSObj(nil)
		if p, ok := in.fnObj(f).F["prototype"].V.(*Obj); ok {
			o.Proto = p
		}
		if f.Cls != nil {
			for _, m := range f.Cls.Fields {
				in.jsProp(o, m.F.Name).set(in, in.eval(m.F.body, &Env{vars: map[string]*Cell{}, up: f.Env, frame: &frame{this: o}}))
			}
		}
		r := in.callFunc(f.F, o, args, f.Env)
		if ro, ok := r.(*Obj); ok {
			return ro
		}
		return o
	case NS:
		return in.biNew(f.N, nil, args)
	}
	in.throw("TypeError", "%s is not a constructor", describe(cv))
	return nil
}

func (in *Interp) jsBytes(n int) Bytes {
	b := &Buf{B: make([]sym.Num, n)}
	for i := range b.B {
		b.B[i] = sym.Num{sym.False}
	}
	return Bytes{B: b, Len: n, Kind: "js"}
}

// runTop executes a JavaScript module and returns its exports.
func (in *Interp) runJS(m *Module) map[string]Val {
	out := map[string]Val{}
	g := &Env{vars: map[string]*Cell{}, frame: &frame{}}
	in.genv = g
	mod := newJSObj(nil)
	exp := newJSObj(nil)
	in.jsProp(mod, "exports").set(in, exp)
	g.vars["module"] = &Cell{V: mod}
	g.vars["exports"] = &Cell{V: exp}
	e := g.child()
	in.genv = e
	var top []*Node
	for _, n := range m.top {
		if n.K == "export" {
			top = append(top, n.A[0])
			continue
		}
		top = append(top, n)
	}
	in.hoist(top, e)
	for _, n := range m.top {
		if n.K == "export" && n.S == "default" {
			if o, ok := in.eval(n.A[0], e).(*Obj); ok {
				for _, k := range o.Keys {
					out[k] = in.jsGet(o, k)
				}
			}
			continue
		}
		in.exec(n, e)
	}
	for k, c := range e.vars {
		if _, ok := out[k]; !ok {
			out[k] = c.V
		}
	}
	if o, ok := mod.F["exports"].V.(*Obj); ok {
		out["exports"] = o
	}
	return out
}

// jsFind walks a dotted path in the exports.
func (in *Interp) jsFind(exp map[string]Val, pkg, name string) Val {
	if v, ok := exp["exports"].(*Obj); ok && len(v.Keys) > 0 {
		var cur Val = v
		for _, p := range append(strings.Split(pkg, "."), name) {
			o, ok := cur.(*Obj)
			if !ok {
				return nil
			}
			cur = in.jsGet(o, p)
		}
		return cur
	}
	return exp[name]
}
