package gcv

import (
	"strings"

	"verif/sym"
)

// ------------------------------------------------------------- names

func (in *Interp) global(name string) *Cell {
	if in.genv != nil {
		return in.genv.look(name)
	}
	return nil
}

func (in *Interp) ident(n *Node, e *Env) Val {
	if c := e.look(n.S); c != nil {
		return in.load(c)
	}
	switch n.S {
	case "this":
		if e.frame != nil && e.frame.this != nil {
			return e.frame.this
		}
		return Undef{}
	case "null", "nullptr", "NULL", "None", "nil":
		return Nil{}
	case "true", "True":
		return Bool{sym.True}
	case "false", "False":
		return Bool{sym.False}
	case "undefined":
		return Undef{}
	}
	if l := in.implicit(n.S, e); l != nil {
		return l.get(in)
	}
	if c := in.global(n.S); c != nil {
		return in.load(c)
	}
	if v, ok := in.global1(n.S); ok {
		return v
	}
	return NS{n.S}
}

// global1 resolves a module-level name.
func (in *Interp) global1(name string) (Val, bool) {
	m := in.M
	if c := m.Classes[name]; c != nil {
		return ClsV{c}, true
	}
	if fs := m.Funcs[name]; len(fs) > 0 {
		return &FuncV{F: fs[0], Name: name}, true
	}
	if f := m.Globals[name]; f != nil {
		return in.staticCell(nil, f).V, true
	}
	if d, ok := m.Defines[name]; ok && d != "" {
		ts := lex(d, m.D)
		p := &parser{t: ts, d: m.D, m: m, types: m.typeNames(), end: len(ts) - 1}
		return in.eval(p.cond(), &Env{vars: map[string]*Cell{}}), true
	}
	if m.D == DC {
		for _, c := range m.Classes {
			if c.Kind != "enum" {
				continue
			}
			for i, it := range c.Items {
				if it.Name == name {
					return Int{N: in.enumVals(c)[i], T: i32, Lit: true}, true
				}
			}
		}
	}
	return nil, false
}

// staticCell is the storage of a static field or a global.
func (in *Interp) staticCell(c *Class, f *Field) *Cell {
	key := "static:" + f.Name
	if c != nil {
		key = "static:" + c.Name + "." + f.Name
	}
	if v, ok := in.Ext[key]; ok {
		return v.(*Cell)
	}
	cell := &Cell{}
	in.Ext[key] = cell
	t := (*RT)(nil)
	if f.RT != nil || f.T != nil {
		t = in.rtField(f)
	}
	if t != nil && t.K == '?' {
		t = nil
	}
	cell.T = t
	if n := f.init(in.M); n != nil {
		fr := &frame{cls: c}
		sv := in.fr
		in.fr = fr
		cell.V = in.convert(in.eval(in.initNode(n, t), &Env{vars: map[string]*Cell{}, frame: fr}), t, false)
		in.fr = sv
	} else if t != nil {
		cell.V = in.zero(t, false)
	}
	return cell
}

// implicit resolves an unqualified member name.
func (in *Interp) implicit(name string, e *Env) lval {
	if in.M.D == DJs || in.M.D == DPy || in.M.D == DGo || in.M.D == DC {
		return nil
	}
	fr := e.frame
	if fr == nil {
		return nil
	}
	if o, ok := fr.this.(*Obj); ok {
		if c := o.F[name]; c != nil {
			return cellLV{c}
		}
		if o.Cls != nil && (o.Cls.Get[name] != nil || o.Cls.Set[name] != nil) {
			return in.memberLV(o, name, nil)
		}
	}
	if ev, ok := fr.this.(EnumV); ok {
		if v, ok := in.enumMember(ev, name); ok {
			return cellLV{&Cell{V: v}}
		}
	}
	for c := fr.cls; c != nil; c = c.Outer {
		for _, f := range c.Fields {
			if f.Name == name && f.Static {
				return cellLV{in.staticCell(c, f)}
			}
		}
		if c.Kind == "enum" {
			for i, it := range c.Items {
				if it.Name == name {
					return cellLV{&Cell{V: EnumV{c, in.enumVals(c)[i]}}}
				}
			}
		}
		if g := c.Get[name]; g != nil && g.Static {
			cls := c
			return funcLV{g: func() Val { return in.callFunc(cls.Get[name], nil, nil, nil) }}
		}
		if ic := c.Inner[name]; ic != nil {
			return cellLV{&Cell{V: ClsV{ic}}}
		}
	}
	return nil
}

func (in *Interp) enumItem(c *Class, name string) Val {
	for i, it := range c.Items {
		if it.Name == name {
			return EnumV{c, in.enumVals(c)[i]}
		}
	}
	in.unsup("enumerator %s.%s", c.Name, name)
	return nil
}

// enumMember: data members of enumerators (constructor arguments).
func (in *Interp) enumMember(v EnumV, name string) (Val, bool) {
	if in.M.D == DPy {
		if name == "value" {
			return Int{N: v.N, T: ibig}, true
		}
		return nil, false
	}
	for _, f := range v.Cls.Fields {
		if f.Name == name && !f.Static {
			return in.convert(Int{N: v.N, T: i64}, in.rtField(f), true), true
		}
	}
	return nil, false
}

// qualified resolves dotted names that start outside the local scope.
func (in *Interp) qualified(n *Node, e *Env) (Val, bool) {
	var path []string
	x := n
	for x.K == "mem" {
		path = append([]string{x.S}, path...)
		x = x.A[0]
	}
	if x.K != "id" {
		return nil, false
	}
	if x.S == "this" || x.S == "base" || e.look(x.S) != nil || in.implicit(x.S, e) != nil {
		return nil, false
	}
	if in.M.Classes[x.S] != nil || in.M.Globals[x.S] != nil {
		return nil, false
	}
	for i, p := range path {
		if c := in.M.Classes[p]; c != nil {
			var v Val = ClsV{c}
			for _, q := range path[i+1:] {
				v = in.member(v, q, n)
			}
			return v, true
		}
	}
	// outside names: reduce to the last two components
	if len(path) == 1 {
		return nil, false
	}
	return in.member(NS{path[len(path)-2]}, path[len(path)-1], n), true
}

// ------------------------------------------------------------- members

// asObj reaches the object behind a value.
func (in *Interp) asObj(v Val) (*Obj, bool) {
	switch x := v.(type) {
	case *Obj:
		return x, true
	case Ptr:
		if x.T != nil && x.T.K == 'c' || x.C != nil {
			if o, ok := in.deref(x).(*Obj); ok {
				return o, true
			}
		}
	}
	return nil, false
}

func (c *Class) method(name string) []*Func {
	return c.Funcs[name]
}

func (in *Interp) member(o Val, name string, n *Node) Val {
	switch x := o.(type) {
	case Nil, Undef:
		if in.M.D == DJs {
			in.throw("TypeError", "property %s of %s", name, describe(o))
		}
		if in.exc() {
			in.throw("NullPointerException", "member %s of null", name)
		}
		in.fail("null", "member %s of a null pointer", name)
	case ClsV:
		return in.classMember(x.C, name)
	case EnumV:
		if v, ok := in.enumMember(x, name); ok {
			return v
		}
		if g := x.Cls.Get[name]; g != nil {
			return in.callFunc(g, x, nil, nil)
		}
		if fs := x.Cls.Funcs[name]; len(fs) > 0 {
			return &FuncV{F: fs[0], This: x, HasT: true, Name: name}
		}
	}
	if ob, ok := in.asObj(o); ok {
		if in.M.D == DJs {
			return in.jsGet(ob, name)
		}
		if c := ob.F[name]; c != nil {
			return in.load(c)
		}
		if ob.Cls != nil {
			if g := ob.Cls.Get[name]; g != nil {
				return in.callFunc(g, ob, nil, nil)
			}
			if fs := ob.Cls.Funcs[name]; len(fs) > 0 {
				return &FuncV{F: fs[0], This: ob, HasT: true, Name: name}
			}
			for _, f := range ob.Cls.Fields {
				if f.Name == name && f.Static {
					return in.load(in.staticCell(ob.Cls, f))
				}
			}
			if v, ok := in.clsAttr(ob.Cls, name); ok {
				return v
			}
		}
		if in.M.D == DPy {
			in.throw("AttributeError", "no attribute %s", name)
		}
	}
	if v, ok := in.biMember(o, name); ok {
		return v
	}
	in.unsup("member %s of %s", name, describe(o))
	return nil
}

// clsAttr: Python class attributes.
func (in *Interp) clsAttr(c *Class, name string) (Val, bool) {
	if in.M.D != DPy {
		return nil, false
	}
	for _, f := range c.Fields {
		if f.Name == name {
			return in.load(in.staticCell(c, f)), true
		}
	}
	return nil, false
}

func (in *Interp) classMember(c *Class, name string) Val {
	if c.Kind == "enum" {
		for i, it := range c.Items {
			if it.Name == name {
				return EnumV{c, in.enumVals(c)[i]}
			}
		}
	}
	for _, f := range c.Fields {
		if f.Name == name && (f.Static || in.M.D == DPy) {
			return in.load(in.staticCell(c, f))
		}
	}
	if g := c.Get[name]; g != nil && g.Static {
		return in.callFunc(g, nil, nil, nil)
	}
	if fs := c.Funcs[name]; len(fs) > 0 {
		return &FuncV{F: fs[0], Name: name}
	}
	if ic := c.Inner[name]; ic != nil {
		return ClsV{ic}
	}
	if v, ok := in.biMember(ClsV{c}, name); ok {
		return v
	}
	in.unsup("static member %s.%s", c.Name, name)
	return nil
}

func (in *Interp) memberLV(o Val, name string, n *Node) lval {
	switch x := o.(type) {
	case Nil, Undef:
		if in.exc() {
			in.throw("NullPointerException", "member %s of null", name)
		}
		in.fail("null", "member %s of a null pointer", name)
	case ClsV:
		for _, f := range x.C.Fields {
			if f.Name == name {
				return cellLV{in.staticCell(x.C, f)}
			}
		}
	case *FuncV:
		if in.M.D == DJs {
			return in.jsProp(in.fnObj(x), name)
		}
	case Ptr:
		if x.C == nil && x.A == nil && x.B != nil {
			in.unsup("member access into byte memory")
		}
	}
	if ob, ok := in.asObj(o); ok {
		if in.M.D == DJs {
			return in.jsProp(ob, name)
		}
		if c := ob.F[name]; c != nil {
			return cellLV{c}
		}
		if ob.Cls != nil {
			g, s := ob.Cls.Get[name], ob.Cls.Set[name]
			if g != nil || s != nil {
				return funcLV{
					g: func() Val {
						if g == nil {
							in.unsup("write-only property %s", name)
						}
						return in.callFunc(g, ob, nil, nil)
					},
					s: func(v Val) {
						if s == nil {
							in.throw("AttributeError", "property %s has no setter", name)
						}
						in.callFunc(s, ob, []Val{v}, nil)
					},
				}
			}
		}
		if in.M.D == DPy {
			c := &Cell{}
			ob.F[name] = c
			if in.merge > 0 {
				in.jrnl = append(in.jrnl, undo{fn: func() { delete(ob.F, name) }})
			}
			ob.Keys = append(ob.Keys, name)
			return cellLV{c}
		}
	}
	in.unsup("assignable member %s of %s", name, describe(o))
	return nil
}

// ------------------------------------------------------------- calls

func (in *Interp) args(ns []*Node, e *Env) []Val {
	var out []Val
	for _, a := range ns {
		if a.K == "spread" {
			s := in.iterate(in.eval(a.A[0], e))
			for i := 0; ; i++ {
				v, ok := s(i)
				if !ok {
					break
				}
				out = append(out, v)
			}
			continue
		}
		out = append(out, in.eval(a, e))
	}
	return out
}

// pick selects an overload.
func (in *Interp) pick(fs []*Func, args []Val) *Func {
	var best *Func
	bs := -1
	for _, f := range fs {
		if f.toks == nil && f.body == nil {
			continue
		}
		min, max := 0, len(f.Params)
		for _, p := range f.Params {
			if p.Def == nil && !p.Rest {
				min++
			}
			if p.Rest {
				max = 1 << 20
			}
		}
		if len(args) < min || len(args) > max {
			continue
		}
		s := 1
		if len(fs) > 1 && in.M.D != DPy && in.M.D != DJs {
			for i, a := range args {
				if i >= len(f.Params) || f.Params[i].T == nil {
					continue
				}
				k := in.fit(a, in.rt(f.Params[i].T))
				if k < 0 {
					s = -1
					break
				}
				s += k
			}
		}
		if s > bs {
			best, bs = f, s
		}
	}
	return best
}

// fit scores an argument against a parameter type.
func (in *Interp) fit(v Val, t *RT) int {
	if t == nil {
		return 0
	}
	switch x := v.(type) {
	case Int:
		if t.K == 'i' {
			if t.I == x.T {
				return 10
			}
			if t.I.W > x.T.W && (t.I.S || !x.T.S) {
				return 5 - t.I.W/64
			}
			if in.M.D == DJava || in.M.D == DCs || in.M.D == DKt {
				return -1
			}
			return 1
		}
		if t.K == 'f' {
			return 1
		}
		if t.K == 'p' && x.N.Const() && x.N.Value().Sign() == 0 {
			return 0
		}
		return -1
	case Bool:
		if t.K == 'b' {
			return 10
		}
		return -1
	case Flt:
		if t.K == 'f' {
			if t.W == x.W {
				return 10
			}
			return 4
		}
		return -1
	case *Str:
		if t.K == 's' {
			return 10
		}
		return -1
	case Bytes:
		if t.K == 'y' {
			if x.Kind == t.N {
				return 10
			}
			if (x.Kind == "byte[]" || x.Kind == "span") && (t.N == "span" || t.N == "memory") {
				return 3
			}
			return -1
		}
		if t.K == 'p' {
			return 1
		}
		return -1
	case Ptr:
		if t.K == 'p' {
			if sameRT(t.E, x.T) {
				return 10
			}
			return 5
		}
		return -1
	case *Obj:
		if t.K == 'c' && t.Cls == x.Cls {
			return 10
		}
		if t.K == '?' {
			return 0
		}
		return -1
	case EnumV:
		if t.K == 'e' && t.Cls == x.Cls {
			return 10
		}
		return -1
	case *Arr:
		if t.K == 'a' {
			return 10
		}
		return -1
	case *FuncV:
		if t.K == '?' {
			return 1
		}
		return -1
	}
	return 0
}

func (in *Interp) call(n *Node, e *Env) Val {
	cal := n.A[0]
	for cal.K == "paren" {
		cal = cal.A[0]
	}
	an := n.A[1:]
	switch cal.K {
	case "mem", "optmem":
		// receiver
		var recv Val
		r := cal.A[0]
		if r.K == "mem" && (in.M.D == DCpp || in.M.D == DCs || in.M.D == DJava) {
			if v, ok := in.qualified(r, e); ok {
				recv = v
			}
		}
		if recv == nil {
			recv = in.eval(r, e)
		}
		if cal.K == "optmem" {
			switch recv.(type) {
			case Nil, Undef:
				return recv
			}
		}
		return in.callMember(recv, cal.S, an, n, e)
	case "id":
		name := cal.S
		if c := e.look(name); c != nil {
			return in.callVal(in.load(c), nil, in.args(an, e), n)
		}
		if in.M.D != DJs && in.M.D != DPy && in.M.D != DGo && e.frame != nil {
			for c := e.frame.cls; c != nil; c = c.Outer {
				if fs := c.Funcs[name]; len(fs) > 0 {
					args := in.args(an, e)
					f := in.pick(fs, args)
					if f == nil {
						in.unsup("no overload of %s for %d arguments", name, len(args))
					}
					var this Val
					if !f.Static {
						this = e.frame.this
					}
					return in.callFunc(f, this, args, nil)
				}
			}
			if l := in.implicit(name, e); l != nil {
				return in.callVal(l.get(in), nil, in.args(an, e), n)
			}
		}
		if c := in.global(name); c != nil {
			return in.callVal(in.load(c), nil, in.args(an, e), n)
		}
		if fs := in.M.Funcs[name]; len(fs) > 0 {
			args := in.args(an, e)
			f := in.pick(fs, args)
			if f == nil {
				in.unsup("no overload of %s", name)
			}
			return in.callFunc(f, nil, args, nil)
		}
		if c := in.M.Classes[name]; c != nil {
			return in.construct(c, in.args(an, e))
		}
		return in.biCall(name, an, n, e)
	case "ty":
		return in.biType(cal.T, in.args(an, e))
	}
	fv := in.eval(cal, e)
	return in.callVal(fv, nil, in.args(an, e), n)
}

func (in *Interp) callMember(recv Val, name string, an []*Node, n *Node, e *Env) Val {
	switch x := recv.(type) {
	case ClsV:
		if fs := x.C.Funcs[name]; len(fs) > 0 {
			args := in.args(an, e)
			f := in.pick(fs, args)
			if f != nil {
				if x.C.Kind == "enum" {
					return in.summarize(func() Val { return in.callFunc(f, nil, args, nil) })
				}
				var this Val
				if in.M.D == DPy && f.Recv != "" && len(args) > 0 {
					this, args = args[0], args[1:]
				}
				return in.callFunc(f, this, args, nil)
			}
		}
		if ic := x.C.Inner[name]; ic != nil {
			return in.construct(ic, in.args(an, e))
		}
	case EnumV:
		if fs := x.Cls.Funcs[name]; len(fs) > 0 {
			args := in.args(an, e)
			if f := in.pick(fs, args); f != nil {
				return in.callFunc(f, x, args, nil)
			}
		}
	case Nil, Undef:
		in.member(recv, name, n) // reports
	}
	if o, ok := in.asObj(recv); ok {
		if in.M.D == DJs {
			return in.callVal(in.jsGet(o, name), o, in.args(an, e), n)
		}
		if o.Cls != nil {
			if fs := o.Cls.Funcs[name]; len(fs) > 0 {
				args := in.args(an, e)
				f := in.pick(fs, args)
				if f == nil {
					in.unsup("no overload of %s for %d arguments", name, len(args))
				}
				var this Val = recv
				if in.M.D != DGo {
					this = o
				}
				return in.callFunc(f, this, args, nil)
			}
			if c := o.F[name]; c != nil {
				return in.callVal(in.load(c), nil, in.args(an, e), n)
			}
		}
	}
	if fv, ok := recv.(*FuncV); ok && in.M.D == DJs {
		if p := in.jsGet(in.fnObj(fv), name); p != nil {
			if _, und := p.(Undef); !und {
				return in.callVal(p, fv, in.args(an, e), n)
			}
		}
	}
	return in.biMethod(recv, name, in.args(an, e), n)
}

func (in *Interp) callVal(v Val, this Val, args []Val, n *Node) Val {
	switch f := v.(type) {
	case *FuncV:
		if f.Native != nil {
			if f.HasT {
				this = f.This
			}
			return f.Native(in, this, args)
		}
		if f.HasT {
			this = f.This
		}
		fn := f.F
		if fn.Cls != nil && in.M.D != DJs {
			if g := in.pick(fn.Cls.Funcs[fn.Name], args); g != nil {
				fn = g
			}
		}
		if fn.Arrow && in.M.D == DKt {
			return in.callLambda(f, args)
		}
		return in.callFunc(fn, this, args, f.Env)
	case ClsV:
		return in.construct(f.C, args)
	case *Obj:
		if f.Fn != nil {
			return in.callVal(f.Fn, this, args, n)
		}
	case NS:
		return in.biNS(f.N, args, n)
	case Undef, Nil:
		in.throw("TypeError", "call of %s", describe(v))
	}
	in.unsup("call of %s", describe(v))
	return nil
}

// callLambda runs a Kotlin lambda inside the enclosing function's frame.
func (in *Interp) callLambda(f *FuncV, args []Val) Val {
	ne := f.Env.child()
	if len(f.F.Params) == 0 && len(args) == 1 {
		ne.vars["it"] = &Cell{V: args[0]}
	}
	for i, p := range f.F.Params {
		if i < len(args) {
			ne.vars[p.Name] = &Cell{V: args[i]}
		}
	}
	b := f.F.Body()
	for i, s := range b.A {
		if i == len(b.A)-1 {
			switch s.K {
			case "expr":
				if s.A[0].K != "cond" && s.A[0].K != "when" && s.A[0].K != "assign" && s.A[0].K != "post" {
					return in.ktValue(s.A[0], ne)
				}
				if s.A[0].K == "cond" && len(s.A[0].A) == 3 {
					return in.ktValue(s.A[0], ne)
				}
			}
		}
		c, v := in.exec(s, ne)
		if c == cReturn {
			panic(nonLocal{f.Env.frame, v})
		}
	}
	return Undef{}
}

func (in *Interp) callFunc(f *Func, this Val, args []Val, up *Env) (ret Val) {
	in.depth++
	if in.depth > 120 {
		in.unsup("call depth")
	}
	depth := in.depth
	fr := &frame{fn: f, this: this, cls: f.Cls, up: in.fr}
	e := &Env{vars: map[string]*Cell{}, up: up, frame: fr}
	if up == nil {
		e.up = in.genv
	}
	if in.M.D == DPy && f.Recv != "" {
		e.vars[f.Recv] = &Cell{V: this}
	}
	if in.M.D == DGo && f.Recv != "" {
		rv := this
		if f.RecvP {
			if o, ok := rv.(*Obj); ok {
				rv = Ptr{C: &Cell{V: o, T: &RT{K: 'c', Cls: o.Cls}}, T: &RT{K: 'c', Cls: o.Cls}}
			}
			e.vars[f.Recv] = &Cell{V: rv}
		} else {
			if p, ok := rv.(Ptr); ok {
				rv = in.deref(p)
			}
			e.vars[f.Recv] = &Cell{V: in.copyVal(rv), T: in.rtVal(rv)}
		}
	}
	saved := in.fr
	in.fr = fr
	for i, p := range f.Params {
		var v Val
		var t *RT
		if p.T != nil {
			t = in.rt(p.T)
		} else if p.RT != nil {
			t = p.RT
		}
		if t != nil && t.K == '?' {
			t = nil
		}
		if p.Rest {
			a := &Arr{}
			for k := i; k < len(args); k++ {
				a.E = append(a.E, &Cell{V: args[k]})
			}
			e.vars[p.Name] = &Cell{V: a}
			break
		}
		if i < len(args) {
			v = args[i]
		} else if p.Def != nil {
			v = in.eval(p.Def, e)
		} else if in.M.D == DJs {
			v = Undef{}
		} else if in.M.D == DPy {
			in.throw("TypeError", "%s() missing argument %s", f.Name, p.Name)
		} else {
			in.unsup("missing argument %s of %s", p.Name, f.Name)
		}
		if _, und := v.(Undef); und && in.M.D == DJs && p.Def != nil {
			v = in.eval(p.Def, e)
		}
		if t != nil && !(p.T != nil && p.T.K == "r") {
			v = in.convert(v, t, false)
		}
		if iv, ok := v.(Int); ok {
			iv.Lit = false
			v = iv
		}
		e.vars[p.Name] = &Cell{V: v, T: t}
	}
	if in.M.D == DJs {
		a := &Arr{}
		for _, v := range args {
			a.E = append(a.E, &Cell{V: v})
		}
		e.vars["arguments"] = &Cell{V: a}
	}
	for _, r := range f.Results {
		if r.Name != "" {
			e.vars[r.Name] = &Cell{V: in.zero(r.RT, false), T: r.RT}
		}
	}
	body := f.Body()
	if body == nil {
		in.unsup("function %s has no body", f.Name)
	}
	run := func() Val {
		if f.expr {
			return in.eval(body, e)
		}
		if in.M.D == DJs {
			in.hoist(body.A, e)
		}
		c, v := in.execBlock(body.A, e)
		if c == cReturn {
			return v
		}
		return Undef{}
	}
	if in.M.D == DKt {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if nl, ok := r.(nonLocal); ok && nl.fr == fr {
						ret = nl.v
						return
					}
					panic(r)
				}
			}()
			ret = run()
		}()
	} else {
		ret = run()
	}
	in.fr = saved
	in.depth = depth - 1
	if f.Ret != nil {
		if t := in.rt(f.Ret); t != nil && t.K != 'v' && t.K != '?' {
			if _, ok := ret.(Tuple); !ok {
				ret = in.convert(ret, t, false)
			}
		}
	} else if len(f.Results) > 0 {
		if t, ok := ret.(Tuple); ok {
			for i := range t {
				t[i] = in.convert(t[i], f.Results[i].RT, false)
			}
		} else if _, und := ret.(Undef); und && f.Results[0].Name != "" {
			ret = in.load(e.vars[f.Results[0].Name])
		} else {
			ret = in.convert(ret, f.Results[0].RT, false)
		}
	}
	if iv, ok := ret.(Int); ok {
		iv.Lit = false
		ret = iv
	}
	return ret
}

func (in *Interp) rtVal(v Val) *RT {
	if o, ok := v.(*Obj); ok && o.Cls != nil {
		return &RT{K: 'c', Cls: o.Cls}
	}
	return nil
}

// construct instantiates a class of the module.
func (in *Interp) construct(c *Class, args []Val) Val {
	if c.Kind == "enum" {
		return in.enumLookup(c, args)
	}
	o := in.newObj(c, false)
	if in.M.D == DPy {
		if fs := c.Funcs["__init__"]; len(fs) > 0 {
			f := in.pick(fs, args)
			if f == nil {
				in.throw("TypeError", "__init__ arguments")
			}
			in.callFunc(f, o, args, nil)
		}
		return o
	}
	if len(c.Ctor) > 0 {
		f := in.pick(c.Ctor, args)
		if f == nil {
			in.unsup("constructor of %s with %d arguments", c.Name, len(args))
		}
		if in.M.D == DKt {
			for i, p := range f.Params {
				if cell := o.F[p.Name]; cell != nil && i < len(args) {
					in.store(cell, args[i])
				}
			}
		}
		in.callFunc(f, o, args, nil)
	} else if len(args) > 0 {
		in.unsup("constructor arguments of %s", c.Name)
	}
	return o
}

// enumLookup is Python's E(x).
func (in *Interp) enumLookup(c *Class, args []Val) Val {
	if len(args) != 1 {
		in.unsup("enum call")
	}
	if ev, ok := args[0].(EnumV); ok {
		return ev
	}
	x, ok := in.toInt(args[0])
	if !ok {
		in.throw("ValueError", "not a valid enum value")
	}
	l := sym.False
	for _, v := range in.enumVals(c) {
		l = in.C.Or(l, in.C.NEq(x.N, v))
	}
	if !in.Branch(l) {
		in.throw("ValueError", "not a valid %s", c.Name)
	}
	return EnumV{c, x.N}
}

// summarize runs a pure function over all its paths and joins equal kinds of
// results, so that the caller forks only between kinds.
func (in *Interp) summarize(f func() Val) Val {
	type out struct {
		cond sym.Lit
		v    Val
		p    any
	}
	savePC, saveTr, savePos, saveAlts, saveFr, saveDepth := in.pc, in.trace, in.pos, in.alts, in.fr, in.depth
	if in.merge > 0 {
		return f()
	}
	var outs []out
	work := [][]decision{nil}
	for len(work) > 0 {
		tr := work[len(work)-1]
		work = work[:len(work)-1]
		in.pc, in.trace, in.pos, in.alts = savePC, tr, 0, nil
		in.fr, in.depth = saveFr, saveDepth
		o := out{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case Fail, Throw:
						o.p = r
					case pathEnd:
						o.cond = -1
					default:
						panic(r)
					}
				}
			}()
			o.v = f()
		}()
		if o.cond != -1 {
			o.cond = in.pc
			outs = append(outs, o)
		}
		work = append(work, in.alts...)
		if len(outs) > 300 {
			in.unsup("too many paths in a pure call")
		}
	}
	in.pc, in.trace, in.pos, in.alts, in.fr, in.depth = savePC, saveTr, savePos, saveAlts, saveFr, saveDepth
	var groups []out
	for _, o := range outs {
		done := false
		for i := range groups {
			if groups[i].p != nil || o.p != nil {
				continue
			}
			if v, ok := in.mergeVal(o.cond, o.v, groups[i].v); ok {
				groups[i].v = v
				groups[i].cond = in.C.Or(groups[i].cond, o.cond)
				done = true
				break
			}
		}
		if !done {
			groups = append(groups, o)
		}
	}
	for i, g := range groups {
		if i == len(groups)-1 || in.Branch(g.cond) {
			if g.p != nil {
				panic(g.p)
			}
			return g.v
		}
	}
	panic(pathEnd{"no outcome"})
}

// ------------------------------------------------------------- creation

func (in *Interp) newExpr(n *Node, e *Env) Val {
	if in.M.D == DJs {
		return in.jsNew(n, e)
	}
	name := lastName(n.T.N)
	c := in.M.Classes[name]
	if c == nil {
		return in.biNew(name, n.T, in.args(n.A[1:], e))
	}
	if len(n.A) > 1 && n.A[1] != nil && n.A[1].K == "init" {
		o := in.construct(c, nil).(*Obj)
		for _, a := range n.A[1].A {
			if a.K == "assign" && a.A[0].K == "id" {
				in.memberLV(o, a.A[0].S, nil).set(in, in.eval(a.A[1], e))
			}
		}
		return o
	}
	return in.construct(c, in.args(n.A[1:], e))
}

func (in *Interp) newArr(n *Node, e *Env) Val {
	if n.S == "len" {
		iv := in.eval(n.A[0], e)
		x, ok := in.toInt(iv)
		if !ok {
			in.unsup("array length")
		}
		if !x.N.Const() {
			if in.Branch(x.N[len(x.N)-1]) {
				in.throw("NegativeArraySizeException", "negative array length")
			}
		}
		k := in.ConcInt(iv)
		if k < 0 {
			in.throw("NegativeArraySizeException", "%d", k)
		}
		if k > 1<<17 {
			in.throw("OutOfMemoryError", "array of %d elements", k)
		}
		et := in.rt(n.T)
		return in.mkArr(et, k)
	}
	et := (*RT)(nil)
	if n.T != nil {
		et = in.rt(n.T)
	}
	return in.arrOf(et, in.args(n.A[0].A, e))
}

func (in *Interp) mkArr(et *RT, k int) Val {
	if et.K == 'i' && et.I.W == 8 && (in.M.D == DJava || in.M.D == DCs) {
		b := &Buf{B: make([]sym.Num, k)}
		for i := range b.B {
			b.B[i] = sym.Num{sym.False}
		}
		return Bytes{B: b, Len: k, S: et.I.S, Kind: "byte[]"}
	}
	a := &Arr{T: et}
	for i := 0; i < k; i++ {
		a.E = append(a.E, &Cell{V: in.zero(et, false), T: et})
	}
	return a
}

func (in *Interp) arrOf(et *RT, vs []Val) Val {
	if et != nil && et.K == 'i' && et.I.W == 8 && (in.M.D == DJava || in.M.D == DCs) {
		b := &Buf{}
		for _, v := range vs {
			x, _ := in.toInt(v)
			b.B = append(b.B, in.C.Wrap(x.N, 8, false))
		}
		return Bytes{B: b, Len: len(b.B), S: et.I.S, Kind: "byte[]"}
	}
	a := &Arr{T: et}
	for _, v := range vs {
		a.E = append(a.E, &Cell{V: in.convert(v, et, false), T: et})
	}
	return a
}

// initExpr evaluates brace initialisers.
func (in *Interp) initExpr(n *Node, e *Env) Val {
	t := n.R
	if t == nil {
		if n.K == "init" && in.M.D == DCs || in.M.D == DJava {
			return in.arrOf(nil, in.args(n.A, e))
		}
		t = &RT{K: '?'}
	}
	switch t.K {
	case 'a':
		et := t.E
		var vs []Val
		for _, a := range n.A {
			vs = append(vs, in.eval(in.initNode(a, et), e))
		}
		if t.Len >= 0 {
			a := in.zero(t, false).(*Arr)
			if len(vs) > len(a.E) {
				in.fail("init", "too many initialisers")
			}
			for i, v := range vs {
				in.store(a.E[i], v)
			}
			return a
		}
		return in.arrOf(et, vs)
	case 'y':
		return in.arrOf(t.E, in.args(n.A, e))
	case 'c':
		o := in.newObj(t.Cls, false)
		i := 0
		for _, f := range t.Cls.Fields {
			if f.Static || i >= len(n.A) {
				continue
			}
			in.store(o.F[f.Name], in.eval(in.initNode(n.A[i], o.F[f.Name].T), e))
			i++
		}
		return o
	}
	if len(n.A) == 0 {
		return in.zero(t, false)
	}
	if len(n.A) == 1 {
		return in.convert(in.eval(n.A[0], e), t, false)
	}
	in.unsup("initialiser of %s", t)
	return nil
}

// ------------------------------------------------------------- strings

func (in *Interp) str(s string) *Str {
	o := &Str{HasB: true, HasU: true}
	for i := 0; i < len(s); i++ {
		o.B = append(o.B, in.C.Int(int64(s[i])))
	}
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			o.U = append(o.U, in.C.Int(int64(0xD800+(r>>10))), in.C.Int(int64(0xDC00+(r&0x3FF))))
		} else {
			o.U = append(o.U, in.C.Int(int64(r)))
		}
	}
	return o
}

func (in *Interp) goStr(s *Str) (string, bool) {
	if s.HasB {
		var b []byte
		for _, x := range s.B {
			v, ok := x.Int64()
			if !ok {
				return "", false
			}
			b = append(b, byte(v))
		}
		return string(b), true
	}
	var sb strings.Builder
	for _, x := range s.U {
		v, ok := x.Int64()
		if !ok {
			return "", false
		}
		sb.WriteRune(rune(v))
	}
	return sb.String(), true
}

func (in *Interp) strCat(a Val, b Val) Val {
	x, y := in.toStr(a), in.toStr(b)
	o := &Str{}
	if x.HasB && y.HasB {
		o.HasB = true
		o.B = append(append([]sym.Num{}, x.B...), y.B...)
	}
	if x.HasU && y.HasU {
		o.HasU = true
		o.U = append(append([]sym.Num{}, x.U...), y.U...)
	}
	if !o.HasB && !o.HasU {
		in.unsup("string concatenation")
	}
	return o
}

func (in *Interp) toStr(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case Int:
		if x.N.Const() {
			return in.str(x.N.Value().String())
		}
	}
	return in.str("?")
}

func (in *Interp) strEq(a, b *Str) sym.Lit {
	cmp := func(x, y []sym.Num) sym.Lit {
		if len(x) != len(y) {
			return sym.False
		}
		l := sym.True
		for i := range x {
			l = in.C.And(l, in.C.NEq(x[i], y[i]))
		}
		return l
	}
	if a.HasB && b.HasB {
		return cmp(a.B, b.B)
	}
	if a.HasU && b.HasU {
		return cmp(a.U, b.U)
	}
	in.unsup("string comparison across encodings")
	return sym.False
}

// ------------------------------------------------------------- slices

type sliceV struct{ lo, hi Val }

func (in *Interp) mkSlice(n *Node, e *Env) Val {
	s := sliceV{}
	if n.A[0] != nil {
		s.lo = in.eval(n.A[0], e)
	}
	if n.A[1] != nil {
		s.hi = in.eval(n.A[1], e)
	}
	return s
}

func (in *Interp) slice(o Val, sn *Node, e *Env) Val {
	s := in.mkSlice(sn, e).(sliceV)
	if in.M.D == DPy {
		return in.pySlice(o, s)
	}
	// Go
	if p, ok := o.(Ptr); ok {
		o = in.deref(p)
	}
	if st, ok := o.(*Str); ok {
		lo, hi := 0, len(st.B)
		lo, hi = in.bounds(s, lo, hi, len(st.B))
		return &Str{HasB: true, B: st.B[lo:hi]}
	}
	b, ok := o.(Bytes)
	if !ok {
		if a, ok := o.(*Arr); ok {
			lo, hi := in.bounds(s, 0, len(a.E), len(a.E))
			return &Arr{T: a.T, Kind: a.Kind, E: a.E[lo:hi]}
		}
		in.unsup("slice of %s", describe(o))
	}
	lo, hi := in.bounds(s, 0, b.Len, b.Cap)
	return Bytes{B: b.B, Off: b.Off + lo, Len: hi - lo, Cap: b.Cap - lo, Kind: b.Kind}
}

// bounds checks a Go slice expression.
func (in *Interp) bounds(s sliceV, lo, hi, cap int) (int, int) {
	if s.lo == nil && s.hi == nil {
		return lo, hi
	}
	c := in.C
	ln, hn := c.Int(int64(lo)), c.Int(int64(hi))
	if s.lo != nil {
		x, _ := in.toInt(s.lo)
		ln = x.N
	}
	if s.hi != nil {
		x, _ := in.toInt(s.hi)
		hn = x.N
	}
	ok := c.And(ln[len(ln)-1].Not(), c.And(c.NLt(hn, ln).Not(), c.NLt(c.Int(int64(cap)), hn).Not()))
	if !in.Branch(ok) {
		in.throw("panic", "slice bounds out of range")
	}
	return int(in.Concrete(ln).Int64()), int(in.Concrete(hn).Int64())
}

// pyBounds clamps Python slice bounds.
func (in *Interp) pyBounds(s sliceV, n int) (int, int) {
	c := in.C
	clamp := func(v Val, def int) int {
		if v == nil {
			return def
		}
		if _, ok := v.(Nil); ok {
			return def
		}
		x, ok := in.toInt(v)
		if !ok {
			in.unsup("slice bound %s", describe(v))
		}
		if !x.N.Const() && in.Branch(c.NLt(x.N, c.Int(int64(n))).Not()) {
			return n
		}
		k := in.ConcInt(x)
		if k < 0 {
			k += n
			if k < 0 {
				k = 0
			}
		}
		if k > n {
			k = n
		}
		return k
	}
	lo := clamp(s.lo, 0)
	hi := clamp(s.hi, n)
	if hi < lo {
		hi = lo
	}
	return lo, hi
}

func (in *Interp) pySlice(o Val, s sliceV) Val {
	switch x := o.(type) {
	case Bytes:
		lo, hi := in.pyBounds(s, x.Len)
		if x.Kind == "memoryview" {
			return Bytes{B: x.B, Off: x.Off + lo, Len: hi - lo, Kind: x.Kind}
		}
		nb := &Buf{B: append([]sym.Num{}, x.B.B[x.Off+lo:x.Off+hi]...)}
		return Bytes{B: nb, Len: hi - lo, Kind: x.Kind}
	case *Arr:
		lo, hi := in.pyBounds(s, len(x.E))
		a := &Arr{Kind: x.Kind}
		for _, c := range x.E[lo:hi] {
			a.E = append(a.E, &Cell{V: c.V})
		}
		return a
	case *Str:
		if x.HasB {
			if g, ok := in.goStr(x); ok {
				r := []rune(g)
				lo, hi := in.pyBounds(s, len(r))
				return in.str(string(r[lo:hi]))
			}
		}
	}
	in.unsup("slice of %s", describe(o))
	return nil
}

// pySliceLV is data[a:b] = bytes.
func (in *Interp) pySliceLV(b Bytes, s sliceV) lval {
	return funcLV{
		g: func() Val { return in.pySlice(b, s) },
		s: func(v Val) {
			src, ok := v.(Bytes)
			if !ok {
				in.unsup("slice assignment of %s", describe(v))
			}
			lo, hi := in.pyBounds(s, b.Len)
			if b.B.RO {
				in.fail("write", "write to the input buffer")
			}
			if src.Len != hi-lo {
				if b.Kind == "memoryview" {
					in.throw("ValueError", "memoryview assignment: lvalue and rvalue have different structures")
				}
				in.fail("resize", "slice assignment of %d bytes into %d resizes the bytearray", src.Len, hi-lo)
			}
			cp := append([]sym.Num{}, src.B.B[src.Off:src.Off+src.Len]...)
			for i, n := range cp {
				in.setByte(b.B, b.Off+lo+i, n)
			}
		},
	}
}
