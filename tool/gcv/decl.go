package gcv

import (
	"fmt"
	"strings"
)

// AddFile parses one generated source file into the module.
func (m *Module) AddFile(name, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(synErr); ok {
				err = fmt.Errorf("%s: %s", name, e.msg)
				return
			}
			panic(r)
		}
	}()
	m.Files = append(m.Files, name)
	m.Src = append(m.Src, src)
	switch m.D {
	case DGo:
		return m.addGo(name, src)
	case DPy:
		return m.addPy(name, src)
	}
	ts := lex(src, m.D)
	types := m.typeNames()
	for i := 0; i+1 < len(ts); i++ {
		if ts[i].k == 'i' && ts[i+1].k == 'i' && (ts[i].s == "class" || ts[i].s == "struct" || ts[i].s == "enum" || ts[i].s == "interface") {
			n := ts[i+1].s
			if n == "class" && i+2 < len(ts) {
				n = ts[i+2].s
			}
			types[n] = true
		}
	}
	p := &parser{t: ts, d: m.D, m: m, types: types, end: len(ts) - 1}
	switch m.D {
	case DC, DCpp:
		p.topC(nil)
	case DJava, DCs:
		p.topJ(nil)
	case DKt:
		p.topK()
	case DJs:
		for p.tk().k != 'e' {
			m.top = append(m.top, p.stmt())
		}
	}
	return nil
}

func (m *Module) typeNames() map[string]bool {
	if m.pinfo == nil {
		m.pinfo = map[string]bool{}
	}
	return m.pinfo.(map[string]bool)
}

// Body returns the parsed body of a function.
func (f *Func) Body() *Node {
	if f.body != nil || f.toks == nil {
		return f.body
	}
	p := &parser{t: f.toks, p: f.lo, end: f.hi, d: f.mod.D, m: f.mod, types: f.mod.typeNames()}
	if f.expr {
		f.body = p.exprComma()
	} else {
		f.body = p.block()
	}
	return f.body
}

func (f *Field) init(m *Module) *Node {
	if f.Init == nil && f.toks != nil {
		p := &parser{t: f.toks, p: f.lo, end: f.hi, d: m.D, m: m, types: m.typeNames()}
		f.Init = p.assign()
	}
	return f.Init
}

// -------------------------------------------------------------- C and C++

func (p *parser) topC(ns []string) {
	m := p.m
	for p.tk().k != 'e' && !p.is("}") {
		t := p.tk()
		switch {
		case t.k == 'd':
			f := strings.Fields(t.s)
			if len(f) > 0 {
				m.Defines[f[0]] = strings.TrimSpace(strings.TrimPrefix(t.s, f[0]))
			}
			p.p++
		case p.acc(";"):
		case p.is("[") && p.isAt(1, "["):
			p.skipBal()
		case p.is("namespace"):
			p.p++
			for p.tk().k == 'i' || p.is("::") {
				p.p++
			}
			p.exp("{")
			p.topC(ns)
			p.exp("}")
		case p.is("extern") && p.at(1).k == 's':
			p.p += 2
			if p.acc("{") {
				p.topC(ns)
				p.exp("}")
			}
		case p.is("using") || p.is("typedef"):
			for !p.acc(";") {
				if p.is("{") {
					p.skipBal()
					continue
				}
				p.p++
			}
		case p.is("enum") && (p.isAt(2, "{") || p.isAt(1, "class") || p.isAt(2, ":")):
			p.enumC()
		case p.is("struct") && p.at(1).k == 'i' && p.isAt(2, "{"):
			p.structC(nil)
		case p.is("struct") && p.at(1).k == 'i' && p.isAt(2, ";"), p.is("class") && p.isAt(2, ";"):
			p.p += 3
		default:
			p.memberC(nil)
		}
	}
}

func (p *parser) enumC() {
	m := p.m
	p.exp("enum")
	p.acc("class")
	p.acc("struct")
	c := newClass(p.ident(), "enum", m)
	if p.acc(":") {
		c.Base = p.parseType()
	}
	p.exp("{")
	for !p.acc("}") {
		it := EnumItem{Name: p.ident()}
		if p.acc("=") {
			it.Args = []*Node{p.cond()}
		}
		c.Items = append(c.Items, it)
		if !p.acc(",") {
			p.exp("}")
			break
		}
	}
	p.exp(";")
	m.Classes[c.Name] = c
	m.typeNames()[c.Name] = true
}

func (p *parser) structC(outer *Class) *Class {
	m := p.m
	p.exp("struct")
	c := newClass(p.ident(), "struct", m)
	c.Outer = outer
	p.exp("{")
	for !p.acc("}") {
		if p.is("struct") && p.at(1).k == 'i' && p.isAt(2, "{") {
			in := p.structC(c)
			c.Inner[in.Name] = in
			continue
		}
		if p.acc(";") {
			continue
		}
		if (p.is("public") || p.is("private") || p.is("protected")) && p.isAt(1, ":") {
			p.p += 2
			continue
		}
		p.memberC(c)
	}
	p.exp(";")
	if old := m.Classes[c.Name]; old != nil && len(old.Fields) == 0 {
		for k, v := range old.Funcs {
			c.Funcs[k] = append(c.Funcs[k], v...)
			for _, f := range v {
				f.Cls = c
			}
		}
	}
	m.Classes[c.Name] = c
	m.typeNames()[c.Name] = true
	return c
}

// memberC parses a variable or function declaration at namespace or class level.
func (p *parser) memberC(cls *Class) {
	m := p.m
	for p.is("[") && p.isAt(1, "[") {
		p.skipBal()
	}
	static := false
	for i := 0; i < 6 && !p.isAt(i, ";") && !p.isAt(i, "(") && !p.isAt(i, "{") && !p.isAt(i, "="); i++ {
		if p.isAt(i, "static") {
			static = true
		}
	}
	ty := p.parseType()
	if ty == nil {
		p.fail("declaration expected")
	}
	if p.is("(") && ty.K == "n" { // constructor
		p.skipBal()
		for !p.is(";") && !p.is("{") {
			p.p++
		}
		if p.is("{") {
			p.skipBal()
		} else {
			p.p++
		}
		return
	}
	name := p.ident()
	owner := cls
	for p.acc("::") {
		owner = m.Classes[name]
		if owner == nil {
			owner = newClass(name, "struct", m)
			m.Classes[name] = owner
		}
		name = p.ident()
	}
	if p.is("(") {
		f := &Func{Name: name, Ret: ty, Cls: owner, Static: static, mod: m}
		f.Params = p.params()
		for p.is("const") || p.is("noexcept") || p.is("override") {
			p.p++
		}
		if p.is("{") {
			p.lazyBody(f)
		} else {
			if p.acc("=") {
				p.p++
			}
			p.exp(";")
		}
		var tab map[string][]*Func
		if owner != nil {
			tab = owner.Funcs
		} else {
			tab = m.Funcs
		}
		// merge declaration and definition
		for i, g := range tab[name] {
			if sameSig(g, f) {
				if f.toks != nil {
					f.Static = f.Static || g.Static
					tab[name][i] = f
				} else {
					g.Static = g.Static || f.Static
				}
				return
			}
		}
		tab[name] = append(tab[name], f)
		return
	}
	for {
		fd := &Field{Name: name, T: ty, Static: static && cls != nil}
		for p.is("[") {
			p.p++
			var ln *Node
			if !p.is("]") {
				ln = p.expr()
			}
			p.exp("]")
			fd.T = &Ty{K: "a", E: fd.T, n: ln}
		}
		// multi-dimensional arrays read outside in
		if p.acc("=") {
			fd.toks, fd.lo = p.t, p.p
			for !p.is(";") && !p.is(",") {
				if p.is("{") || p.is("(") || p.is("[") {
					p.skipBal()
				} else {
					p.p++
				}
			}
			fd.hi = p.p
		} else if p.is("{") {
			fd.toks, fd.lo = p.t, p.p
			p.skipBal()
			fd.hi = p.p
		}
		if cls != nil {
			cls.Fields = append(cls.Fields, fd)
		} else {
			m.Globals[name] = fd
		}
		if p.acc(",") {
			name = p.ident()
			continue
		}
		p.exp(";")
		return
	}
}

func sameSig(a, b *Func) bool {
	if len(a.Params) != len(b.Params) {
		return false
	}
	for i := range a.Params {
		if a.Params[i].T.String() != b.Params[i].T.String() {
			return false
		}
	}
	return true
}

// -------------------------------------------------------------- Java and C#

var jMods = set("public private protected static final abstract readonly const partial override virtual sealed internal unsafe new synchronized transient volatile extern")

func (p *parser) topJ(outer *Class) {
	m := p.m
	for p.tk().k != 'e' && !p.is("}") {
		switch {
		case p.tk().k == 'd':
			p.p++
		case p.acc(";"):
		case p.is("package") || p.is("import") || p.is("using"):
			for !p.acc(";") {
				p.p++
			}
		case p.is("namespace"):
			p.p++
			for !p.is("{") && !p.is(";") {
				p.p++
			}
			if p.acc("{") {
				p.topJ(outer)
				p.exp("}")
			}
		case p.is("@") || strings.HasPrefix(p.tk().s, "@"):
			p.annotation()
		case p.is("[") && p.d == DCs:
			p.skipBal()
		default:
			c := p.classJ(outer)
			m.Classes[c.Name] = c
		}
	}
}

func (p *parser) annotation() {
	p.p++
	if p.is("(") {
		p.skipBal()
	}
}

func (p *parser) classJ(outer *Class) *Class {
	m := p.m
	for p.tk().k == 'i' && jMods[p.tk().s] {
		p.p++
	}
	kind := p.ident()
	if kind != "class" && kind != "enum" && kind != "struct" && kind != "interface" {
		p.p--
		p.fail("class expected")
	}
	c := newClass(p.ident(), kind, m)
	c.Outer = outer
	m.typeNames()[c.Name] = true
	for !p.is("{") {
		if p.acc(":") || p.acc("extends") || p.acc("implements") {
			c.Base = p.parseType()
			continue
		}
		p.p++
	}
	p.exp("{")
	if kind == "enum" {
		for !p.is("}") && !p.is(";") {
			for strings.HasPrefix(p.tk().s, "@") {
				p.annotation()
			}
			it := EnumItem{Name: p.ident()}
			if p.acc("(") {
				it.Args = p.args(")")
			} else if p.acc("=") {
				it.Args = []*Node{p.cond()}
			}
			c.Items = append(c.Items, it)
			if !p.acc(",") {
				break
			}
		}
		p.acc(";")
	}
	for !p.acc("}") {
		p.memberJ(c)
	}
	p.acc(";")
	return c
}

func (p *parser) memberJ(c *Class) {
	m := p.m
	if p.acc(";") {
		return
	}
	if strings.HasPrefix(p.tk().s, "@") {
		p.annotation()
		return
	}
	if p.is("[") && p.d == DCs {
		p.skipBal()
		return
	}
	// nested type?
	i := 0
	static := false
	for p.at(i).k == 'i' && jMods[p.at(i).s] {
		if p.at(i).s == "static" || p.at(i).s == "const" {
			static = true
		}
		i++
	}
	if k := p.at(i).s; p.at(i).k == 'i' && (k == "class" || k == "enum" || k == "struct" || k == "interface") {
		in := p.classJ(c)
		c.Inner[in.Name] = in
		if m.Classes[in.Name] == nil {
			m.Classes[in.Name] = in
		}
		return
	}
	if i == 0 && p.is("{") { // initialiser block
		p.skipBal()
		return
	}
	p.p += i
	if p.tk().k == 'i' && p.isAt(1, "(") { // constructor
		f := &Func{Name: p.ident(), Cls: c, Ctor: true, mod: m}
		f.Params = p.params()
		if p.acc(":") {
			p.ident()
			p.skipBal()
		}
		p.lazyBody(f)
		c.Ctor = append(c.Ctor, f)
		return
	}
	ty := p.parseType()
	if ty == nil {
		p.fail("member type")
	}
	name := p.ident()
	switch {
	case p.is("("):
		f := &Func{Name: name, Cls: c, Static: static, Ret: ty, mod: m}
		f.Params = p.params()
		for p.acc("throws") {
			p.parseType()
		}
		switch {
		case p.is("{"):
			p.lazyBody(f)
		case p.acc("=>"):
			p.lazyExpr(f)
		default:
			p.exp(";")
		}
		c.Funcs[name] = append(c.Funcs[name], f)
	case p.is("{") && p.d == DCs: // property
		p.exp("{")
		for !p.acc("}") {
			for jMods[p.tk().s] {
				p.p++
			}
			k := p.ident()
			f := &Func{Name: name, Cls: c, Static: static, mod: m}
			if k == "get" {
				f.Get = true
				f.Ret = ty
			} else {
				f.Set = true
				f.Params = []Param{{Name: "value", T: ty}}
			}
			switch {
			case p.acc("=>"):
				p.lazyExpr(f)
			case p.is("{"):
				p.lazyBody(f)
			default:
				p.exp(";")
			}
			if f.Get {
				c.Get[name] = f
			} else {
				c.Set[name] = f
			}
		}
		if p.acc("=") {
			for !p.acc(";") {
				p.p++
			}
		}
	case p.acc("=>"):
		f := &Func{Name: name, Cls: c, Static: static, Ret: ty, Get: true, mod: m}
		p.lazyExpr(f)
		c.Get[name] = f
	default:
		for {
			fd := &Field{Name: name, T: ty, Static: static}
			for p.is("[") && p.isAt(1, "]") {
				p.p += 2
				fd.T = &Ty{K: "a", E: fd.T}
			}
			if p.acc("=") {
				fd.toks, fd.lo = p.t, p.p
				for !p.is(";") && !p.is(",") {
					if p.is("{") || p.is("(") || p.is("[") {
						p.skipBal()
					} else {
						p.p++
					}
				}
				fd.hi = p.p
			}
			c.Fields = append(c.Fields, fd)
			if p.acc(",") {
				name = p.ident()
				continue
			}
			p.exp(";")
			return
		}
	}
}

func (p *parser) lazyExpr(f *Func) {
	f.mod = p.m
	f.toks = p.t
	f.expr = true
	f.lo = p.p
	for !p.is(";") {
		if p.is("{") || p.is("(") || p.is("[") {
			p.skipBal()
		} else {
			p.p++
		}
	}
	f.hi = p.p
	p.exp(";")
}

// -------------------------------------------------------------- Kotlin

func (p *parser) topK() {
	for p.tk().k != 'e' {
		switch {
		case p.acc(";"):
		case strings.HasPrefix(p.tk().s, "@"):
			for p.p++; !p.tk().nl && p.tk().k != 'e'; {
				if p.is("(") {
					p.skipBal()
				} else {
					p.p++
				}
			}
		case p.is("package") || p.is("import"):
			for p.p++; !p.tk().nl; {
				p.p++
			}
		default:
			p.memberK(nil, false)
		}
	}
}

var kMods = set("public private internal protected open override data inline operator const lateinit enum companion abstract sealed final")

func (p *parser) memberK(c *Class, static bool) {
	m := p.m
	enum := false
	comp := false
	for strings.HasPrefix(p.tk().s, "@") && p.tk().k == 'i' {
		p.annotation()
	}
	for p.tk().k == 'i' && kMods[p.tk().s] {
		enum = enum || p.is("enum")
		comp = comp || p.is("companion")
		p.p++
	}
	switch {
	case p.is("class") || p.is("object"):
		obj := p.is("object")
		p.p++
		if comp {
			if p.tk().k == 'i' {
				p.p++
			}
			p.exp("{")
			for !p.acc("}") {
				if p.acc(";") {
					continue
				}
				p.memberK(c, true)
			}
			return
		}
		kind := "class"
		if enum {
			kind = "enum"
		}
		n := newClass(p.ident(), kind, m)
		n.Outer = c
		m.typeNames()[n.Name] = true
		if p.is("(") {
			ps := p.params()
			n.Ctor = append(n.Ctor, &Func{Name: n.Name, Params: ps, Ctor: true, mod: m, body: &Node{K: "block"}, Cls: n})
			for _, q := range ps {
				n.Fields = append(n.Fields, &Field{Name: q.Name, T: q.T})
			}
		}
		if p.acc(":") {
			n.Base = p.parseType()
			if p.is("(") {
				p.skipBal()
			}
		}
		if p.is("{") && !false {
			p.exp("{")
			if enum {
				for p.tk().k == 'i' && !p.is("companion") && !p.is("fun") {
					it := EnumItem{Name: p.ident()}
					if p.acc("(") {
						it.Args = p.args(")")
					}
					n.Items = append(n.Items, it)
					if !p.acc(",") {
						break
					}
				}
				p.acc(";")
			}
			for !p.acc("}") {
				if p.acc(";") {
					continue
				}
				p.memberK(n, obj)
			}
		}
		if c != nil {
			c.Inner[n.Name] = n
		}
		if c == nil || m.Classes[n.Name] == nil {
			m.Classes[n.Name] = n
		}
	case p.is("fun"):
		p.p++
		f := &Func{Name: p.ident(), Cls: c, Static: static, mod: m}
		f.Params = p.params()
		if p.acc(":") {
			f.Ret = p.parseType()
		}
		if p.acc("=") {
			f.expr = true
			f.body = p.expr()
		} else {
			p.lazyBody(f)
		}
		if c != nil {
			c.Funcs[f.Name] = append(c.Funcs[f.Name], f)
		} else {
			m.Funcs[f.Name] = append(m.Funcs[f.Name], f)
		}
	case p.is("constructor"):
		p.p++
		f := &Func{Name: c.Name, Cls: c, Ctor: true, mod: m}
		f.Params = p.params()
		if p.acc(":") {
			p.ident()
			p.skipBal()
		}
		p.lazyBody(f)
		c.Ctor = append(c.Ctor, f)
	case p.is("init") && p.isAt(1, "{"):
		p.fail("init block")
	case p.is("val") || p.is("var"):
		p.p++
		name := p.ident()
		fd := &Field{Name: name, Static: static}
		if p.acc(":") {
			fd.T = p.parseType()
		}
		hasInit := p.acc("=")
		if hasInit {
			fd.Init = p.expr()
		}
		prop := false
		for {
			save := p.p
			for p.tk().k == 'i' && kMods[p.tk().s] {
				p.p++
			}
			if (p.is("get") || p.is("set")) && p.isAt(1, "(") {
				f := &Func{Name: name, Cls: c, Static: static, mod: m}
				f.Get = p.is("get")
				f.Set = !f.Get
				p.p++
				f.Params = p.params()
				if f.Set && len(f.Params) == 1 {
					f.Params[0].T = fd.T
				}
				if f.Get {
					f.Ret = fd.T
				}
				if p.acc(":") {
					f.Ret = p.parseType()
				}
				if p.acc("=") {
					f.expr = true
					f.body = p.expr()
				} else {
					p.lazyBody(f)
				}
				if f.Get {
					c.Get[name] = f
				} else {
					c.Set[name] = f
				}
				prop = true
				continue
			}
			p.p = save
			break
		}
		if !prop || hasInit {
			if c != nil {
				c.Fields = append(c.Fields, fd)
			} else {
				m.Globals[name] = fd
			}
		}
	default:
		p.fail("Kotlin declaration")
	}
}
