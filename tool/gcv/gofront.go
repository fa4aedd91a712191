package gcv

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	goparser "go/parser"
	"go/token"
	"go/types"
	"math/big"

	"verif/sym"
)

type goFront struct {
	m    *Module
	fset *token.FileSet
	info *types.Info
	rts  map[types.Type]*RT
}

const mathStub = `package math
func Float32bits(f float32) uint32 { panic(0) }
func Float32frombits(b uint32) float32 { panic(0) }
func Float64bits(f float64) uint64 { panic(0) }
func Float64frombits(b uint64) float64 { panic(0) }
func Round(f float64) float64 { panic(0) }
func Floor(f float64) float64 { panic(0) }
func Ceil(f float64) float64 { panic(0) }
`

type goImporter struct{ deps map[string]*types.Package }

func (g *goImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p := g.deps[path]; p != nil {
		return p, nil
	}
	if path == "math" {
		fs := token.NewFileSet()
		f, err := goparser.ParseFile(fs, "math.go", mathStub, 0)
		if err != nil {
			return nil, err
		}
		return (&types.Config{}).Check("math", fs, []*ast.File{f}, nil)
	}
	return importer.ForCompiler(token.NewFileSet(), "source", nil).Import(path)
}

// CompileError is a type error in generated code.
type CompileError struct{ Msg string }

func (c CompileError) Error() string { return "does not compile: " + c.Msg }

func (m *Module) addGo(name, src string) (err error) {
	g := &goFront{m: m, fset: token.NewFileSet(), rts: map[types.Type]*RT{}}
	f, err := goparser.ParseFile(g.fset, name, src, 0)
	if err != nil {
		return CompileError{err.Error()}
	}
	g.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	deps := map[string]*types.Package{}
	for _, d := range m.Deps {
		if p, ok := d.pinfo.(*types.Package); ok {
			deps[d.Path] = p
		}
	}
	pkg, err := (&types.Config{Importer: &goImporter{deps}, Sizes: types.SizesFor("gc", "amd64")}).Check(f.Name.Name, g.fset, []*ast.File{f}, g.info)
	if err != nil {
		return CompileError{err.Error()}
	}
	m.pinfo = pkg
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(synErr); ok {
				err = fmt.Errorf("%s: %s", name, e.msg)
				return
			}
			panic(r)
		}
	}()
	// types first
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
			g.class(tn)
		}
	}
	for _, n := range sc.Names() {
		if c, ok := sc.Lookup(n).(*types.Const); ok {
			if nt, ok := c.Type().(*types.Named); ok {
				if cl := m.Classes[nt.Obj().Name()]; cl != nil && cl.Kind == "enum" {
					v, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
					cl.Items = append(cl.Items, EnumItem{Name: n, Args: []*Node{{K: "gonum", V: v, R: rtInt(i64)}}})
				}
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			fn := g.function(d.Type, d.Body)
			fn.Name = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				r := d.Recv.List[0]
				t := r.Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
					fn.RecvP = true
				}
				fn.Recv = "_"
				if len(r.Names) > 0 {
					fn.Recv = r.Names[0].Name
				}
				c := m.Classes[t.(*ast.Ident).Name]
				fn.Cls = c
				c.Funcs[fn.Name] = append(c.Funcs[fn.Name], fn)
			} else {
				m.Funcs[fn.Name] = []*Func{fn}
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						fd := &Field{Name: n.Name, RT: g.rt(g.info.Defs[n].Type())}
						if i < len(vs.Values) {
							fd.Init = g.expr(vs.Values[i])
						}
						m.Globals[n.Name] = fd
					}
				}
			}
		}
	}
	return nil
}

func (g *goFront) fail(n ast.Node, f string, a ...any) {
	panic(synErr{fmt.Sprintf("line %d: %s", g.fset.Position(n.Pos()).Line, fmt.Sprintf(f, a...))})
}

func (g *goFront) class(tn *types.TypeName) {
	n := tn.Name()
	switch u := tn.Type().Underlying().(type) {
	case *types.Struct:
		c := g.m.Classes[n]
		if c == nil {
			c = newClass(n, "struct", g.m)
			g.m.Classes[n] = c
		}
		if len(c.Fields) == 0 {
			for i := 0; i < u.NumFields(); i++ {
				c.Fields = append(c.Fields, &Field{Name: u.Field(i).Name(), RT: g.rt(u.Field(i).Type())})
			}
		}
	case *types.Basic:
		c := newClass(n, "enum", g.m)
		c.Base = &Ty{K: "n", N: u.Name()}
		if old := g.m.Classes[n]; old != nil {
			c = old
			c.Base = &Ty{K: "n", N: u.Name()}
		}
		g.m.Classes[n] = c
		if g.m.rtc == nil {
			g.m.rtc = map[*Ty]*RT{}
		}
		g.m.rtc[c.Base] = g.rt(u)
	}
}

func (g *goFront) rt(t types.Type) *RT {
	if r := g.rts[t]; r != nil {
		return r
	}
	r := g.rt1(t)
	g.rts[t] = r
	return r
}

func (g *goFront) rt1(t types.Type) *RT {
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if x.Obj().Pkg() == nil {
			return rtAny
		}
		m := g.m
		if x.Obj().Pkg() != nil && g.m.pinfo != x.Obj().Pkg() {
			for _, d := range g.m.Deps {
				if d.pinfo == x.Obj().Pkg() {
					m = d
				}
			}
		}
		switch x.Underlying().(type) {
		case *types.Struct:
			c := m.Classes[n]
			if c == nil {
				c = newClass(n, "struct", m)
				m.Classes[n] = c
			}
			return &RT{K: 'c', Cls: c}
		case *types.Basic:
			c := m.Classes[n]
			if c == nil {
				c = newClass(n, "enum", m)
				m.Classes[n] = c
			}
			return &RT{K: 'e', Cls: c}
		}
		return rtAny
	case *types.Alias:
		return g.rt(types.Unalias(x))
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.UntypedBool:
			return rtBool
		case types.Int8:
			return rtInt(i8)
		case types.Int16:
			return rtInt(i16)
		case types.Int32, types.UntypedRune:
			return rtInt(i32)
		case types.Int, types.Int64, types.UntypedInt:
			return rtInt(i64)
		case types.Uint8:
			return rtU8
		case types.Uint16:
			return rtInt(u16)
		case types.Uint32:
			return rtInt(u32)
		case types.Uint, types.Uint64, types.Uintptr:
			return rtInt(u64)
		case types.Float32:
			return &RT{K: 'f', W: 32}
		case types.Float64, types.UntypedFloat:
			return &RT{K: 'f', W: 64}
		case types.String, types.UntypedString:
			return rtStr
		case types.UnsafePointer:
			return &RT{K: 'p', E: rtVoid}
		}
		return rtAny
	case *types.Pointer:
		return &RT{K: 'p', E: g.rt(x.Elem())}
	case *types.Slice:
		if b, ok := x.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return &RT{K: 'y', E: rtU8, N: "slice"}
		}
		return &RT{K: 'a', Len: -1, E: g.rt(x.Elem())}
	case *types.Array:
		return &RT{K: 'a', Len: int(x.Len()), E: g.rt(x.Elem())}
	}
	return rtAny
}

func (g *goFront) function(t *ast.FuncType, body *ast.BlockStmt) *Func {
	fn := &Func{mod: g.m}
	for _, p := range t.Params.List {
		r := g.rt(g.info.Types[p.Type].Type)
		if len(p.Names) == 0 {
			fn.Params = append(fn.Params, Param{Name: "_", RT: r})
		}
		for _, n := range p.Names {
			fn.Params = append(fn.Params, Param{Name: n.Name, RT: r})
		}
	}
	if t.Results != nil {
		for _, p := range t.Results.List {
			r := g.rt(g.info.Types[p.Type].Type)
			if len(p.Names) == 0 {
				fn.Results = append(fn.Results, Param{RT: r})
			}
			for _, n := range p.Names {
				fn.Results = append(fn.Results, Param{Name: n.Name, RT: r})
			}
		}
	}
	if body != nil {
		fn.body = g.block(body)
	}
	return fn
}

func (g *goFront) line(n ast.Node) int { return g.fset.Position(n.Pos()).Line }

func (g *goFront) block(b *ast.BlockStmt) *Node {
	n := &Node{K: "block", L: g.line(b)}
	for _, s := range b.List {
		n.A = append(n.A, g.stmt(s))
	}
	return n
}

func (g *goFront) exprs(es []ast.Expr) []*Node {
	var out []*Node
	for _, e := range es {
		out = append(out, g.expr(e))
	}
	return out
}

func (g *goFront) stmt(s ast.Stmt) *Node {
	L := g.line(s)
	switch s := s.(type) {
	case *ast.BlockStmt:
		return g.block(s)
	case *ast.ExprStmt:
		return &Node{K: "expr", A: []*Node{g.expr(s.X)}, L: L}
	case *ast.EmptyStmt:
		return &Node{K: "empty"}
	case *ast.IncDecStmt:
		op := "+="
		if s.Tok == token.DEC {
			op = "-="
		}
		one := &Node{K: "gonum", V: big.NewInt(1), R: g.rt(g.info.Types[s.X].Type)}
		if one.R.K == 'e' {
			one.R = rtInt(u64)
		}
		return &Node{K: "goassign", S: op, A: []*Node{g.expr(s.X), one}, L: L}
	case *ast.AssignStmt:
		n := &Node{K: "goassign", S: s.Tok.String(), L: L}
		for _, l := range s.Lhs {
			x := g.expr(l)
			if id, ok := l.(*ast.Ident); ok {
				x = &Node{K: "id", S: id.Name, L: L}
				if o := g.info.Defs[id]; o != nil && s.Tok == token.DEFINE {
					x.R = g.rt(o.Type())
				}
			}
			n.A = append(n.A, x)
		}
		n.V = big.NewInt(int64(len(s.Lhs)))
		n.A = append(n.A, g.exprs(s.Rhs)...)
		return n
	case *ast.DeclStmt:
		d := s.Decl.(*ast.GenDecl)
		b := &Node{K: "vars", L: L}
		if d.Tok == token.CONST || d.Tok == token.TYPE {
			return &Node{K: "empty"}
		}
		for _, sp := range d.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				v := &Node{K: "var", S: id.Name, L: L, R: g.rt(g.info.Defs[id].Type())}
				if i < len(vs.Values) {
					v.A = []*Node{g.expr(vs.Values[i])}
				}
				b.A = append(b.A, v)
			}
		}
		return b
	case *ast.ReturnStmt:
		n := &Node{K: "return", L: L}
		switch len(s.Results) {
		case 0:
		case 1:
			n.A = []*Node{g.expr(s.Results[0])}
		default:
			n.A = []*Node{{K: "tuple", A: g.exprs(s.Results)}}
		}
		return n
	case *ast.IfStmt:
		n := &Node{K: "if", L: L, A: []*Node{g.expr(s.Cond), g.block(s.Body)}}
		if s.Else != nil {
			n.A = append(n.A, g.stmt(s.Else))
		}
		if s.Init != nil {
			return &Node{K: "block", L: L, A: []*Node{g.stmt(s.Init), n}}
		}
		return n
	case *ast.ForStmt:
		n := &Node{K: "for", L: L, A: make([]*Node, 4)}
		if s.Init != nil {
			n.A[0] = g.stmt(s.Init)
		}
		if s.Cond != nil {
			n.A[1] = g.expr(s.Cond)
		}
		if s.Post != nil {
			n.A[2] = g.stmt(s.Post)
		}
		n.A[3] = g.block(s.Body)
		return n
	case *ast.RangeStmt:
		n := &Node{K: "gorange", L: L, A: []*Node{g.expr(s.X), g.block(s.Body), nil, nil}}
		if s.Key != nil {
			n.A[2] = g.expr(s.Key)
		}
		if s.Value != nil {
			n.A[3] = g.expr(s.Value)
		}
		n.S = s.Tok.String()
		return n
	case *ast.BranchStmt:
		if s.Label != nil {
			g.fail(s, "label")
		}
		switch s.Tok {
		case token.BREAK:
			return &Node{K: "break", L: L}
		case token.CONTINUE:
			return &Node{K: "continue", L: L}
		}
	case *ast.SwitchStmt:
		sw := &Node{K: "switch", L: L}
		if s.Tag != nil {
			sw.A = []*Node{g.expr(s.Tag)}
		} else {
			sw.A = []*Node{{K: "id", S: "true"}}
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			b := &Node{K: "block", L: g.line(cc)}
			for _, x := range cc.Body {
				b.A = append(b.A, g.stmt(x))
			}
			if cc.List == nil {
				sw.A = append(sw.A, &Node{K: "arm", S: "default->", A: []*Node{nil, b}})
			}
			for _, e := range cc.List {
				sw.A = append(sw.A, &Node{K: "arm", S: "->", A: []*Node{g.expr(e), b}})
			}
		}
		if s.Init != nil {
			return &Node{K: "block", A: []*Node{g.stmt(s.Init), sw}}
		}
		return sw
	}
	g.fail(s, "statement %T", s)
	return nil
}

func (g *goFront) expr(e ast.Expr) *Node {
	L := g.line(e)
	tv := g.info.Types[e]
	if tv.Value != nil {
		r := g.rt(tv.Type)
		switch tv.Value.Kind() {
		case constant.Bool:
			s := "false"
			if constant.BoolVal(tv.Value) {
				s = "true"
			}
			return &Node{K: "id", S: s, L: L}
		case constant.String:
			return &Node{K: "str", S: constant.StringVal(tv.Value), L: L}
		case constant.Int, constant.Float:
			if r.K == 'f' {
				f, _ := constant.Float64Val(tv.Value)
				return &Node{K: "flt", S: fmt.Sprint(f), R: r, L: L}
			}
			v, ok := new(big.Int).SetString(constant.ToInt(tv.Value).ExactString(), 10)
			if !ok {
				g.fail(e, "constant")
			}
			return &Node{K: "gonum", V: v, R: r, L: L}
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &Node{K: "paren", A: []*Node{g.expr(e.X)}, L: L}
	case *ast.Ident:
		return &Node{K: "id", S: e.Name, L: L}
	case *ast.BinaryExpr:
		return &Node{K: "bin", S: e.Op.String(), A: []*Node{g.expr(e.X), g.expr(e.Y)}, L: L}
	case *ast.UnaryExpr:
		op := e.Op.String()
		return &Node{K: "un", S: op, A: []*Node{g.expr(e.X)}, L: L}
	case *ast.StarExpr:
		return &Node{K: "un", S: "*", A: []*Node{g.expr(e.X)}, L: L}
	case *ast.SelectorExpr:
		return &Node{K: "mem", S: e.Sel.Name, A: []*Node{g.expr(e.X)}, L: L}
	case *ast.IndexExpr:
		return &Node{K: "idx", A: []*Node{g.expr(e.X), g.expr(e.Index)}, L: L}
	case *ast.SliceExpr:
		s := &Node{K: "slice", A: []*Node{nil, nil}, L: L}
		if e.Low != nil {
			s.A[0] = g.expr(e.Low)
		}
		if e.High != nil {
			s.A[1] = g.expr(e.High)
		}
		return &Node{K: "idx", A: []*Node{g.expr(e.X), s}, L: L}
	case *ast.CallExpr:
		if g.info.Types[e.Fun].IsType() {
			return &Node{K: "gocast", R: g.rt(tv.Type), A: []*Node{g.expr(e.Args[0])}, L: L}
		}
		n := &Node{K: "call", L: L}
		fun := e.Fun
		for {
			if p, ok := fun.(*ast.ParenExpr); ok {
				fun = p.X
				continue
			}
			break
		}
		n.A = append(n.A, g.expr(fun))
		for _, a := range e.Args {
			if g.info.Types[a].IsType() {
				n.A = append(n.A, &Node{K: "gotype", R: g.rt(g.info.Types[a].Type), L: L})
				continue
			}
			n.A = append(n.A, g.expr(a))
		}
		if e.Ellipsis != token.NoPos {
			n.S = "..."
		}
		return n
	case *ast.CompositeLit:
		n := &Node{K: "golit", R: g.rt(tv.Type), L: L}
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := ""
				if id, ok := kv.Key.(*ast.Ident); ok {
					k = id.Name
				}
				n.A = append(n.A, &Node{K: "kv", S: k, A: []*Node{g.expr(kv.Value)}})
				continue
			}
			n.A = append(n.A, g.expr(x))
		}
		return n
	case *ast.FuncLit:
		f := g.function(e.Type, e.Body)
		return &Node{K: "func", F: f, L: L}
	case *ast.TypeAssertExpr:
	}
	g.fail(e, "expression %T", e)
	return nil
}

// ------------------------------------------------------------- execution

func (in *Interp) goAssign(n *Node, e *Env) Val {
	k := goLHS(n)
	lhs, rhs := n.A[:k], n.A[k:]
	if n.S == "=" || n.S == ":=" {
		var vs []Val
		if len(rhs) == 1 && len(lhs) > 1 {
			t, ok := in.eval(rhs[0], e).(Tuple)
			if !ok || len(t) != len(lhs) {
				in.unsup("multi-value assignment")
			}
			vs = t
		} else {
			var lvs []lval
			for i, l := range lhs {
				if l.K != "id" {
					lvs = append(lvs, in.lval(l, e))
				} else {
					lvs = append(lvs, nil)
				}
				_ = i
			}
			for _, r := range rhs {
				vs = append(vs, in.eval(r, e))
			}
			if n.S == "=" {
				for i := range lvs {
					if lvs[i] != nil {
						lvs[i].set(in, vs[i])
						vs[i] = nil
					}
				}
			}
		}
		for i, l := range lhs {
			if vs[i] == nil {
				continue
			}
			if l.K == "id" && l.S == "_" {
				continue
			}
			if n.S == ":=" && l.R != nil {
				e.vars[l.S] = &Cell{V: in.convert(vs[i], l.R, false), T: l.R}
				continue
			}
			in.lval(l, e).set(in, vs[i])
		}
		return nil
	}
	op := n.S[:len(n.S)-1]
	l := in.lval(lhs[0], e)
	old := l.get(in)
	r := in.eval(rhs[0], e)
	v := in.arith(op, old, r)
	l.set(in, in.narrow(v, l.typ(), old))
	return nil
}

func (in *Interp) goCast(v Val, t *RT) Val {
	switch t.K {
	case 's':
		switch x := v.(type) {
		case Bytes:
			return in.utf8(x.slice())
		case *Str:
			return x
		}
	case 'y':
		if s, ok := v.(*Str); ok {
			return in.newBytes(copyNums(s.B), "slice", false)
		}
	case 'p':
		if p, ok := v.(Ptr); ok {
			p.T = t.E
			return p
		}
	case 'f':
		if f, ok := v.(Flt); ok && f.W == t.W {
			return f
		}
	}
	return in.convert(v, t, true)
}

func (in *Interp) goLit(n *Node, e *Env) Val {
	switch n.R.K {
	case 'c':
		o := in.newObj(n.R.Cls, false)
		for i, a := range n.A {
			if a.K == "kv" {
				in.store(o.F[a.S], in.eval(a.A[0], e))
				continue
			}
			in.store(o.F[n.R.Cls.Fields[i].Name], in.eval(a, e))
		}
		return o
	case 'a':
		var vs []Val
		for _, a := range n.A {
			vs = append(vs, in.eval(a, e))
		}
		if n.R.Len >= 0 {
			a := in.zero(n.R, false).(*Arr)
			for i, v := range vs {
				in.store(a.E[i], v)
			}
			return a
		}
		return in.arrOf(n.R.E, vs)
	case 'y':
		var bs []sym.Num
		for _, a := range n.A {
			x, _ := in.toInt(in.eval(a, e))
			bs = append(bs, in.C.Wrap(x.N, 8, false))
		}
		return in.newBytes(bs, "slice", false)
	}
	in.unsup("composite literal of %s", n.R)
	return nil
}

func (in *Interp) goBuiltin(name string, an []*Node, n *Node, e *Env) Val {
	switch name {
	case "len", "cap":
		switch x := in.eval(an[0], e).(type) {
		case Bytes:
			if name == "cap" {
				return in.intc(int64(x.Cap), i64)
			}
			return in.blen(x, i64)
		case *Str:
			return in.intc(int64(len(x.B)), i64)
		case *Arr:
			return in.intc(int64(len(x.E)), i64)
		}
	case "make":
		t := an[0].R
		iv := in.eval(an[1], e)
		k := in.length(iv, 1<<17)
		if t.K == 'y' {
			return in.newBytes(zeros(k), "slice", false)
		}
		return in.mkArr(t.E, k)
	case "new":
		t := an[0].R
		return Ptr{C: &Cell{V: in.zero(t, false), T: t}, T: t}
	case "panic":
		in.throw("panic", "panic")
	case "copy":
		d := in.eval(an[0], e)
		s := in.eval(an[1], e)
		var src []sym.Num
		switch x := s.(type) {
		case *Str:
			src = x.B
		case Bytes:
			src = x.slice()
		case *Arr:
			for _, c := range x.E {
				v, ok := in.toInt(in.load(c))
				if !ok {
					in.unsup("copy source")
				}
				src = append(src, in.C.Wrap(v.N, 8, false))
			}
		default:
			in.unsup("copy source")
		}
		switch x := d.(type) {
		case Bytes:
			if len(src) > x.Len {
				src = src[:x.Len]
			}
			in.blit(x, 0, src)
			return in.intc(int64(len(src)), i64)
		case *Arr:
			k := 0
			for ; k < len(src) && k < len(x.E); k++ {
				in.store(x.E[k], in.unbits(src[k], x.T))
			}
			return in.intc(int64(k), i64)
		}
		in.unsup("copy target")
	case "append":
		b, ok := in.eval(an[0], e).(Bytes)
		if !ok {
			in.unsup("append")
		}
		nb := copyNums(b.slice())
		for _, a := range an[1:] {
			switch x := in.eval(a, e).(type) {
			case Int:
				nb = append(nb, in.C.Wrap(x.N, 8, false))
			case Bytes:
				nb = append(nb, x.slice()...)
			case *Str:
				nb = append(nb, x.B...)
			}
		}
		return in.newBytes(nb, "slice", false)
	case "min", "max":
		return in.minmax(name == "min", in.args(an, e))
	}
	in.unsup("Go function %s", name)
	return nil
}

func (in *Interp) goMethod(recv Val, name string, a []Val) (Val, bool) {
	if x, ok := recv.(NS); ok && x.N == "math" {
		switch name {
		case "Float32bits":
			return in.mk(a[0].(Flt).B, u32), true
		case "Float64bits":
			return in.mk(a[0].(Flt).B, u64), true
		case "Float32frombits":
			return Flt{32, in.C.Wrap(a[0].(Int).N, 32, false)}, true
		case "Float64frombits":
			return Flt{64, in.C.Wrap(a[0].(Int).N, 64, false)}, true
		}
	}
	return nil, false
}

func goLHS(n *Node) int {
	if n.V != nil {
		return int(n.V.Int64())
	}
	return 1
}

func (in *Interp) goRange(n *Node, e *Env) (int, Val) {
	v := in.eval(n.A[0], e)
	var seq func(int) (Val, bool)
	switch x := v.(type) {
	case Int:
		k := in.ConcInt(x)
		seq = func(i int) (Val, bool) { return nil, i < k }
	case Ptr:
		seq = in.iterate(in.deref(x))
	default:
		seq = in.iterate(v)
	}
	for i := 0; ; i++ {
		x, ok := seq(i)
		if !ok {
			return cNone, nil
		}
		in.tick(n)
		ne := e.child()
		bind := func(l *Node, v Val) {
			if l == nil || l.K == "id" && l.S == "_" {
				return
			}
			if n.S == ":=" {
				ne.vars[l.S] = &Cell{V: v, T: in.typeOf(v)}
			} else {
				in.lval(l, e).set(in, v)
			}
		}
		kt := i64
		if iv, ok := v.(Int); ok {
			kt = iv.T
		}
		bind(n.A[2], in.intc(int64(i), kt))
		bind(n.A[3], x)
		c, r := in.exec(n.A[1], ne)
		if c == cBreak {
			return cNone, nil
		}
		if c == cReturn {
			return c, r
		}
	}
}
