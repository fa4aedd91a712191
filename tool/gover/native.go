package gover

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"

	"verif/smt"

	"golang.org/x/tools/go/ssa"
)

// Node is a node of a schema's parse tree, made by the repository's own parser.
type Node struct {
	Type  string           `json:"t"` // context type name, or token name
	Tok   bool             `json:"k,omitempty"`
	TT    int              `json:"n,omitempty"`
	Text  string           `json:"x,omitempty"`
	Line  int              `json:"l"`
	Col   int              `json:"c"`
	Kids  []*Node          `json:"d,omitempty"`
	Label map[string]*Node `json:"b,omitempty"`
	Start *Node            `json:"-"`
}

func (n *Node) text() string {
	if n.Tok {
		return n.Text
	}
	var b strings.Builder
	for _, k := range n.Kids {
		b.WriteString(k.text())
	}
	return b.String()
}

func (m *Machine) nodeIface(n *Node) V {
	if n == nil {
		return Iface{}
	}
	if n.Tok {
		return Iface{types.Typ[types.Int], n}
	}
	m.P.mu.Lock()
	defer m.P.mu.Unlock()
	t, ok := m.P.nodeT[n.Type]
	if !ok {
		pk := m.P.Pkgs["parser"]
		o := pk.Pkg.Scope().Lookup(n.Type)
		if o == nil {
			panic(unsupported("parser type %s", n.Type))
		}
		t = types.NewPointer(o.Type())
		m.P.nodeT[n.Type] = t
	}
	return Iface{t, n}
}

// nodeCall answers a method of a parse tree node.
func (m *Machine) nodeCall(n *Node, name string, args []V) V {
	if n == nil {
		panic(goPanic{why: name + " of a nil parse tree node"})
	}
	switch name {
	case "GetText":
		return n.text()
	case "GetStart":
		return Iface{types.Typ[types.Int], &Node{Tok: true, Line: n.Line, Col: n.Col, Type: "start"}}
	case "GetSymbol":
		return Iface{types.Typ[types.Int], n}
	case "GetLine":
		return int64(n.Line)
	case "GetColumn":
		return int64(n.Col)
	case "GetTokenType":
		return int64(n.TT)
	case "Accept":
		v := args[0].(Iface)
		fn := m.P.SSA.LookupMethod(v.T, m.P.Pkgs["parser"].Pkg, "Visit"+strings.TrimSuffix(n.Type, "Context"))
		if fn == nil {
			panic(unsupported("visitor %s has no method for %s", v.T, n.Type))
		}
		return m.callFn(fn, []V{v.V, n}, nil)
	}
	if l, ok := n.Label[name]; ok {
		return m.nodeIface(l)
	}
	if strings.HasPrefix(name, "Get") {
		panic(unsupported("parse tree method %s", name))
	}
	match := func(k *Node, want string) bool {
		if k.Tok {
			return k.Type == want
		}
		return k.Type == want+"Context"
	}
	all := strings.HasPrefix(name, "All")
	want := strings.TrimPrefix(name, "All")
	var hits []V
	for _, k := range n.Kids {
		if match(k, want) || !k.Tok && strings.HasPrefix(k.Type, want) && m.isAlt(k.Type, want) {
			hits = append(hits, m.nodeIface(k))
		}
	}
	if all {
		return Slice{append([]V{}, hits...)}
	}
	i := int64(0)
	if len(args) > 0 {
		i = args[0].(int64)
	}
	if i >= int64(len(hits)) {
		return Iface{}
	}
	return hits[i]
}

// isAlt tells whether a context type is a labelled alternative of a rule.
func (m *Machine) isAlt(typ, rule string) bool {
	o := m.P.Pkgs["parser"].Pkg.Scope().Lookup(typ)
	if o == nil {
		return false
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	return ok && s.NumFields() > 0 && s.Field(0).Embedded() && s.Field(0).Name() == rule+"Context"
}

func (m *Machine) tupErr(v V, err error) V {
	if err == nil {
		return Tuple{v, Iface{}}
	}
	return Tuple{v, m.mkErr(err.Error())}
}

func (m *Machine) mkErr(s string) V { return Iface{m.P.errT, &Opaque{What: s}} }

// native answers calls of functions that are not executed from source. The
// second result tells whether fn is one.
func (m *Machine) native(fn *ssa.Function, args []V) (V, bool) {
	if len(args) > 0 {
		if n, ok := args[0].(*Node); ok && fn.Signature.Recv() != nil && n != nil {
			pk := fn.Pkg
			if pk == nil || strings.HasSuffix(pk.Pkg.Path(), "/parser") || strings.HasPrefix(pk.Pkg.Path(), "github.com/antlr4-go/") {
				return m.nodeCall(n, fn.Name(), args[1:]), true
			}
		}
	}
	var path string
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	} else {
		return nil, false
	}
	rel := trimMod(path, m.P.Mod)
	if rel == "verifspec" {
		return m.spec(fn, args), true
	}
	if rel != path || path == m.P.Mod {
		switch {
		case rel == "compiler" && fn.Name() == "getProtoAST":
			return m.parseTree(args), true
		}
		return nil, false
	}
	if fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Synthetic != "" {
		return nil, false // wrapper: run it
	}
	return m.external(fn, path, args), true
}

func (m *Machine) parseTree(args []V) V {
	text, ok := args[0].(string)
	if !ok {
		panic(unsupported("schema text that is not known"))
	}
	if m.P.Parse == nil {
		panic(unsupported("no parser"))
	}
	n, msg, err := m.P.Parse(text)
	if err != nil {
		panic(unsupported("parser: %v", err))
	}
	if msg != "" {
		return Tuple{Iface{}, m.mkErr("syntax " + msg)}
	}
	return Tuple{m.nodeIface(n), Iface{}}
}

func (m *Machine) external(fn *ssa.Function, path string, args []V) V {
	name := path + "." + fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			t, star = p.Elem(), "*"
		}
		if n, ok := t.(*types.Named); ok {
			name = "(" + star + path + "." + n.Obj().Name() + ")." + fn.Name()
		}
	}
	if !strings.HasSuffix(name, ".init") {
		m.Out.Trusted[name] = true
	}
	str := func(i int) (string, bool) { s, ok := args[i].(string); return s, ok }
	one := func(f func(string) V) V {
		if s, ok := str(0); ok {
			return f(s)
		}
		return nil
	}
	two := func(f func(a, b string) V) V {
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			return f(a, b)
		}
		return nil
	}
	term := func(i int) *smt.Term { return m.term(args[i], types.Typ[types.String]) }
	c := m.C
	var r V
	switch name {
	case "fmt.Sprintf":
		return m.sprintf(args[0], args[1].(Slice).s)
	case "fmt.Errorf":
		s := m.sprintf(args[0], args[1].(Slice).s)
		t, ok := s.(string)
		if !ok {
			t = "error text"
		}
		return m.mkErr(t)
	case "fmt.Sprint":
		var out []V
		for _, a := range args[0].(Slice).s {
			out = append(out, m.fmtVal(a.(Iface), 'v'))
		}
		return m.joinStr(out)
	case "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprintln", "fmt.Fprintf":
		if name == "fmt.Fprintf" {
			if w, ok := args[0].(Iface); ok {
				if p, ok := w.V.(*V); ok && strings.Contains(fmt.Sprint(w.T), "strings.Builder") {
					m.buildAdd(p, m.sprintf(args[1], args[2].(Slice).s))
				}
			}
		}
		return Tuple{int64(0), Iface{}}
	case "errors.New":
		s, _ := str(0)
		return m.mkErr(s)
	case "errors.As", "errors.Is":
		return false
	case "strings.HasPrefix":
		r = two(func(a, b string) V { return strings.HasPrefix(a, b) })
		if r == nil {
			r = m.val(c.App("str.prefixof", smt.Bool, term(1), term(0)))
		}
	case "strings.HasSuffix":
		r = two(func(a, b string) V { return strings.HasSuffix(a, b) })
		if r == nil {
			r = m.val(c.App("str.suffixof", smt.Bool, term(1), term(0)))
		}
	case "strings.Contains":
		r = two(func(a, b string) V { return strings.Contains(a, b) })
		if r == nil {
			r = m.val(c.App("str.contains", smt.Bool, term(0), term(1)))
		}
	case "strings.TrimPrefix":
		r = two(func(a, b string) V { return strings.TrimPrefix(a, b) })
		if r == nil {
			s, p := term(0), term(1)
			if m.Branch(c.App("str.prefixof", smt.Bool, p, s)) {
				n := m.lenTerm(p)
				return m.val(c.App("str.substr", smt.String, s, n, c.Sub(m.lenTerm(s), n)))
			}
			return args[0]
		}
	case "strings.TrimSuffix":
		r = two(func(a, b string) V { return strings.TrimSuffix(a, b) })
		if r == nil {
			s, p := term(0), term(1)
			if m.Branch(c.App("str.suffixof", smt.Bool, p, s)) {
				return m.val(c.App("str.substr", smt.String, s, c.Int(0), c.Sub(m.lenTerm(s), m.lenTerm(p))))
			}
			return args[0]
		}
	case "strings.TrimRight":
		r = two(func(a, b string) V { return strings.TrimRight(a, b) })
		if r == nil {
			if cut, ok := str(1); ok {
				return m.trim("trimr", cut, term(0))
			}
		}
	case "strings.TrimLeft":
		r = two(func(a, b string) V { return strings.TrimLeft(a, b) })
		if r == nil {
			if cut, ok := str(1); ok {
				return m.trim("triml", cut, term(0))
			}
		}
	case "strings.Trim":
		r = two(func(a, b string) V { return strings.Trim(a, b) })
		if r == nil {
			if cut, ok := str(1); ok {
				return m.trim("triml", cut, m.trim("trimr", cut, term(0)).(*smt.Term))
			}
		}
	case "strings.TrimSpace":
		r = one(func(a string) V { return strings.TrimSpace(a) })
		if r == nil {
			return m.trim("triml", " \t\r\n\v\f", m.trim("trimr", " \t\r\n\v\f", term(0)).(*smt.Term))
		}
	case "strings.ToLower":
		r = one(func(a string) V { return strings.ToLower(a) })
	case "strings.ToUpper":
		r = one(func(a string) V { return strings.ToUpper(a) })
	case "strings.Repeat":
		if s, ok := str(0); ok {
			if n, ok := args[1].(int64); ok {
				if n < 0 {
					panic(goPanic{why: "strings: negative Repeat count"})
				}
				r = strings.Repeat(s, int(n))
			} else if n, ok := args[1].(*smt.Term); ok && s != "" && n.Sort == smt.Int {
				if m.Branch(c.Lt(n, c.Int(0))) {
					panic(goPanic{why: "strings: negative Repeat count"})
				}
				f := fmt.Sprintf("rep.%x", s)
				c.Fun(f, fmt.Sprintf("(declare-fun %s (Int) String)", f))
				if m.reps == nil {
					m.reps = map[string]string{}
				}
				m.reps[f] = s
				t := c.App(f, smt.String, n)
				m.assume(c.Eq(m.lenTerm(t), c.Mul(c.Int(int64(len(s))), n)))
				r = t
			}
		}
	case "strings.ReplaceAll", "strings.Replace":
		a, ok := str(0)
		b, ok1 := str(1)
		d, ok2 := str(2)
		if ok && ok1 && ok2 {
			n := -1
			if name == "strings.Replace" {
				n = int(args[3].(int64))
			}
			r = strings.Replace(a, b, d, n)
		} else if name == "strings.ReplaceAll" {
			r = c.App("str.replace_all", smt.String, term(0), term(1), term(2))
		}
	case "strings.Split":
		r = two(func(a, b string) V { return strSlice(strings.Split(a, b)) })
		if r == nil {
			if sep, ok := str(1); ok && sep != "" {
				x := m.fresh("split", types.NewSlice(types.Typ[types.String])).(*SymSlice)
				m.assume(c.Le(c.Int(1), x.len))
				if m.splits == nil {
					m.splits = map[*smt.Term]split{}
				}
				m.splits[x.b.arrs[0]] = split{term(0), sep, x.len}
				return x
			}
		}
	case "strings.Join":
		if x, ok := args[0].(*SymSlice); ok {
			if sep, ok := str(1); ok {
				f := fmt.Sprintf("join.%x", sep)
				c.Fun(f, fmt.Sprintf("(declare-fun %s ((Array Int String) Int Int) String)", f))
				t := c.App(f, smt.String, x.b.arrs[0], x.off, x.len)
				if m.joins == nil {
					m.joins = map[string]string{}
				}
				m.joins[f] = sep
				return t
			}
		}
		if s, ok := args[0].(Slice); ok {
			var out []V
			for i, e := range s.s {
				if i > 0 {
					out = append(out, args[1])
				}
				out = append(out, e)
			}
			return m.joinStr(out)
		}
	case "strings.Count":
		r = two(func(a, b string) V { return int64(strings.Count(a, b)) })
	case "strings.Index":
		r = two(func(a, b string) V { return int64(strings.Index(a, b)) })
	case "strings.LastIndex":
		r = two(func(a, b string) V { return int64(strings.LastIndex(a, b)) })
	case "strings.EqualFold":
		r = two(func(a, b string) V { return strings.EqualFold(a, b) })
	case "strings.Fields":
		r = one(func(a string) V { return strSlice(strings.Fields(a)) })
	case "strings.ContainsRune":
		if s, ok := str(0); ok {
			if k, ok := args[1].(int64); ok {
				r = strings.ContainsRune(s, rune(k))
			}
		}
	case "(*strings.Builder).WriteString":
		m.buildAdd(args[0].(*V), args[1])
		return Tuple{m.strLen(args[1]), Iface{}}
	case "(*strings.Builder).WriteByte":
		m.buildAdd(args[0].(*V), m.convert(args[1], types.Typ[types.Int32], types.Typ[types.String]))
		return Iface{}
	case "(*strings.Builder).WriteRune":
		m.buildAdd(args[0].(*V), m.convert(args[1], types.Typ[types.Int32], types.Typ[types.String]))
		return Tuple{int64(1), Iface{}}
	case "(*strings.Builder).String":
		return m.builderVal(args[0].(*V))
	case "(*strings.Builder).Len":
		return m.strLen(m.builderVal(args[0].(*V)))
	case "(*strings.Builder).Grow", "(*strings.Builder).Reset":
		if fn.Name() == "Reset" {
			s := (*args[0].(*V)).(Struct)
			m.store(&s[1], "", nil)
		}
		return nil
	case "strconv.ParseInt":
		if s, ok := str(0); ok {
			if t, ok := m.holes[s]; ok {
				return Tuple{m.val(t), Iface{}}
			}
			v, err := strconv.ParseInt(s, int(args[1].(int64)), int(args[2].(int64)))
			return m.tupErr(v, err)
		}
	case "strconv.ParseUint":
		if s, ok := str(0); ok {
			if t, ok := m.holes[s]; ok {
				return Tuple{m.val(t), Iface{}}
			}
			v, err := strconv.ParseUint(s, int(args[1].(int64)), int(args[2].(int64)))
			return m.tupErr(int64(v), err)
		}
	case "strconv.ParseFloat":
		if s, ok := str(0); ok {
			v, err := strconv.ParseFloat(s, int(args[1].(int64)))
			return m.tupErr(v, err)
		}
	case "strconv.ParseBool":
		if s, ok := str(0); ok {
			v, err := strconv.ParseBool(s)
			return m.tupErr(v, err)
		}
	case "strconv.Atoi":
		if s, ok := str(0); ok {
			v, err := strconv.Atoi(s)
			return m.tupErr(int64(v), err)
		}
	case "strconv.UnquoteChar":
		if s, ok := str(0); ok {
			if q, ok := args[1].(int64); ok {
				v, multi, tail, err := strconv.UnquoteChar(s, byte(q))
				e := m.tupErr(int64(0), err).(Tuple)[1]
				return Tuple{int64(v), multi, tail, e}
			}
		}
	case "unicode/utf8.AppendRune":
		if r, ok := args[1].(int64); ok {
			return m.appendTo(args[0], string(rune(r)), types.Typ[types.Byte], types.Typ[types.String])
		}
	case "math.Inf":
		if v, ok := args[0].(int64); ok {
			return math.Inf(int(v))
		}
	case "strconv.Unquote":
		if s, ok := str(0); ok {
			v, err := strconv.Unquote(s)
			return m.tupErr(v, err)
		}
	case "strconv.Quote":
		r = one(func(a string) V { return strconv.Quote(a) })
	case "strconv.Itoa":
		return m.itoa(args[0], types.Typ[types.Int])
	case "strconv.FormatInt":
		if b, ok := args[1].(int64); ok {
			if v, ok := args[0].(int64); ok {
				r = strconv.FormatInt(v, int(b))
			} else if b == 10 {
				return m.itoa(args[0], types.Typ[types.Int64])
			}
		}
	case "strconv.FormatBool":
		if b, ok := args[0].(bool); ok {
			r = strconv.FormatBool(b)
		}
	case "strconv.FormatFloat":
		if f, ok := args[0].(float64); ok {
			r = strconv.FormatFloat(f, byte(args[1].(int64)), int(args[2].(int64)), int(args[3].(int64)))
		}
	case "path/filepath.Join":
		var ss []string
		for _, a := range args[0].(Slice).s {
			s, ok := a.(string)
			if !ok {
				var ts []*smt.Term
				for i := range args[0].(Slice).s {
					ts = append(ts, m.term(args[0].(Slice).s[i], types.Typ[types.String]))
				}
				return m.opaque(name, ts...)
			}
			ss = append(ss, s)
		}
		return filepath.Join(ss...)
	case "path/filepath.ToSlash", "path/filepath.FromSlash": // the same text where / separates names
		return args[0]
	case "path/filepath.Dir":
		r = one(func(a string) V { return filepath.Dir(a) })
		if r == nil {
			r = m.opaque(name, term(0))
		}
	case "path/filepath.Base":
		r = one(func(a string) V { return filepath.Base(a) })
		if r == nil {
			r = m.opaque(name, term(0))
		}
	case "path/filepath.Ext":
		r = one(func(a string) V { return filepath.Ext(a) })
		if r == nil {
			r = m.opaque(name, term(0))
		}
	case "path/filepath.Clean":
		r = one(func(a string) V { return filepath.Clean(a) })
		if r == nil {
			r = m.opaque(name, term(0))
		}
	case "path/filepath.IsAbs":
		r = one(func(a string) V { return filepath.IsAbs(a) })
		if r == nil {
			r = m.opaqueIs(name, term(0))
		}
	case "path/filepath.IsLocal":
		r = one(func(a string) V { return filepath.IsLocal(a) })
		if r == nil {
			r = m.opaqueIs(name, term(0))
		}
	case "path/filepath.Abs":
		r = one(func(a string) V {
			if !filepath.IsAbs(a) {
				a = filepath.Join("/cwd", a)
			}
			return Tuple{filepath.Clean(a), Iface{}}
		})
	case "os.Stat":
		r = one(func(a string) V {
			a = filepath.Clean(a)
			for n := range m.files {
				if n == a || strings.HasPrefix(n, a+"/") {
					return Tuple{Iface{}, Iface{}}
				}
			}
			return Tuple{Iface{}, m.mkErr("no such file or directory")}
		})
	case "os.ReadFile":
		r = one(func(a string) V {
			t, ok := m.files[filepath.Clean(a)]
			if !ok {
				return Tuple{Slice{}, m.mkErr("no such file or directory")}
			}
			return Tuple{m.convert(t, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte])), Iface{}}
		})
	case "math.Float64bits":
		if f, ok := args[0].(float64); ok {
			r = int64(math.Float64bits(f))
		}
	case "math.Float32bits":
		if f, ok := args[0].(float64); ok {
			r = int64(math.Float32bits(float32(f)))
		}
	case "math.IsNaN":
		if f, ok := args[0].(float64); ok {
			r = math.IsNaN(f)
		}
	case "math.IsInf":
		if f, ok := args[0].(float64); ok {
			r = math.IsInf(f, int(args[1].(int64)))
		}
	case "math.Trunc":
		if f, ok := args[0].(float64); ok {
			r = math.Trunc(f)
		}
	case "math/bits.Len64":
		if i, ok := args[0].(int64); ok {
			n := 0
			for u := uint64(i); u != 0; u >>= 1 {
				n++
			}
			r = int64(n)
		}
	case "init":
		return nil
	}
	if r != nil {
		return r
	}
	if fn.Name() == "init" {
		return nil
	}
	if strings.HasSuffix(path, "antlr/v4") {
		if strings.HasPrefix(fn.Name(), "Visit") {
			return Iface{}
		}
	}
	panic(unsupported("call of %s with these arguments", name))
}

func strSlice(ss []string) V {
	out := make([]V, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return Slice{out}
}

// buildAdd appends to a strings.Builder, kept as text in its buffer field.
func (m *Machine) buildAdd(p *V, s V) {
	st := (*p).(Struct)
	t := types.Typ[types.String]
	m.store(&st[1], m.binop(token.ADD, m.builderVal(p), s, t, t, t, token.NoPos), nil)
}

func (m *Machine) builderVal(p *V) V {
	st := (*p).(Struct)
	switch x := st[1].(type) {
	case Slice:
		return ""
	default:
		return x
	}
}

func (m *Machine) joinStr(vs []V) V {
	t := types.Typ[types.String]
	var r V = ""
	var ts []*smt.Term
	all := true
	for _, v := range vs {
		if _, ok := v.(string); !ok {
			all = false
		}
		ts = append(ts, parts(m.term(v, t))...)
	}
	if all {
		var b strings.Builder
		for _, v := range vs {
			b.WriteString(v.(string))
		}
		return b.String()
	}
	_ = r
	return m.val(m.C.Concat(ts...))
}

// itoa is the decimal text of an integer.
func (m *Machine) itoa(v V, t types.Type) V {
	switch x := v.(type) {
	case int64:
		if _, s, _ := intInfo(t); !s {
			return strconv.FormatUint(uint64(x), 10)
		}
		return strconv.FormatInt(x, 10)
	case *smt.Term:
		if m.BV {
			panic(unsupported("text of a bit vector"))
		}
		c := m.C
		if m.pure == 0 {
			if m.Branch(c.Le(c.Int(0), x)) {
				return c.App("str.from_int", smt.String, x)
			}
			return c.Concat(c.Str("-"), c.App("str.from_int", smt.String, c.Neg(x)))
		}
		return c.Ite(c.Le(c.Int(0), x), c.App("str.from_int", smt.String, x), c.Concat(c.Str("-"), c.App("str.from_int", smt.String, c.Neg(x))))
	}
	panic(unsupported("text of %T", v))
}

// radix is the text of an integer in base 2 or 16: a sign and the digits, which
// are an unknown function of the magnitude.
func (m *Machine) radix(x *smt.Term, verb string) V {
	c := m.C
	if m.Branch(c.Le(c.Int(0), x)) {
		return c.App(m.digits(verb), smt.String, x)
	}
	return c.Concat(c.Str("-"), c.App(m.digits(verb), smt.String, c.Neg(x)))
}

func (m *Machine) digits(verb string) string {
	f := "digits." + map[string]string{"x": "lower", "X": "upper", "b": "binary"}[verb]
	m.C.Fun(f, fmt.Sprintf("(declare-fun %s (Int) String)", f))
	return f
}

// goVal turns a value into a Go value fmt can print, where it can.
func (m *Machine) goVal(v V, t types.Type, verb byte) (any, bool) {
	switch x := v.(type) {
	case int64:
		bits, s, ok := intInfo(t)
		if !ok {
			return nil, false
		}
		switch {
		case s && bits == 32:
			return int32(x), true
		case s:
			return x, true
		case bits == 8:
			return uint8(x), true
		default:
			return uint64(x), true
		}
	case string, bool, float64:
		return x, true
	case Slice:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			bs := make([]byte, len(x.s))
			for i := range x.s {
				k, ok := x.s[i].(int64)
				if !ok {
					return nil, false
				}
				bs[i] = byte(k)
			}
			return bs, true
		}
		out := make([]any, len(x.s))
		for i := range x.s {
			iv, ok := x.s[i].(Iface)
			if !ok {
				iv = Iface{st.Elem(), x.s[i]}
			}
			g := m.fmtArg(iv, verb)
			if g == nil {
				return nil, false
			}
			if _, bad := g.(*smt.Term); bad {
				return nil, false
			}
			out[i] = g
		}
		return out, true
	}
	return nil, false
}

// fmtArg is an argument of a formatting verb: a Go value, or a term.
func (m *Machine) fmtArg(a Iface, verb byte) any {
	if a.T == nil {
		return nil
	}
	if o, ok := a.V.(*Opaque); ok {
		return o.What
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, meth := range []string{"Error", "String"} {
			ms := m.P.SSA.MethodSets.MethodSet(a.T)
			sel := ms.Lookup(nil, meth)
			if sel == nil {
				continue
			}
			if p, ok := a.V.(*V); ok && p == nil {
				return "<nil>"
			}
			fn := m.P.SSA.MethodValue(sel)
			if fn == nil {
				continue
			}
			r := m.callFn(fn, []V{a.V}, nil)
			return r
		}
	}
	if t, ok := a.V.(*smt.Term); ok {
		if isString(a.T) {
			return t
		}
		if _, _, ok := intInfo(a.T); ok && (verb == 'v' || verb == 'd') {
			r := m.itoa(t, a.T)
			return r
		}
		if _, _, ok := intInfo(a.T); ok && strings.IndexByte("xXb", verb) >= 0 && !m.BV {
			return m.radix(t, string(verb))
		}
		return m.newVar("text", smt.String)
	}
	if g, ok := m.goVal(a.V, a.T, verb); ok {
		return g
	}
	return m.newVar("text", smt.String)
}

func (m *Machine) fmtVal(a Iface, verb byte) V {
	switch x := m.fmtArg(a, verb).(type) {
	case *smt.Term:
		return x
	case nil:
		return "<nil>"
	default:
		return fmt.Sprintf("%"+string(verb), x)
	}
}

func (m *Machine) sprintf(f V, args []V) V {
	format, ok := f.(string)
	if !ok {
		panic(unsupported("unknown format"))
	}
	var out []V
	i, k := 0, 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, format[i:])
			break
		}
		out = append(out, format[i:i+j])
		i += j
		e := i + 1
		for e < len(format) && strings.IndexByte("+-# 0123456789.*", format[e]) >= 0 {
			e++
		}
		if e >= len(format) {
			out = append(out, format[i:])
			break
		}
		verb := format[e]
		spec := format[i : e+1]
		i = e + 1
		if verb == '%' {
			out = append(out, "%")
			continue
		}
		if k >= len(args) {
			out = append(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a, ok := args[k].(Iface)
		k++
		if !ok {
			panic(unsupported("format argument %T", args[k-1]))
		}
		if verb == 'T' {
			out = append(out, fmt.Sprint(a.T))
			continue
		}
		g := m.fmtArg(a, verb)
		if t, ok := g.(*smt.Term); ok {
			if len(spec) == 2 && strings.IndexByte("svdxXb", verb) >= 0 {
				out = append(out, t)
			} else {
				out = append(out, m.newVar("text", smt.String))
			}
			continue
		}
		out = append(out, fmt.Sprintf(spec, g))
	}
	return m.joinStr(out)
}

// ---- the specification package ----

// Hole numbers the literals that stand for unknown integers in schema text.
const hole = 7700000000

func (m *Machine) spec(fn *ssa.Function, args []V) V {
	c := m.C
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	boolT := types.Typ[types.Bool]
	input := func(s smt.Sort) *smt.Term {
		n, _ := args[0].(string)
		v := m.newVar(n, s)
		m.Values[n] = v
		return v
	}
	switch name {
	case "Symbolic":
		return true
	case "init", "Register":
		return nil
	case "Int":
		lo, hi := args[1].(int64), args[2].(int64)
		if m.BV {
			v := input(smt.BV(64))
			m.assume(c.App("bvsle", smt.Bool, c.BVConst(big.NewInt(lo), 64), v))
			m.assume(c.App("bvsle", smt.Bool, v, c.BVConst(big.NewInt(hi), 64)))
			return v
		}
		if lo == hi {
			return lo
		}
		v := input(smt.Int)
		m.assume(c.And(c.Le(c.Int(lo), v), c.Le(v, c.Int(hi))))
		m.ranges[v] = [2]*big.Int{big.NewInt(lo), big.NewInt(hi)}
		return v
	case "Bool":
		return m.cond(input(smt.Bool))
	case "Pick":
		opts := args[1].(Slice).s
		v := input(smt.Int)
		i := m.forkN(int64(len(opts)))
		m.assume(c.Eq(v, c.Int(i)))
		return opts[i]
	case "Choose":
		n := args[1].(int64)
		v := input(smt.Int)
		i := m.forkN(n)
		m.assume(c.Eq(v, c.Int(i)))
		return i
	case "Str":
		v := input(smt.String)
		m.assume(c.Le(c.StrLen(v), c.Int(1<<40)))
		return v
	case "Any":
		n, _ := args[0].(string)
		return m.fresh(n, fn.Signature.Results().At(0).Type())
	case "Digits":
		verb, ok := args[1].(string)
		if !ok || m.BV {
			panic(unsupported("digits"))
		}
		switch x := args[0].(type) {
		case int64:
			return fmt.Sprintf("%"+verb, uint64(x))
		case *smt.Term:
			if verb == "d" {
				return m.val(c.App("str.from_int", smt.String, x))
			}
			return m.val(c.App(m.digits(verb), smt.String, x))
		}
		panic(unsupported("digits"))
	case "Lit":
		if v, ok := args[0].(int64); ok {
			return strconv.FormatInt(v, 10)
		}
		t := args[0].(*smt.Term)
		s := strconv.Itoa(hole + len(m.holes))
		m.holes[s] = t
		return s
	case "Assume":
		t := m.term(args[0], boolT)
		if m.pure > 0 {
			m.assume(t)
			return nil
		}
		m.Assume(t)
		return nil
	case "Assert":
		n, _ := args[0].(string)
		m.ProveAt(n, m.callPos(), m.term(args[1], boolT))
		return nil
	case "Implies":
		return m.val(c.Implies(m.term(args[0], boolT), m.term(args[1], boolT)))
	case "And":
		return m.val(c.And(m.term(args[0], boolT), m.term(args[1], boolT)))
	case "Or":
		return m.val(c.Or(m.term(args[0], boolT), m.term(args[1], boolT)))
	case "Old":
		return deep(args[0], map[any]any{})
	case "Forall", "Exists":
		it := types.Typ[types.Int]
		lo, hi, f := m.term(args[0], it), m.term(args[1], it), args[2].(*Closure)
		if a, ok := lo.IntVal(); ok {
			if b, ok := hi.IntVal(); ok && new(big.Int).Sub(b, a).Cmp(big.NewInt(64)) < 0 {
				acc := c.Bool(name == "Forall")
				for i := a.Int64(); i < b.Int64(); i++ {
					r := m.pureBool(func() V { return m.callFn(f.Fn, []V{i}, f.Free) })
					if name == "Forall" {
						acc = c.And(acc, r)
					} else {
						acc = c.Or(acc, r)
					}
				}
				return m.val(acc)
			}
		}
		x := c.Bound(smt.Int)
		body := m.pureBool(func() V { return m.callFn(f.Fn, []V{x}, f.Free) })
		in := c.And(c.Le(lo, x), c.Lt(x, hi))
		if name == "Forall" {
			return m.val(c.Forall([]*smt.Term{x}, c.Implies(in, body)))
		}
		return m.val(c.Exists([]*smt.Term{x}, c.And(in, body)))
	case "ForallInt":
		f := args[0].(*Closure)
		x := c.Bound(smt.Int)
		body := m.pureBool(func() V { return m.callFn(f.Fn, []V{x}, f.Free) })
		return m.val(c.Forall([]*smt.Term{x}, body))
	case "Dir":
		return "/v"
	case "File":
		n, ok := args[0].(string)
		t, ok2 := args[1].(string)
		if !ok || !ok2 {
			panic(unsupported("file with unknown text"))
		}
		n = filepath.Join("/v", n)
		m.files[n] = t
		return n
	case "Replace":
		m.replace[args[0].(string)] = asClosure(args[1])
		return nil
	case "Inline":
		for _, a := range args[0].(Slice).s {
			m.inline[a.(string)] = true
		}
		return nil
	case "BVMode":
		m.BV = true
		return nil
	case "MayPanic":
		return m.mayPanic(args[0].(*Closure))
	case "Fold":
		return m.fold(args)
	case "FoldAll":
		return m.foldAll(args)
	}
	panic(unsupported("verifspec.%s", name))
}

// mayPanic runs f and tells whether it panicked.
func (m *Machine) mayPanic(f *Closure) (r V) {
	depth, top, cuts := m.depth, m.top, m.cuts
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(goPanic); ok {
				m.depth, m.top, m.cuts = depth, top, cuts
				r = true
				return
			}
			panic(e)
		}
	}()
	m.callFn(f.Fn, nil, f.Free)
	return false
}

func (m *Machine) callPos() string {
	if m.cur != nil {
		return m.P.at(m.cur.Pos())
	}
	return ""
}

var _ = errors.New

// fold is the text obtained from s by applying a character map and dropping the
// characters mapped to a negative number: a recursive specification function,
// given to the solver as an uninterpreted function whose defining equations are
// instantiated where it is used.
// foldChar relates the folds in use to the character ch at position i of s:
// fold(s) = fold(s[:i]) . f(ch) . fold(s[i+1:]).
func (m *Machine) foldChar(s, i *smt.Term, ch *smt.Term) {
	c := m.C
	if s.Bound() || i.Bound() {
		return
	}
	for _, name := range sortedKeys(m.folds) {
		k := fmt.Sprintf("%s@%d,%d", name, s.ID(), i.ID())
		if m.lemSeen[k] {
			continue
		}
		if m.lemSeen == nil {
			m.lemSeen = map[string]bool{}
		}
		m.lemSeen[k] = true
		app := func(t *smt.Term) *smt.Term { return c.App(name, smt.String, t) }
		pre := c.Str("")
		if v, ok := i.IntVal(); !ok || v.Sign() != 0 {
			pre = app(c.App("str.substr", smt.String, s, c.Int(0), i))
		}
		n := c.Add(i, c.Int(1))
		l := m.lenTerm(s)
		post := c.Str("")
		if l != n {
			post = app(c.App("str.substr", smt.String, s, n, c.Sub(l, n)))
		}
		in := c.And(c.Le(c.Int(0), i), c.Lt(i, l))
		m.lemmas = append(m.lemmas, c.Implies(in, c.Eq(app(s), c.Concat(append(append(parts(pre), parts(m.folds[name](ch))...), post)...))))
	}
}

type split struct {
	text *smt.Term
	sep  string
	n    *smt.Term
}

func (m *Machine) trim(kind, cut string, t *smt.Term) V {
	f := fmt.Sprintf("%s.%x", kind, cut)
	m.C.Fun(f, fmt.Sprintf("(declare-fun %s (String) String)", f))
	if m.trims == nil {
		m.trims = map[string]string{}
	}
	m.trims[f] = cut
	r := m.C.App(f, smt.String, t)
	if m.pure == 0 {
		op := "str.prefixof"
		if kind == "triml" {
			op = "str.suffixof"
		}
		m.assume(m.C.App(op, smt.Bool, r, t))
		for _, name := range sortedKeys(m.folds) {
			drops := true
			for _, ch := range cut {
				if z, ok := m.folds[name](int64(ch)).StrVal(); !ok || z != "" {
					drops = false
				}
			}
			if drops && !t.Bound() {
				name := name
				m.lemma(fmt.Sprintf("%s#%d", name, r.ID()), func() *smt.Term {
					ft := m.C.App(name, smt.String, t)
					return m.C.And(m.C.Eq(m.C.App(name, smt.String, r), ft), m.C.Implies(m.C.Eq(r, m.C.Str("")), m.C.Eq(ft, m.C.Str(""))))
				})
			}
		}
	}
	return r
}

// lemma adds an instance of a valid fact once.
func (m *Machine) lemma(key string, f func() *smt.Term) {
	if m.lemSeen[key] {
		return
	}
	if m.lemSeen == nil {
		m.lemSeen = map[string]bool{}
	}
	m.lemSeen[key] = true
	m.lemmas = append(m.lemmas, f())
}

func (m *Machine) fold(args []V) V {
	of, _, _ := m.folder(args)
	return m.val(of(m.term(args[1], types.Typ[types.String]), 0))
}

// foldAll is the concatenation of the folds of the elements of a slice.
func (m *Machine) foldAll(args []V) V {
	c := m.C
	of, _, name := m.folder(args)
	stringT := types.Typ[types.String]
	switch x := args[1].(type) {
	case Slice:
		var ps []*smt.Term
		for _, e := range x.s {
			ps = append(ps, parts(of(m.term(e, stringT), 0))...)
		}
		return m.val(c.Concat(ps...))
	case *SymSlice:
		return m.foldSlice(of, name, x.b.arrs[0], x.off, x.len, 0)
	}
	panic(unsupported("FoldAll of %T", args[1]))
}

func (m *Machine) foldSlice(of func(*smt.Term, int) *smt.Term, name string, arr, off, n *smt.Term, d int) *smt.Term {
	c := m.C
	if v, ok := n.IntVal(); ok && v.Sign() == 0 {
		return c.Str("")
	}
	f := "all." + name
	c.Fun(f, fmt.Sprintf("(declare-fun %s ((Array Int String) Int Int) String)", f))
	t := c.App(f, smt.String, arr, off, n)
	if t.Bound() || d > 3 {
		return t
	}
	k := fmt.Sprintf("%s#%d", f, t.ID())
	m.lemma(k+"zero", func() *smt.Term { return c.Implies(c.Eq(n, c.Int(0)), c.Eq(t, c.Str(""))) })
	prev := c.Sub(n, c.Int(1))
	m.lemma(k+"step", func() *smt.Term {
		e, a := c.Select(arr, c.Add(off, prev)), arr
		if arr.Op == "store" && arr.Args[1] == c.Add(off, prev) {
			e, a = arr.Args[2], arr.Args[0]
		}
		rest := m.foldSlice(of, name, a, off, prev, d+1)
		return c.Implies(c.Lt(c.Int(0), n), c.Eq(t, c.Concat(append(parts(rest), parts(of(e, 0))...)...)))
	})
	if sp, ok := m.splits[arr]; ok {
		if z := of(c.Str(sp.sep), 0); z == c.Str("") {
			m.lemma(k+"split", func() *smt.Term {
				return c.Eq(c.App(f, smt.String, arr, c.Int(0), sp.n), of(sp.text, 0))
			})
		}
	}
	return t
}

// folder makes the function that folds a text.
func (m *Machine) folder(args []V) (func(*smt.Term, int) *smt.Term, func(V) V, string) {
	c := m.C
	tag, _ := args[0].(string)
	f := args[2].(*Closure)
	name := "fold." + tag
	c.Fun(name, fmt.Sprintf("(declare-fun %s (String) String)", name))
	one := func(ch V) V {
		var alts []*smt.Term
		var out *smt.Term
		var conds []*smt.Term
		m.pureRun(func() V { return m.callFn(f.Fn, []V{ch}, f.Free) }, func(pc []*smt.Term, v V) {
			t := m.term(v, types.Typ[types.Int32])
			s := c.Ite(c.Lt(t, c.Int(0)), c.Str(""), c.App("str.from_code", smt.String, t))
			if k, ok := t.IntVal(); ok && k.Sign() >= 0 {
				s = c.Str(string(rune(k.Int64())))
			}
			alts = append(alts, s)
			conds = append(conds, c.And(pc...))
		})
		for i := len(alts) - 1; i >= 0; i-- {
			if out == nil {
				out = alts[i]
			} else {
				out = c.Ite(conds[i], alts[i], out)
			}
		}
		return m.val(out)
	}
	if m.folds == nil {
		m.folds = map[string]func(ch V) *smt.Term{}
	}
	m.folds[name] = func(ch V) *smt.Term { return m.term(one(ch), types.Typ[types.String]) }
	var of func(t *smt.Term, d int) *smt.Term
	of = func(t *smt.Term, d int) *smt.Term {
		if s, ok := t.StrVal(); ok {
			var r []V
			for _, ch := range s {
				r = append(r, one(int64(ch)))
			}
			return m.term(m.joinStr(r), types.Typ[types.String])
		}
		switch t.Op {
		case "str.++":
			var ps []*smt.Term
			for _, a := range t.Args {
				ps = append(ps, parts(of(a, d))...)
			}
			return c.Concat(ps...)
		case "str.from_code":
			return m.term(one(t.Args[0]), types.Typ[types.String])
		case "ite":
			return c.Ite(t.Args[0], of(t.Args[1], d), of(t.Args[2], d))
		case "str.replace_all":
			some := false // the text replaced is not empty
			for _, a := range parts(t.Args[1]) {
				if v, ok := a.StrVal(); ok && v != "" {
					some = true
				}
			}
			if some && of(t.Args[1], d) == of(t.Args[2], d) {
				return of(t.Args[0], d)
			}
		case "str.substr":
			// fold(s[a:b+1]) = fold(s[a:b]) . f(s[b])
			a, n := t.Args[1], t.Args[2]
			if n.Op == "+" && d < 2 {
				if k, ok := n.Args[1].IntVal(); ok && k.Cmp(big.NewInt(1)) == 0 {
					prev := c.App("str.substr", smt.String, t.Args[0], a, n.Args[0])
					ch := c.App("str.to_code", smt.Int, c.App("str.at", smt.String, t.Args[0], c.Add(a, n.Args[0])))
					return c.Concat(append(parts(of(prev, d+1)), parts(m.term(one(ch), types.Typ[types.String]))...)...)
				}
			}
			if k, ok := n.IntVal(); ok && k.Sign() == 0 {
				return c.Str("")
			}
			// fold(t) = fold(t[:a]) . fold(t[a:a+n]) . fold(t[a+n:])
			if d < 3 && !t.Bound() && !m.lemSeen[name+strconv.Itoa(t.ID())] {
				if m.lemSeen == nil {
					m.lemSeen = map[string]bool{}
				}
				m.lemSeen[name+strconv.Itoa(t.ID())] = true
				b := t.Args[0]
				l := m.lenTerm(b)
				app := func(lo, n *smt.Term) *smt.Term {
					if k, ok := n.IntVal(); ok && k.Sign() == 0 {
						return c.Str("")
					}
					return c.App(name, smt.String, c.App("str.substr", smt.String, b, lo, n))
				}
				end := c.Add(a, n)
				in := c.And(c.Le(c.Int(0), a), c.Le(c.Int(0), n), c.Le(end, l))
				m.lemmas = append(m.lemmas, c.Implies(in, c.Eq(of(b, d+1), c.Concat(app(c.Int(0), a), app(a, n), app(end, c.Sub(l, end))))))
				m.lemmas = append(m.lemmas, c.Implies(c.Eq(n, c.Int(0)), c.Eq(app(a, n), c.Str(""))))
			}
		}
		if s, ok := m.reps[t.Op]; ok {
			gone := true
			for _, ch := range s {
				v, ok := one(int64(ch)).(string)
				gone = gone && ok && v == ""
			}
			if gone {
				return c.Str("")
			}
		}
		if cut, ok := m.trims[t.Op]; ok && !t.Bound() {
			gone := true
			for _, ch := range cut {
				v, ok := one(int64(ch)).(string)
				gone = gone && ok && v == ""
			}
			if gone {
				m.lemma(fmt.Sprintf("%s!%d", name, t.ID()), func() *smt.Term { return c.Eq(c.App(name, smt.String, t), of(t.Args[0], d)) })
			}
		}
		if sep, ok := m.joins[t.Op]; ok && !t.Bound() && of(c.Str(sep), d) == c.Str("") {
			m.lemma(fmt.Sprintf("%s!%d", name, t.ID()), func() *smt.Term {
				return c.Eq(c.App(name, smt.String, t), m.foldSlice(of, name, t.Args[0], t.Args[1], t.Args[2], 0))
			})
		}
		if k := name + "e" + strconv.Itoa(t.ID()); !t.Bound() && !m.lemSeen[k] {
			if m.lemSeen == nil {
				m.lemSeen = map[string]bool{}
			}
			m.lemSeen[k] = true
			m.lemmas = append(m.lemmas, c.Implies(c.Eq(t, c.Str("")), c.Eq(c.App(name, smt.String, t), c.Str(""))))
		}
		return c.App(name, smt.String, t)
	}
	return of, one, name
}

func asClosure(v V) *Closure {
	switch x := v.(type) {
	case *Closure:
		return x
	case *ssa.Function:
		return &Closure{Fn: x}
	case Iface:
		return asClosure(x.V)
	}
	panic(unsupported("a function value %T", v))
}

// opaque applies a library function the solver knows nothing about but that it
// is one; what is refuted with its help is not reported unless it reproduces.
func (m *Machine) opaque(name string, ts ...*smt.Term) *smt.Term {
	return m.opaqueOf(name, smt.String, ts...)
}

func (m *Machine) opaqueIs(name string, ts ...*smt.Term) *smt.Term {
	return m.opaqueOf(name, smt.Bool, ts...)
}

func (m *Machine) opaqueOf(name string, res smt.Sort, ts ...*smt.Term) *smt.Term {
	f := fmt.Sprintf("lib.%s.%d", strings.NewReplacer("/", ".", "(", "", ")", "", "*", "").Replace(name), len(ts))
	m.C.Fun(f, fmt.Sprintf("(declare-fun %s (%s) %s)", f, strings.TrimSpace(strings.Repeat("String ", len(ts))), res))
	m.weak = true
	return m.C.App(f, res, ts...)
}
