package gover

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Effect is one obligation of the effect contract "the results and the writes
// of this function are determined by what it is given and by the files it
// reads": one per instruction that could break it.
type Effect struct {
	Func string
	At   string
	What string
	OK   bool
	Open bool // neither shown nor refuted
	Why  string
}

// purePkgs are packages whose functions are taken to satisfy the contract.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "fmt": true, "math": true, "math/bits": true, "math/big": true, "sort": true,
	"unicode": true, "unicode/utf8": true, "unicode/utf16": true, "bytes": true, "regexp": true, "path": true, "path/filepath": true,
	"slices": true, "cmp": true, "text/template": true, "text/template/parse": true, "io": true, "io/fs": true, "bufio": true, "iter": true,
	"encoding/binary": true, "encoding/hex": true, "encoding/json": true, "hash/fnv": true, "hash/crc32": true, "crypto/sha256": true, "crypto/md5": true,
	"container/list": true, "container/heap": true, "embed": true, "sync": true, "sync/atomic": true, "reflect": true, "os": true, "maps": true, "context": true,
	"github.com/gookit/color": true, "github.com/antlr4-go/antlr/v4": true, "text/tabwriter": true, "internal/abi": true, "flag": true, "github.com/spf13/pflag": true,
}

// impure are functions of those packages that do not.
var impure = map[string]bool{
	"os.Getpid": true, "os.Getppid": true, "os.Hostname": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.TempDir": true,
	"os.Getuid": true, "os.UserHomeDir": true, "os.CreateTemp": true, "os.MkdirTemp": true, "os.Executable": true,
	"maps.Keys": true, "maps.Values": true, "maps.All": true, "maps.Collect": false,
	"(reflect.Value).MapKeys": true, "(reflect.Value).MapRange": true, "(reflect.Value).Pointer": true, "(reflect.Value).UnsafePointer": true, "(reflect.Value).Seq": true, "(reflect.Value).Seq2": true,
	"os.Getwd": true, "time.Now": true, "time.Since": true, "time.Until": true, "runtime.NumGoroutine": true, "runtime.ReadMemStats": true, "runtime.Caller": true, "runtime.NumCPU": true,
	"(*sync.Map).Range": true, "(*sync.Pool).Get": true,
}

// Effects checks the effect contract of every function of the packages.
func (p *Prog) Effects() []Effect {
	e := &effects{p: p, writes: map[*ssa.Function]map[int]bool{}, binds: map[*ssa.FreeVar][]ssa.Value{}, methods: map[string][]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(p.SSA) {
		if e.ours(fn) {
			e.fns = append(e.fns, fn)
		}
	}
	sort.Slice(e.fns, func(i, j int) bool {
		a, b := e.fns[i], e.fns[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, fn := range e.fns {
		if r := fn.Signature.Recv(); r != nil && fn.Synthetic == "" {
			e.methods[fn.Name()] = append(e.methods[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
						e.binds[fv] = append(e.binds[fv], mc.Bindings[i])
					}
				}
			}
		}
	}
	e.frames()
	for _, fn := range e.fns {
		e.check(fn)
	}
	return e.out
}

type effects struct {
	p       *Prog
	fns     []*ssa.Function
	writes  map[*ssa.Function]map[int]bool
	binds   map[*ssa.FreeVar][]ssa.Value // what closures capture
	methods map[string][]*ssa.Function
	out     []Effect
}

func (e *effects) ours(fn *ssa.Function) bool {
	root := fn
	for root.Parent() != nil {
		root = root.Parent()
	}
	if o := root.Origin(); o != nil {
		root = o
	}
	var pkg *types.Package
	if root.Pkg != nil {
		pkg = root.Pkg.Pkg
	} else if root.Object() != nil {
		pkg = root.Object().Pkg()
	}
	if pkg == nil || len(fn.Blocks) == 0 {
		return false
	}
	path := pkg.Path()
	if path != e.p.Mod && !strings.HasPrefix(path, e.p.Mod+"/") {
		return false
	}
	rel := strings.TrimPrefix(path, e.p.Mod)
	if rel == "/verifspec" || rel == "/parser" {
		return false
	}
	// the contracts' own functions are no part of the code
	q := e.p.Fset.Position(root.Pos())
	base := q.Filename[strings.LastIndexByte(q.Filename, '/')+1:]
	return !strings.HasPrefix(base, "zz_c") && base != "vcommon.go" && base != "vcommand.go" && base != "specs.go"
}

func (e *effects) add(fn *ssa.Function, pos token.Pos, what string, ok bool, why string) {
	e.out = append(e.out, Effect{Func: fn.String(), At: e.p.at(pos), What: what, OK: ok, Why: why})
}

// base is where an address or a reference comes from: a global, a parameter,
// or something else.
func (e *effects) base(v ssa.Value, seen map[any]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Global, *ssa.Parameter:
		return []ssa.Value{v}
	case *ssa.FreeVar:
		var out []ssa.Value
		for _, y := range e.binds[x] {
			out = append(out, e.base(y, seen)...)
		}
		return out
	case *ssa.FieldAddr:
		return e.base(x.X, seen)
	case *ssa.IndexAddr:
		return e.base(x.X, seen)
	case *ssa.Field:
		return e.base(x.X, seen)
	case *ssa.Index:
		return e.base(x.X, seen)
	case *ssa.Lookup:
		return e.base(x.X, seen)
	case *ssa.Extract:
		return e.base(x.Tuple, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.base(x.X, seen)
		}
	case *ssa.Slice:
		return e.base(x.X, seen)
	case *ssa.ChangeType:
		return e.base(x.X, seen)
	case *ssa.ChangeInterface:
		return e.base(x.X, seen)
	case *ssa.MakeInterface:
		return e.base(x.X, seen)
	case *ssa.TypeAssert:
		return e.base(x.X, seen)
	case *ssa.Phi:
		var out []ssa.Value
		for _, y := range x.Edges {
			out = append(out, e.base(y, seen)...)
		}
		return out
	case *ssa.Call:
		// what a function returns may be part of a package variable or of
		// an argument
		var out []ssa.Value
		for _, f := range e.callees(&x.Call) {
			if seen[f] {
				continue
			}
			for _, b := range f.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				for _, v := range r.Results {
					if !reference(v.Type()) {
						continue
					}
					for _, w := range e.base(v, seen) {
						switch w := w.(type) {
						case *ssa.Global:
							out = append(out, w)
						case *ssa.Parameter:
							for i, q := range f.Params {
								if a := argument(&x.Call, i); q == w && a != nil {
									out = append(out, e.base(a, seen)...)
								}
							}
						}
					}
				}
			}
		}
		return out
	}
	return nil
}

// callees are the functions of ours that a call may run.
func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		if e.ours(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		return e.methods[c.Method.Name()]
	}
	return nil
}

func argument(c *ssa.CallCommon, i int) ssa.Value {
	if c.IsInvoke() {
		if i == 0 {
			return c.Value
		}
		i--
	}
	if i < len(c.Args) {
		return c.Args[i]
	}
	return nil
}

// grows are library methods that write to their receiver.
func grows(f *ssa.Function) bool {
	n := f.String()
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).", "(*sync.Map).", "(*math/big.", "(*container/list.", "(*sync/atomic."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func reference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	}
	return false
}

// written lists the values a function writes through, with the place.
func (e *effects) written(fn *ssa.Function, f func(v ssa.Value, pos token.Pos, how string)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				f(x.Addr, x.Pos(), "store")
			case *ssa.MapUpdate:
				f(x.Map, x.Pos(), "map update")
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "delete", "clear", "copy":
						f(c.Args[0], x.Pos(), b.Name())
					}
					continue
				}
				if g := c.StaticCallee(); g != nil && len(c.Args) > 0 && grows(g) {
					f(c.Args[0], x.Pos(), "call of "+g.String())
				}
				for _, callee := range e.callees(c) {
					for i := range e.writes[callee] {
						if a := argument(c, i); a != nil && reference(a.Type()) {
							f(a, x.Pos(), "call of "+callee.String())
						}
					}
				}
			}
		}
	}
}

// frames infers which parameters a function writes through.
func (e *effects) frames() {
	for changed := true; changed; {
		changed = false
		for _, fn := range e.fns {
			e.written(fn, func(v ssa.Value, _ token.Pos, _ string) {
				for _, b := range e.base(v, map[any]bool{}) {
					for i, q := range fn.Params {
						if b == q && reference(q.Type()) {
							if e.writes[fn] == nil {
								e.writes[fn] = map[int]bool{}
							}
							if !e.writes[fn][i] {
								e.writes[fn][i] = true
								changed = true
							}
						}
					}
				}
			})
		}
	}
}

func (e *effects) check(fn *ssa.Function) {
	if fn.Synthetic != "" && fn.Name() != "init" {
		if fn.Origin() == nil && !strings.Contains(fn.Synthetic, "instance") {
			return
		}
	}
	isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	// the command's own function runs once in a process
	once := fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
	if !isInit && !once && !e.onceOnly(fn) {
		e.written(fn, func(v ssa.Value, pos token.Pos, how string) {
			for _, b := range e.base(v, map[any]bool{}) {
				if g, ok := b.(*ssa.Global); ok {
					e.add(fn, pos, "leaves the package variables as they are", false, how+" writes "+g.Name())
					return
				}
			}
			e.add(fn, pos, "leaves the package variables as they are", true, "")
		})
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				e.add(fn, x.Pos(), "runs in one order", false, "starts a goroutine")
			case *ssa.Select:
				e.add(fn, x.Pos(), "runs in one order", false, "select")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					ok, why := e.commutes(fn, x)
					e.add(fn, x.Pos(), "the order of a map does not matter", ok, why)
				}
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					e.add(fn, x.Pos(), "no address becomes data", false, "uintptr")
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				e.call(fn, c)
			}
		}
	}
}

// onceOnly tells whether all that happens to a function without parameters is
// that sync.Once and its like run it: then it writes the same values in every
// history.
func (e *effects) onceOnly(fn *ssa.Function) bool {
	if len(fn.Params) > 0 || len(fn.FreeVars) > 0 {
		return false
	}
	n := 0
	for _, f := range e.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if o == nil || *o != ssa.Value(fn) {
						continue
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						return false
					}
					callee := c.Common().StaticCallee()
					if g := callee.Origin(); g != nil {
						callee = g
					}
					switch name := callee.String(); {
					case strings.HasPrefix(name, "(*sync.Once).Do"), strings.HasPrefix(name, "sync.Once"):
						n++
					default:
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (e *effects) call(fn *ssa.Function, c ssa.CallInstruction) {
	callee := c.Common().StaticCallee()
	if callee == nil {
		return // a closure or a method of ours, or one of a listed package: checked where it is
	}
	if e.ours(callee) {
		return
	}
	o := callee
	if g := callee.Origin(); g != nil {
		o = g
	}
	obj := o.Object()
	if obj == nil || obj.Pkg() == nil {
		return
	}
	path := obj.Pkg().Path()
	if path == e.p.Mod || strings.HasPrefix(path, e.p.Mod+"/") {
		return
	}
	name := o.String()
	ok := purePkgs[path] && !listed(name)
	why := ""
	if !ok {
		why = "calls " + name
	}
	e.add(fn, c.Pos(), "calls only what is determined by its arguments and files", ok, why)
	e.out[len(e.out)-1].Open = !ok && !listed(name) && !random[path]
	if path == "fmt" {
		for _, a := range variadic(c.Common()) {
			ok, why := printable(a)
			e.add(fn, c.Pos(), "prints no address", ok, why)
		}
		for _, a := range c.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
				e.add(fn, c.Pos(), "prints no address", false, "%p")
			}
		}
	}
}

func listed(name string) bool {
	i := strings.IndexByte(name, '[')
	if i > 0 {
		name = name[:i]
	}
	return impure[name]
}

var random = map[string]bool{"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "hash/maphash": true}

// variadic are the values packed into the last argument.
func variadic(c *ssa.CallCommon) []ssa.Value {
	if len(c.Args) == 0 {
		return nil
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, s := range *ia.Referrers() {
			if st, ok := s.(*ssa.Store); ok {
				out = append(out, st.Val)
			}
		}
	}
	return out
}

func printable(v ssa.Value) (bool, string) {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return true, "" // its dynamic type is not known here
	}
	t := mi.X.Type()
	if says(t) {
		return true, ""
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			return false, "an address of type " + t.String()
		}
		u = p.Elem().Underlying()
	}
	if addr(u, map[types.Type]bool{}) {
		return false, "an address within " + t.String()
	}
	return true, ""
}

// says tells whether fmt asks the type itself for its text.
func says(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, n := range []string{"Error", "String", "Format"} {
		if s := ms.Lookup(nil, n); s != nil {
			return true
		}
	}
	return false
}

// addr tells whether printing a value shows an address.
func addr(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if says(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addr(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Slice:
		return addr(u.Elem(), seen)
	case *types.Array:
		return addr(u.Elem(), seen)
	case *types.Map:
		return addr(u.Elem(), seen) || addr(u.Key(), seen)
	}
	return false
}

// commutes decides whether the iterations of a loop over a map may run in any
// order: each only sets or deletes entries of other maps under its own key,
// sets variables to one constant, adds integers, or appends to a slice that is
// sorted before it is used for anything else.
func (e *effects) commutes(fn *ssa.Function, r *ssa.Range) (bool, string) {
	var body map[*ssa.BasicBlock]bool
	var key ssa.Value
	for _, ref := range *r.Referrers() {
		n, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		for h, l := range e.p.loopsOf(fn).heads {
			if h == n.Block() {
				body = l.body
			}
		}
		for _, x := range *n.Referrers() {
			if ex, ok := x.(*ssa.Extract); ok && ex.Index == 1 {
				key = ex
			}
		}
	}
	if body == nil {
		return true, "runs at most once"
	}
	local := func(v ssa.Value) bool {
		a, ok := v.(*ssa.Alloc)
		return ok && body[a.Block()]
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.UnOp, *ssa.Lookup, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.Convert, *ssa.DebugRef, *ssa.Alloc, *ssa.Slice, *ssa.MakeSlice, *ssa.MakeMap:
			case *ssa.Store:
				if local(x.Addr) {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && local(ia.X) {
					continue
				}
				if _, ok := x.Val.(*ssa.Const); ok {
					continue
				}
				return false, "a store of a value of the iteration"
			case *ssa.MapUpdate:
				if x.Key == key {
					continue
				}
				if _, ok := x.Value.(*ssa.Const); ok {
					continue
				}
				return false, "an entry under another key"
			case *ssa.Phi:
				if b != r.Block() && !e.phi(x, body) {
					return false, "a value carried from one iteration to the next"
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if _, ok := v.(*ssa.Const); !ok {
						return false, "a result of one iteration"
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max":
						continue
					case "delete":
						if x.Call.Args[1] == key {
							continue
						}
					case "append":
						if sorted(x, body) {
							continue
						}
						return false, "a slice in the order of the map"
					}
				}
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && purePkgs[f.Pkg.Pkg.Path()] && (f.Pkg.Pkg.Path() == "strings" || f.Pkg.Pkg.Path() == "strconv" || f.Name() == "Sprintf" || f.Name() == "Sprint") && f.Signature.Recv() == nil {
					continue
				}
				return false, "a call in the order of the map: " + x.Call.String()
			default:
				return false, fmt.Sprintf("%T in the order of the map", in)
			}
		}
	}
	// leaving the loop early with what one iteration found
	for b := range body {
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			for _, in := range s.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, p := range s.Preds {
						if body[p] {
							if v, ok := ph.Edges[i].(ssa.Instruction); ok && body[v.Block()] && !okPhi(ph.Edges[i], body) {
								return false, "a value of the iteration at which the loop ends"
							}
						}
					}
				}
				if rt, ok := in.(*ssa.Return); ok {
					for _, v := range rt.Results {
						if x, ok := v.(ssa.Instruction); ok && body[x.Block()] && !okPhi(v, body) {
							return false, "a result of one iteration"
						}
					}
				}
			}
		}
	}
	return true, ""
}

func okPhi(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	_, ok := v.(*ssa.Phi)
	return ok // checked as a carried value
}

// phi accepts a carried integer sum, a constant flag and a sorted slice.
func (e *effects) phi(x *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if !reachesBack(x, body) {
		return true
	}
	for i, y := range x.Edges {
		if !body[x.Block().Preds[i]] {
			continue
		}
		if !carried(y, x, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func reachesBack(x *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for _, p := range x.Block().Preds {
		if !body[p] {
			return true // the head of the loop
		}
	}
	return false
}

func carried(y ssa.Value, x *ssa.Phi, seen map[ssa.Value]bool) bool {
	if y == x || seen[y] {
		return true
	}
	seen[y] = true
	switch v := y.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, z := range v.Edges {
			if !carried(z, x, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		b, ok := v.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		switch v.Op {
		case token.ADD, token.OR, token.AND, token.XOR:
			return carried(v.X, x, seen) && !uses(v.Y, x) || carried(v.Y, x, seen) && !uses(v.X, x)
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return true // judged where it is
		}
	}
	return false
}

func uses(v ssa.Value, x *ssa.Phi) bool { return v == x }

// sorted tells whether what an append in a loop makes goes, outside of the
// loop, first to a sort.
func sorted(c *ssa.Call, body map[*ssa.BasicBlock]bool) bool {
	work := []ssa.Value{c}
	seen := map[ssa.Value]bool{}
	found := false
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				work = append(work, x)
			case *ssa.MakeInterface:
				work = append(work, x)
			case *ssa.ChangeType:
				work = append(work, x)
			case *ssa.Call:
				if body[x.Block()] {
					continue
				}
				if f := x.Call.StaticCallee(); f != nil {
					n := f.Name()
					if o := f.Origin(); o != nil {
						n = o.Name()
						f = o
					}
					if f.Object() != nil && f.Object().Pkg() != nil {
						path := f.Object().Pkg().Path()
						if path == "sort" && (n == "Strings" || n == "Ints" || n == "Slice" || n == "SliceStable" || n == "Sort") || path == "slices" && (n == "Sort" || n == "SortFunc") {
							found = true
						}
					}
				}
			}
		}
	}
	return found
}
