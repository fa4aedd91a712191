// Package gover verifies Go functions of /repo against contracts: it executes
// their SSA form symbolically, cuts loops at invariants, and lets z3 discharge
// the obligations.
package gover

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"verif/smt"

	"golang.org/x/tools/go/ssa"
)

// V is a value: int64, *smt.Term, bool, string, float64, *V (pointer), Struct,
// Array, Slice, *SymSlice, *Map, *SymMap, Iface, *Closure, *ssa.Builtin,
// *Native, Tuple, *Node, *Opaque, or an iterator.
type V any

type (
	Struct []V
	Array  []V
	Tuple  []V
	Iface  struct {
		T types.Type
		V V
	}
	Slice   struct{ s []V }
	Closure struct {
		Fn   *ssa.Function
		Free []V
	}
	Native struct {
		Name string
		F    func(m *Machine, args []V) V
	}
	// Opaque is a value about which nothing is known but its identity.
	Opaque struct {
		What string
	}
)

// Map is a map with known keys.
type Map struct {
	keys   []V
	m      map[any]int
	vals   []V
	hasSym bool
	t      *types.Map
	alt    *SymMap // once made unknown at the head of a loop
}

func mapKey(k V) any {
	switch x := k.(type) {
	case Iface:
		if x.T == nil {
			return "nil"
		}
		return [2]any{x.T.String(), mapKey(x.V)}
	case Struct:
		var b strings.Builder
		for _, f := range x {
			fmt.Fprintf(&b, "%v|", mapKey(f))
		}
		return b.String()
	case int64, string, bool, float64, *V, *Node:
		return x
	}
	panic(unsupported("map key %T", k))
}

func newMap() *Map { return &Map{m: map[any]int{}} }

func (m *Map) get(k V) (V, bool) {
	if m == nil {
		return nil, false
	}
	i, ok := m.m[mapKey(k)]
	if !ok {
		return nil, false
	}
	return m.vals[i], true
}

func (m *Map) set(k, v V) {
	key := mapKey(k)
	if i, ok := m.m[key]; ok {
		m.vals[i] = v
		return
	}
	m.m[key] = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *Map) del(k V) {
	key := mapKey(k)
	i, ok := m.m[key]
	if !ok {
		return
	}
	delete(m.m, key)
	m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
	m.vals = append(m.vals[:i:i], m.vals[i+1:]...)
	for j := i; j < len(m.keys); j++ {
		m.m[mapKey(m.keys[j])] = j
	}
}

// SymArr is the backing store of slices of unknown length: one SMT array per
// scalar leaf of the element type.
type SymArr struct {
	elem types.Type
	arrs []*smt.Term
}

type SymSlice struct {
	b        *SymArr
	off, len *smt.Term
}

// SymMap is a map with unknown contents.
type SymMap struct {
	kt, vt types.Type
	dom    *smt.Term
	vals   []*smt.Term
}

// symElem is the address of a part of an element of a symbolic slice.
type symElem struct {
	b    *SymArr
	idx  *smt.Term
	lo   int // first leaf
	elem types.Type
}

type unsup struct{ msg string }

func (u unsup) Error() string { return "not supported: " + u.msg }

func unsupported(f string, a ...any) error { return unsup{fmt.Sprintf(f, a...)} }

// leaves lists the scalar leaf types of a type.
func leaves(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []types.Type{t}
	case *types.Struct:
		var out []types.Type
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, leaves(u.Field(i).Type())...)
		}
		return out
	}
	panic(unsupported("symbolic element of type %s", t))
}

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func typeRange(bits int, signed bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, uint(bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
}

// wrapC wraps a concrete integer to its type; unsigned 64-bit values are kept
// as their bit pattern.
func wrapC(x int64, bits int, signed bool) int64 {
	switch {
	case bits == 64:
		return x
	case signed:
		return x << (64 - bits) >> (64 - bits)
	default:
		return int64(uint64(x) << (64 - bits) >> (64 - bits))
	}
}

// zero is the zero value of a type.
func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UntypedNil:
			return Iface{}
		}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return (*V)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported("zero value of %s", t))
}

// cp copies a value the way assignment does.
func cp(v V) V {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = cp(x[i])
		}
		return n
	}
	return v
}

// deep copies everything reachable; used for old values in contracts.
func deep(v V, seen map[any]any) V {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i := range x {
			n[i] = deep(x[i], seen)
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i := range x {
			n[i] = deep(x[i], seen)
		}
		return n
	case Slice:
		if x.s == nil {
			return x
		}
		n := make([]V, len(x.s))
		for i := range x.s {
			n[i] = deep(x.s[i], seen)
		}
		return Slice{n}
	case *V:
		if x == nil {
			return x
		}
		if y, ok := seen[x]; ok {
			return y
		}
		n := new(V)
		seen[x] = n
		*n = deep(*x, seen)
		return n
	case *SymSlice:
		n := *x
		b, ok := seen[x.b].(*SymArr)
		if !ok {
			c := *x.b
			c.arrs = append([]*smt.Term{}, x.b.arrs...)
			b = &c
			seen[x.b] = b
		}
		n.b = b
		return &n
	case *SymMap:
		if y, ok := seen[x]; ok {
			return y
		}
		n := *x
		n.vals = append([]*smt.Term{}, x.vals...)
		seen[x] = &n
		return &n
	case *Map:
		if x == nil {
			return x
		}
		if y, ok := seen[x]; ok {
			return y
		}
		n := newMap()
		n.t, n.hasSym = x.t, x.hasSym
		seen[x] = n
		if x.alt != nil {
			n.alt = deep(x.alt, seen).(*SymMap)
			return n
		}
		if x.hasSym {
			n.keys = append([]V{}, x.keys...)
			for i := range x.vals {
				n.vals = append(n.vals, deep(x.vals[i], seen))
			}
			return n
		}
		for i, k := range x.keys {
			n.set(k, deep(x.vals[i], seen))
		}
		return n
	case Iface:
		return Iface{x.T, deep(x.V, seen)}
	}
	return v
}
