package compiler

import (
	"strings"

	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

// vCompile runs the compiler on one schema text.
func vCompile(text string) (*definition.CompilationUnit, error) {
	u, err, _ := vCompileW(text)
	return u, err
}

func vCompileW(text string) (*definition.CompilationUnit, error, error) {
	r := NewCompilationRuntime()
	return r.compile(&definition.FileIdentifer{Name: "a.bb", Path: "/v/a.bb"}, text)
}

// vStruct is the named struct of a unit.
func vStruct(u *definition.CompilationUnit, name string) *definition.Struct {
	return u.LocalTypes.MustGet(name).(*definition.Struct)
}

// vNamed is the normal or constant field of that name, or nil.
func vNamed(s *definition.Struct, name string) definition.Field {
	for _, f := range s.StructFields.Values() {
		if f.GetFieldUniqueName() == name {
			return f
		}
	}
	return nil
}

func vJoin(parts ...string) string { return strings.Join(parts, "") }

// vCause is the first compile error's cause.
func vCause(err error) error {
	for {
		switch e := err.(type) {
		case *definition.CompileError:
			return e.Err
		case *definition.JoinTopLevelErrors:
			err = e.Errs[0]
		default:
			return err
		}
	}
}

// vField is one struct element in schema text with what it takes on the wire.
type vField struct {
	text string
	name string // "" when it has none
	size int64  // bits of the fixed part
	dyn  bool   // has a variable-length part
	must bool   // has to start on a byte boundary
	add  int    // how many fields it adds to the struct
}

const vForms = 13

// The types that the forms use.
const vTypes = "enum Num[#11] { Na, Nb, }; struct T { uint8 a; uint16 b [#3]; void [#5]; }; struct D { uint8 a; string s; uint16 b; }; "

// vForm is the k-th form of a struct element, the i-th of its struct; its
// width is unknown where it has one.
func vForm(i, k int) vField {
	id := string(rune('a' + i))
	name := "f" + id
	n := int64(0)
	switch k {
	case 0, 1, 2, 9:
		n = vs.Int("bits "+id, 1, 32)
	}
	switch k {
	case 0:
		return vField{vJoin("uint32 ", name, " [#", vs.Lit(n), "]; "), name, n, false, false, 1}
	case 1:
		return vField{vJoin("void [#", vs.Lit(n), "]; "), "", n, false, false, 1}
	case 2:
		return vField{vJoin("int32 ", name, " [#", vs.Lit(n), "] = 0; "), name, n, false, false, 1}
	case 3:
		return vField{vJoin("int16<3> ", name, " [#33]; "), name, 33, false, false, 1}
	case 4:
		return vField{vJoin("Num ", name, "; "), name, 11, false, false, 1}
	case 5:
		return vField{vJoin("string ", name, "; "), name, 0, true, true, 1}
	case 6:
		return vField{vJoin("bytes<2> ", name, "; "), name, 0, true, true, 1}
	case 7:
		return vField{vJoin("T ", name, "; "), name, 16, false, true, 1}
	case 8:
		return vField{vJoin("D ", name, "; "), name, 0, true, true, 1}
	case 9:
		return vField{vJoin("struct E", id, " { uint32 ", name, " [#", vs.Lit(n), "]; void [#", vs.Lit(8-n%8), "]; }; "), name, n + 8 - n%8, false, false, 3}
	case 10:
		return vField{vJoin("T<3> ", name, "; "), name, 48, false, true, 1}
	case 11:
		return vField{vJoin("D<2> ", name, "; "), name, 0, true, true, 1}
	case 12:
		return vField{vJoin("Num<2> ", name, "; "), name, 22, false, false, 1}
	}
	panic("unknown form")
}
