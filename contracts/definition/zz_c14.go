package definition

import (
	"github.com/xaxys/bubbler/util"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C14", "Verify_C14_AddLocalName", Verify_C14_AddLocalName)
	vs.Register("C14", "Verify_C14_AddGlobalName", Verify_C14_AddGlobalName)
	vs.Register("C14", "Verify_C14_AddLocalType", Verify_C14_AddLocalType)
	vs.Register("C14", "Verify_C14_AddGlobalType", Verify_C14_AddGlobalType)
}

func c14Pos(what string) *BasePosition {
	return &BasePosition{File: vs.Pick("file "+what, "/v/a.bb", "/v/b.bb", ""), Line: int(vs.Int("line "+what, 0, 1<<31)), Column: int(vs.Int("column "+what, 0, 1<<31))}
}

// c14Table says what adding a name to the tables of a unit does, for a unit
// whose tables are known only at this name: the tables themselves behave as
// C18 has it.
func c14Table(add func(u *CompilationUnit, name string, pos *BasePosition) error, own bool) {
	u := NewCompilationUnit(&FileIdentifer{Name: "a.bb", Path: "/v/a.bb"})
	name := vs.Pick("name", "A", "Ab", "")
	pos, prev := c14Pos("new"), c14Pos("first")
	present := vs.Bool("declared")
	if present {
		u.GlobalNames.Put(name, prev)
	}
	u.GlobalNames.Put("Other", prev)
	same := vs.And(pos.File == prev.File, vs.And(pos.Line == prev.Line, pos.Column == prev.Column))
	err := add(u, name, pos)
	vs.Assert("refused exactly when the name is declared somewhere else", (err != nil) == vs.And(present, !same))
	got, ok := u.GlobalNames.Get(name)
	vs.Assert("the name is known", ok)
	g := got
	vs.Assert("the declaration in force is the first", vs.Or(!present, vs.And(g.GetFile() == prev.File, vs.And(g.GetLine() == prev.Line, g.GetColumn() == prev.Column))))
	vs.Assert("or else this one", vs.Or(present, vs.And(g.GetFile() == pos.File, vs.And(g.GetLine() == pos.Line, g.GetColumn() == pos.Column))))
	vs.Assert("an accepted name belongs to the unit when it is its own", err != nil || u.LocalNames.Has(name) == own)
	vs.Assert("other names stay as they are", u.GlobalNames.Has("Other") && u.LocalNames.Len() <= 1)
}

func c14Type(name string, pos *BasePosition) CustomType {
	if vs.Choose("type", 2) == 0 {
		return &Enum{BasePosition: *pos, EnumName: name}
	}
	return &Struct{BasePosition: *pos, StructName: name, StructFields: util.NewOrderedMap[string, Field]()}
}

func Verify_C14_AddLocalName() {
	c14Table(func(u *CompilationUnit, name string, pos *BasePosition) error { return u.AddLocalName(name, pos) }, true)
}

func Verify_C14_AddGlobalName() {
	c14Table(func(u *CompilationUnit, name string, pos *BasePosition) error { return u.AddGlobalName(name, pos) }, false)
}

func Verify_C14_AddLocalType() {
	c14Table(func(u *CompilationUnit, name string, pos *BasePosition) error {
		err := u.AddLocalType(c14Type(name, pos))
		vs.Assert("an accepted type is known by its name", err != nil || u.LocalTypes.Has(name) && u.GlobalTypes.Has(name))
		return err
	}, true)
}

func Verify_C14_AddGlobalType() {
	c14Table(func(u *CompilationUnit, name string, pos *BasePosition) error {
		err := u.AddGlobalType(c14Type(name, pos))
		vs.Assert("an accepted type is visible by its name", err != nil || u.GlobalTypes.Has(name) && !u.LocalTypes.Has(name))
		return err
	}, false)
}
