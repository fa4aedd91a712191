package gcv

// DemoFile is a small schema with every field kind, used in development.
func DemoFile() *SFile {
	kind := &SEnum{Name: "Kind", W: 4, Items: []SItem{{Name: "K_A", Expl: true, Val: 0}, {Name: "K_B", Expl: true, Val: 3}, {Name: "K_C", Val: 4}}}
	inner := &SStruct{Name: "Inner", Fields: []*SField{fld("x", tUint(8), 0), fld("y", tInt(16), 12), fld("z", tUint(8), 4)}}
	fix := &SStruct{Name: "Fix", Fields: []*SField{
		fld("kind", tEnum(kind), 0),
		fld("flag", tBool(), 1),
		fld("s", tInt(8), 3),
		constF("hdr", tUint(16), 0, "0xAA55", 0xAA55).big(),
		fld("w", tInt(32), 20).big(),
		voidF(4),
		fld("f", tFloat(32), 0),
		fld("arr", tArr(tUint(16), 2), 12),
		fld("inn", tStruct(inner), 0),
		fld("big", tArr(tInt(32), 6), 20),
		fld("u64", tUint(64), 60),
		voidF(4),
		fld("n2", tArr(tStruct(inner), 5), 0),
	}}
	dyn := &SStruct{Name: "Dyn", Fields: []*SField{
		fld("a", tUint(8), 0), fld("s", tStr(), 0), fld("b", tBytes(), 0), fld("c", tUint(16), 0).big(), fld("ss", tArr(tStr(), 2), 0), fld("js", tArr(tStruct(inner), 5), 0),
	}}
	return &SFile{Pkg: "m", Enums: []*SEnum{kind}, Structs: []*SStruct{inner, fix, dyn}}
}
