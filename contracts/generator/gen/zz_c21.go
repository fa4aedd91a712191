package gen

import (
	"math"

	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C21", "Verify_C21_Unroll", Verify_C21_Unroll)
	vs.Register("C21", "Verify_C21_SignExt", Verify_C21_SignExt)
	vs.Register("C21", "Verify_C21_Settings", Verify_C21_Settings)
	vs.Register("C21", "Verify_C21_RemovePath", Verify_C21_RemovePath)
}

// The unroll threshold is -1 or more; it alone is set.
func Verify_C21_Unroll() {
	n := vs.Int("threshold", math.MinInt64, math.MaxInt64)
	set, err := LoopUnroll(int(n))
	vs.Assert("accepted exactly from -1", (err == nil) == (n >= -1))
	if err != nil {
		vs.Assert("and nothing to apply otherwise", set == nil)
		return
	}
	o := NewGenOptions(set)
	vs.Assert("the threshold is the one given", o.LoopUnroll == int(n))
	vs.Assert("and nothing else is set", c21Plain(o) && o.SignExtMethod == SignExtMethodDefault)
}

func c21Plain(o *GenOptions) bool {
	return !o.RelativePath && !o.InnerClass && !o.SingleFile && !o.MinimalCode && !o.DecimalNumber && !o.MemoryCopy && !o.CompatibleMode && len(o.RemovePath) == 0
}

// The methods of sign extension.
func Verify_C21_SignExt() {
	s := vs.Pick("method", "", "default", "shift", "arith", "Shift", "ARITH", "aRith", "shif", "shiftx", " shift", "arithmetic", "0", "none", "sar", "DEFAULT", "false")
	set, err := SignExtMethod(s)
	want := SignExtMethodDefault
	good := true
	switch s {
	case "", "default", "DEFAULT":
	case "shift", "Shift":
		want = SignExtMethodShift
	case "arith", "ARITH", "aRith":
		want = SignExtMethodArith
	default:
		good = false
	}
	vs.Assert("accepted exactly when it is a method", (err == nil) == good)
	if err != nil {
		vs.Assert("and nothing to apply otherwise", set == nil)
		return
	}
	o := NewGenOptions(set)
	vs.Assert("the method is the one named", o.SignExtMethod == want)
	vs.Assert("and nothing else is set", c21Plain(o) && o.LoopUnroll == 4)
}

// Every setting sets its own field to the given value and no other; without a
// setting the fields have their documented defaults.
func Verify_C21_Settings() {
	o := NewGenOptions()
	vs.Assert("documented defaults", c21Plain(o) && o.LoopUnroll == 4 && o.SignExtMethod == SignExtMethodDefault)
	var v, given [7]bool
	for i, n := range []string{"relpath", "single", "inner", "minimal", "decnum", "memcpy", "compat"} {
		given[i] = vs.Bool("given " + n)
		if given[i] {
			v[i] = vs.Bool(n)
		}
	}
	sets := []func(bool) GenOptionSetter{RelativePath, SingleFile, InnerClass, MinimalCode, DecimalNumber, MemoryCopy, CompatibleMode}
	var all []GenOptionSetter
	for i, f := range sets {
		if given[i] {
			all = append(all, f(v[i]))
		}
	}
	o = NewGenOptions(all...)
	got := [7]bool{o.RelativePath, o.SingleFile, o.InnerClass, o.MinimalCode, o.DecimalNumber, o.MemoryCopy, o.CompatibleMode}
	for i := range got {
		vs.Assert("each has its value", got[i] == v[i])
	}
	vs.Assert("the others are the defaults", o.LoopUnroll == 4 && o.SignExtMethod == SignExtMethodDefault && len(o.RemovePath) == 0)
}

// The path prefixes are the parts between commas without slashes at the end.
func Verify_C21_RemovePath() {
	n := 1 + vs.Choose("parts-1", 3)
	var want []string
	text := ""
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		p := vs.Pick("part "+id, "", "a", "a/b", "x.y/z")
		tail := vs.Pick("tail "+id, "", "/", "//", "///")
		if i > 0 {
			text += ","
		}
		text += p + tail
		want = append(want, p)
	}
	o := NewGenOptions(RemovePath(text))
	vs.Assert("as many as given", len(o.RemovePath) == len(want))
	for i := range want {
		vs.Assert("each without slashes at the end", o.RemovePath[i] == want[i])
	}
}
