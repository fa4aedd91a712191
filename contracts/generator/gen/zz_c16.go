package gen

import (
	"math"
	"strconv"

	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C16", "Verify_C16_Int", Verify_C16_Int)
	vs.Register("C16", "Verify_C16_Make", Verify_C16_Make)
	vs.Register("C16", "Search_C16_Float", Search_C16_Float)
}

// c16Means says that a text is a literal of the number, in some base.
func c16Means(text string, neg bool, mag uint64) bool {
	sign := ""
	if neg {
		sign = "-"
	}
	is := func(prefix, verb string) bool { return text == sign+prefix+vs.Digits(mag, verb) }
	return vs.Or(vs.Or(is("", "d"), is("0x", "x")), vs.Or(is("0x", "X"), is("0b", "b")))
}

// Every integer, signed or not, in every base and with every option is written
// as a literal of its value.
func Verify_C16_Int() {
	n := vs.Int("value", math.MinInt64, math.MaxInt64)
	lit := &definition.IntLiteral{IntValue: n, Unsigned: vs.Bool("unsigned"), Base: definition.IntBase(vs.Choose("base", 4))}
	var opts *GenOptions
	if vs.Bool("with options") {
		opts = NewGenOptions(DecimalNumber(vs.Bool("decnum")))
	}
	text := FormatIntLiteral(lit, opts)
	if lit.Unsigned || n >= 0 {
		vs.Assert("the text is a literal of the value", c16Means(text, false, uint64(n)))
	} else {
		vs.Assert("the text is a literal of the negative value", c16Means(text, true, uint64(-n)))
	}
	if opts != nil && opts.DecimalNumber {
		dec := vs.Digits(uint64(n), "d")
		if !lit.Unsigned && n < 0 {
			dec = "-" + vs.Digits(uint64(-n), "d")
		}
		vs.Assert("in decimal where asked for", text == dec)
	}
}

// A literal made of a number has its value.
func Verify_C16_Make() {
	n := vs.Int("value", math.MinInt64, math.MaxInt64)
	base := definition.IntBase(vs.Choose("base", 4))
	var v any
	unsigned := true
	switch vs.Choose("type", 10) {
	case 0:
		v, unsigned = int(n), false
	case 1:
		n = int64(int8(n))
		v, unsigned = int8(n), false
	case 2:
		n = int64(int16(n))
		v, unsigned = int16(n), false
	case 3:
		n = int64(int32(n))
		v, unsigned = int32(n), false
	case 4:
		v, unsigned = n, false
	case 5:
		v = uint(n)
	case 6:
		n = int64(uint8(n))
		v = uint8(n)
	case 7:
		n = int64(uint16(n))
		v = uint16(n)
	case 8:
		n = int64(uint32(n))
		v = uint32(n)
	case 9:
		v = uint64(n)
	}
	lit := MakeIntLit(v, base)
	vs.Assert("with the value", lit.IntValue == n)
	vs.Assert("with its signedness where it matters", vs.Or(lit.Unsigned == unsigned, n >= 0))
	vs.Assert("and the base", lit.Base == base)
}

// Every finite float is written as a literal of exactly its value.
func Search_C16_Float() {
	if vs.Symbolic() {
		return
	}
	bits := vs.Int("bits", math.MinInt64, math.MaxInt64)
	v := math.Float64frombits(uint64(bits))
	switch vs.Choose("kind", 4) {
	case 1:
		v = float64(bits) / 1000
	case 2:
		v = float64(bits%100000) / 1e6
	case 3:
		v = float64(float32(v))
	}
	vs.Assume(!math.IsInf(v, 0) && !math.IsNaN(v))
	text := FormatFloatLiteral(&definition.FloatLiteral{FloatValue: v})
	got, err := strconv.ParseFloat(text, 64)
	vs.Assert("is a number", err == nil)
	vs.Assert("of the same value", got == v)
}
