package compiler

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C16", "Verify_C16_Decimal", Verify_C16_Decimal)
	vs.Register("C16", "Verify_C16_Typed", Verify_C16_Typed)
	vs.Register("C16", "Verify_C16_IntNotations", Verify_C16_IntNotations)
	vs.Register("C16", "Verify_C16_OtherNotations", Verify_C16_OtherNotations)
	vs.Register("C16", "Verify_C16_Strings", Verify_C16_Strings)
	vs.Register("C16", "Search_C16_Ints", Search_C16_Ints)
	vs.Register("C16", "Search_C16_Floats", Search_C16_Floats)
	vs.Register("C16", "Search_C16_Texts", Search_C16_Texts)
}

// c16Literal compiles a literal as the value of an option, where literals of
// every kind may stand.
func c16Literal(text string) (definition.Literal, error) {
	u, err := vCompile(vJoin("package p; option o = ", text, "; struct S { uint8 a; };"))
	if err != nil {
		return nil, err
	}
	return u.Options.MustGet("o").OptionValue, nil
}

func c16Refused(err error) bool {
	_, ok := vCause(err).(*definition.InvalidLiteralError)
	return ok
}

// Every decimal number of 63 bits, with each sign.
func Verify_C16_Decimal() {
	n := vs.Int("value", 0, math.MaxInt64)
	sign := vs.Pick("sign", "", "-", "+", "- ")
	l, err := c16Literal(vJoin(sign, vs.Lit(n)))
	vs.Assert("accepted", err == nil)
	want := n
	if sign == "-" || sign == "- " {
		want = -n
	}
	i, ok := l.(*definition.IntLiteral)
	vs.Assert("an integer", ok)
	vs.Assert("of the value written", i.IntValue == want)
	vs.Assert("which is signed", !i.Unsigned)
	vs.Assert("and it is what uses of the literal see", l.GetLiteralValue() == want)
}

// The value of an integer literal in each type that can hold it.
func Verify_C16_Typed() {
	n := vs.Int("value", math.MinInt64, math.MaxInt64)
	l := &definition.IntLiteral{IntValue: n}
	k := vs.Choose("type", 8)
	lo, hi := int64(0), int64(0)
	switch k {
	case 0, 1, 2:
		hi = int64(1)<<(8<<k) - 1
	case 3:
		hi = math.MaxInt64
	case 4, 5, 6:
		hi = int64(1)<<(8<<(k-4)-1) - 1
		lo = -hi - 1
	case 7:
		lo, hi = math.MinInt64, math.MaxInt64
	}
	vs.Assume(vs.And(n >= lo, n <= hi))
	ids := []definition.TypeID{definition.TypeID_Uint8, definition.TypeID_Uint16, definition.TypeID_Uint32, definition.TypeID_Uint64, definition.TypeID_Int8, definition.TypeID_Int16, definition.TypeID_Int32, definition.TypeID_Int64}
	same := false
	switch v := l.GetLiteralValueIn(ids[k]).(type) {
	case uint8:
		same = vs.And(k == 0, int64(v) == n)
	case uint16:
		same = vs.And(k == 1, int64(v) == n)
	case uint32:
		same = vs.And(k == 2, int64(v) == n)
	case uint64:
		same = vs.And(k == 3, int64(v) == n)
	case int8:
		same = vs.And(k == 4, int64(v) == n)
	case int16:
		same = vs.And(k == 5, int64(v) == n)
	case int32:
		same = vs.And(k == 6, int64(v) == n)
	case int64:
		same = vs.And(k == 7, v == n)
	}
	vs.Assert("is the same number, of that type", same)
}

// The notations of integers at the ends of their ranges.
func Verify_C16_IntNotations() {
	texts := []string{"0", "00", "0x0", "0X1f", "0xabcDEF", "017", "0777777777777777777777", "1", "255", "0x7FFFFFFFFFFFFFFF", "9223372036854775807",
		"0x0000000000000000000001", "0100", "0x10", "0X7fffffff", "4294967296",
		"9223372036854775808", "18446744073709551615", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "01000000000000000000000", "99999999999999999999999", "0x10000000000000000"}
	values := []int64{0, 0, 0, 31, 0xabcdef, 15, math.MaxInt64, 1, 255, math.MaxInt64, math.MaxInt64, 1, 64, 16, math.MaxInt32, 1 << 32}
	i := vs.Choose("notation", len(texts))
	neg := vs.Bool("negative")
	text := texts[i]
	if neg {
		text = "-" + text
	}
	l, err := c16Literal(text)
	vs.Assert("accepted exactly when it fits 64 bits", (err == nil) == (i < len(values)))
	if err != nil {
		vs.Assert("refused as a literal", c16Refused(err))
		return
	}
	want := values[i]
	if neg {
		want = -want
	}
	vs.Assert("the usual value", l.GetLiteralValue() == want)
}

// Floats and truth values.
func Verify_C16_OtherNotations() {
	texts := []string{"0.0", "1.", ".5", "1.5e3", "1e3", "1E+3", "25e-1", ".5E1", "0.1", "1e308", "4.9e-324", "true", "false", "inf"}
	values := []any{0.0, 1.0, 0.5, 1500.0, 1000.0, 1000.0, 2.5, 5.0, 0.1, 1e308, 4.9e-324, true, false, math.Inf(1)}
	i := vs.Choose("notation", len(texts)+2)
	if i >= len(texts) {
		_, err := c16Literal([]string{"1e309", "1e99999"}[i-len(texts)])
		vs.Assert("a float that is too large is refused", err != nil)
		vs.Assert("as a literal", c16Refused(err))
		return
	}
	neg := i < 11 && vs.Bool("negative")
	text := texts[i]
	if neg {
		text = "-" + text
	}
	l, err := c16Literal(text)
	vs.Assert("accepted", err == nil)
	want := values[i]
	if neg {
		want = -want.(float64)
	}
	vs.Assert("the usual value", l.GetLiteralValue() == want)
}

// Texts in both kinds of quotes with every escape of the grammar.
func Verify_C16_Strings() {
	parts := []string{"", "a", " ", `\n`, `\t`, `\\`, `\"`, `\'`, `\x41`, `\X4a`, `\101`, `\0617`, `\a`, `\b`, `\f`, `\r`, `\v`, "\u00e9", "/", "$", `\\n`}
	values := []string{"", "a", " ", "\n", "\t", `\`, `"`, `'`, "A", "J", "A", "17", "\a", "\b", "\f", "\r", "\v", "\u00e9", "/", "$", `\n`}
	i, j := vs.Choose("first", len(parts)), vs.Choose("second", len(parts))
	q := vs.Pick("quote", `"`, `'`)
	l, err := c16Literal(vJoin(q, parts[i], parts[j], q))
	vs.Assert("accepted", err == nil)
	s, ok := l.GetLiteralValue().(string)
	vs.Assert("a text", ok)
	vs.Assert("the usual characters", s == values[i]+values[j])
}

func Search_C16_Ints() {
	if vs.Symbolic() {
		return
	}
	n := vs.Int("value", math.MinInt64, math.MaxInt64)
	u := uint64(n) >> uint(vs.Choose("shift", 64))
	f := vs.Pick("format", "%d", "0x%x", "0X%X", "0%o", "0x000%X", "-0x%x", "-%d", "+%d", "-0%o")
	text := fmt.Sprintf(f, u)
	if vs.Bool("a digit more") {
		text += "7"
	}
	want, ok := new(big.Int).SetString(text, 0)
	vs.Assume(ok)
	l, err := c16Literal(text)
	fits := new(big.Int).Abs(want).IsInt64()
	vs.Assert("accepted exactly when it fits", (err == nil) == fits)
	if err == nil {
		vs.Assert("the usual value", l.GetLiteralValue() == want.Int64())
	}
}

func Search_C16_Floats() {
	if vs.Symbolic() {
		return
	}
	bits := vs.Int("bits", math.MinInt64, math.MaxInt64)
	v := math.Float64frombits(uint64(bits) &^ (1 << 63))
	vs.Assume(!math.IsInf(v, 0) && !math.IsNaN(v))
	text := strconv.FormatFloat(v, vs.Pick("format", "e", "E", "f")[0], -1, 64)
	plain := true
	for _, c := range text {
		plain = plain && c != '.' && c != 'e' && c != 'E'
	}
	if plain {
		text += "."
	}
	l, err := c16Literal(text)
	vs.Assert("accepted", err == nil)
	got, ok := l.GetLiteralValue().(float64)
	vs.Assert("the usual value", ok && got == v)
}

func Search_C16_Texts() {
	if vs.Symbolic() {
		return
	}
	n := vs.Choose("length", 7)
	q := vs.Pick("quote", `"`, `'`)
	text, want := "", ""
	for i := 0; i < n; i++ {
		c := byte(vs.Int(fmt.Sprint("char ", i), 1, 255))
		form := vs.Choose(fmt.Sprint("form ", i), 4)
		switch {
		case form == 0 && c >= ' ' && c < 127 && c != '\\' && string(c) != q:
			text += string(c)
		case form == 1:
			text += fmt.Sprintf(`\x%02x`, c)
		case form == 2:
			text += fmt.Sprintf(`\X%02X`, c)
		default:
			text += fmt.Sprintf(`\%03o`, c)
		}
		want += string([]byte{c})
	}
	l, err := c16Literal(q + text + q)
	vs.Assert("accepted", err == nil)
	vs.Assert("the usual characters", l.GetLiteralValue() == want)
}
