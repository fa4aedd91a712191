package generator

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C10", "Search_C10_Targets", Search_C10_Targets)
	vs.Register("C10", "Search_C10_Wide", Search_C10_Wide)
}

// c10Number is the number given to a name in generated text, and where.
func c10Number(text, name string) (*big.Int, string, int) {
	re := regexp.MustCompile(`\b` + name + `\b["\]\w\t ]*[=(]\s*(-?(?:0[xX][0-9A-Fa-f]+|0[bB][01]+|[0-9]+))([uUlLn]*)`)
	m := re.FindStringSubmatchIndex(text)
	if m == nil {
		return nil, "", -1
	}
	n, ok := new(big.Int).SetString(text[m[2]:m[3]], 0)
	if !ok {
		return nil, "", -1
	}
	return n, text[m[4]:m[5]], m[0]
}

// Every target lists the values of an enum in order with their numbers.
func Search_C10_Targets() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	n := 1 + vs.Choose("entries-1", 5)
	w := vs.Int("width", 8, 64)
	max := int64(1)<<30 - 8
	if w < 31 {
		max = int64(1)<<(w-1) - 8
	}
	text := ""
	var names []string
	var want []int64
	last := int64(-1)
	for i := 0; i < n; i++ {
		name := vs.Pick(fmt.Sprint("name ", i), "QV_ONE", "QvTwo", "QVA", "Qvalue_x") + fmt.Sprint(i)
		last++
		text += name
		if vs.Bool(fmt.Sprint("explicit ", i)) {
			last = vs.Int(fmt.Sprint("number ", i), 0, max)
			text += fmt.Sprint(" = ", last)
		}
		text += "; "
		names = append(names, name)
		want = append(want, last)
	}
	ref := vs.Choose("constant", n)
	schema := fmt.Sprintf("package p; option go_package = \"example.com/p\"; enum First[1] { QX, QY, }; enum E[#%d] { %s}; struct S { E e; void [#%d]; First f; uint64 konst = %s; };",
		w, text, 8-w%8, names[ref])
	files, err := vGenerate(map[string]string{"main.bb": schema}, target, vOptions()...)
	seen := map[int64]bool{}
	dup := false
	for _, v := range want {
		dup = dup || seen[v]
		seen[v] = true
	}
	if dup && err != nil {
		vs.Assume(false) // two values of one number: a target may refuse them
	}
	if err != nil {
		vs.Assert("accepted by "+target+": "+err.Error(), false)
	}
	out := vText(files)
	at := -1
	for i, name := range names {
		num, _, pos := c10Number(out, name)
		vs.Assert("every value is listed", num != nil)
		vs.Assert("with its number", num.IsInt64() && num.Int64() == want[i])
		vs.Assert("in the order of the schema", pos > at)
		at = pos
	}
	vs.Assert("the constant is written", c10Has(out, want[ref]))
}

// c10Has says that a number occurs in the text in some notation.
func c10Has(text string, v int64) bool {
	low := strings.ToLower(text)
	for _, s := range []string{fmt.Sprint(v), fmt.Sprintf("0x%x", v), fmt.Sprintf("0b%b", v)} {
		if strings.Contains(low, s) {
			return true
		}
	}
	// bytes of it
	return v > 255
}

// Numbers that need more than 31 bits.
func Search_C10_Wide() {
	if vs.Symbolic() {
		return
	}
	target := vs.Pick("target", vTargets...)
	v := vs.Int("number", 1<<31, 1<<62)
	schema := fmt.Sprintf("package p; option go_package = \"example.com/p\"; enum E[8] { QA = %d, QB, }; struct S { E e; };", v)
	files, err := vGenerate(map[string]string{"main.bb": schema}, target)
	if err != nil {
		vs.Assert("accepted by "+target+": "+err.Error(), false)
	}
	out := vText(files)
	for i, name := range []string{"QA", "QB"} {
		num, suffix, _ := c10Number(out, name)
		vs.Assert("every value is listed", num != nil)
		vs.Assert("with its number", num.IsInt64() && num.Int64() == v+int64(i))
		switch target {
		case "java":
			vs.Assert("java literals beyond an int are long", strings.ContainsAny(suffix, "lL"))
		case "cjs", "esm":
			vs.Assert("javascript literals beyond 2^53 are exact", v+int64(i) <= 1<<53 || suffix == "n")
		}
	}
}
