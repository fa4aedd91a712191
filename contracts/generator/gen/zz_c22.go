package gen

import (
	"strings"

	vs "github.com/xaxys/bubbler/verifspec"
)

// ink is everything of a text one can see.
func ink(s string) string {
	return vs.Fold("ink", s, inkOf)
}

func inkOf(c rune) rune {
	if c == ' ' || c == '\t' || c == '\r' || c == '\n' {
		return -1
	}
	return c
}

func Inv_normalizeGeneratedIndent_1(lines, normalized []string, idx_ int) bool {
	return vs.And(idx_ >= -1 && idx_ < len(lines), vs.FoldAll("ink", normalized, inkOf) == vs.FoldAll("ink", lines[:idx_+1], inkOf))
}

func Verify_C22_Normalize() {
	s := vs.Str("s", "a \n\t\rb", 10)
	vs.Assert("normalisation keeps what is visible, in order", ink(normalizeGeneratedIndent(s)) == ink(s))
}

// Search_C22_NormalizeLong: texts far beyond any buffer.
func Search_C22_NormalizeLong() {
	if vs.Symbolic() {
		return
	}
	a, b := vs.Str("s", "a \n\tb", 5), vs.Str("t", "a \n\tb", 5)
	n := vs.Pick("repeated", "1", "4000", "70000", "300000")
	k := map[string]int{"1": 1, "4000": 4000, "70000": 70000, "300000": 300000}[n]
	s := b + strings.Repeat(a, k) + b
	see := func(s string) string {
		return strings.Map(func(c rune) rune {
			if c == ' ' || c == '\t' || c == '\n' {
				return -1
			}
			return c
		}, s)
	}
	vs.Assert("long texts keep what is visible, in order", see(normalizeGeneratedIndent(s)) == see(s))
}

func Search_C22_NormalizeLayout() {
	s := vs.Str("s", "a \n\t\rb", 10)
	vs.Assume(!strings.Contains(strings.ReplaceAll(s, "\r\n", "\n"), "\r")) // line breaks are \n or \r\n
	r := normalizeGeneratedIndent(s)
	vs.Assert("normalising again changes nothing", normalizeGeneratedIndent(r) == r)
	vs.Assert("a generated text ends with one line break", strings.HasSuffix(r, "\n") && !strings.HasSuffix(r, "\n\n"))
	t := strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\t", "    ")
	var in, out []string
	for _, l := range strings.Split(t, "\n") {
		if l = strings.TrimRight(l, " "); l != "" {
			in = append(in, l)
		}
	}
	for _, l := range strings.Split(r, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	vs.Assert("every line with something on it stays one line with its indentation", strings.Join(in, "\n") == strings.Join(out, "\n"))
}

func init() {
	vs.Register("C22", "Verify_C22_Normalize", Verify_C22_Normalize)
	vs.Register("C22", "Search_C22_NormalizeLayout", Search_C22_NormalizeLayout)
	vs.Register("C22", "Search_C22_NormalizeLong", Search_C22_NormalizeLong)
}
