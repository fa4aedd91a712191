package util

import (
	"strings"

	vs "github.com/xaxys/bubbler/verifspec"
)

// noSpace and noTab are all of a text but its spaces, or its tabs; line
// breaks count.
func noSpace(s string) string {
	return vs.Fold("nospace", s, func(c rune) rune {
		if c == ' ' {
			return -1
		}
		return c
	})
}

func noTab(s string) string {
	return vs.Fold("notab", s, func(c rune) rune {
		if c == '\t' {
			return -1
		}
		return c
	})
}

// amount is any number of steps; runs on the compiled code stay small.
func amount() int {
	if vs.Symbolic() {
		return int(vs.Int("n", 0, 1<<31))
	}
	return int(vs.Int("n", 0, 12))
}

const textChars = "a \nb\t}"

func Verify_C22_IndentSpace() {
	s := vs.Str("s", textChars, 9)
	n := amount()
	vs.Assert("IndentSpace keeps everything but spaces", noSpace(IndentSpace(s, n)) == noSpace(s))
	vs.Assert("IndentSpaceNoFirst keeps everything but spaces", noSpace(IndentSpaceNoFirst(s, n)) == noSpace(s))
}

func Verify_C22_IndentTab() {
	s := vs.Str("s", textChars, 9)
	n := amount()
	vs.Assert("IndentTab keeps everything but tabs", noTab(IndentTab(s, n)) == noTab(s))
}

func Verify_C22_IndentNamed() {
	s := vs.Str("s", textChars, 9)
	vs.Assert("IndentTab1 keeps everything but tabs", noTab(IndentTab1(s)) == noTab(s))
	vs.Assert("IndentSpace4 keeps everything but spaces", noSpace(IndentSpace4(s)) == noSpace(s))
	vs.Assert("IndentSpace8 keeps everything but spaces", noSpace(IndentSpace8(s)) == noSpace(s))
	vs.Assert("IndentSpace4NoFirst keeps everything but spaces", noSpace(IndentSpace4NoFirst(s)) == noSpace(s))
	vs.Assert("IndentSpace8NoFirst keeps everything but spaces", noSpace(IndentSpace8NoFirst(s)) == noSpace(s))
}

func Verify_C22_Slice() {
	s := vs.Str("s", "abc", 6)
	i := vs.Int("start", -6, 6)
	j := vs.Int("end", -6, 6)
	n := int64(len(s))
	lo, hi := i, j
	if lo < 0 {
		lo += n
	}
	if hi <= 0 {
		hi += n
	}
	vs.Assume(lo >= 0 && lo <= hi && hi <= n)
	vs.Assert("slice takes the part asked for", templateSlice(s, i, j) == s[lo:hi])
	vs.Assert("slice without an end goes to the end", templateSlice(s, i) == s[lo:])
	vs.Assert("slice of the text alone is the text", templateSlice(s) == s)
}

func Verify_C22_Iterate() {
	a := vs.Int("a", -3, 3)
	k := vs.Choose("count", 5)
	r := templateIterate(a, a+int64(k))
	vs.Assert("iterate gives as many numbers as asked", len(r) == k)
	for i := 0; i < k; i++ {
		vs.Assert("iterate counts upwards", r[i] == a+int64(i))
	}
}

// the lines of an indented text, one by one
func shifted(what, s, r, pad, cut string, first bool) {
	in, out := strings.Split(s, "\n"), strings.Split(r, "\n")
	vs.Assert(what+" keeps the number of lines", len(in) == len(out))
	for i := range in {
		if strings.Trim(in[i], " \t") == "" {
			vs.Assert(what+" leaves blank lines blank", strings.Trim(out[i], " \t") == "")
			continue
		}
		w := pad + in[i]
		if i == 0 && first {
			w = in[i]
		}
		if i == len(in)-1 {
			w = strings.TrimRight(w, cut)
		}
		vs.Assert(what+" shifts a line by the amount asked for", out[i] == w)
	}
}

func Search_C22_Shift() {
	s := vs.Str("s", textChars, 9)
	n := vs.Choose("n", 9)
	p := strings.Repeat(" ", n)
	shifted("IndentSpace", s, IndentSpace(s, n), p, " ", false)
	shifted("IndentSpaceNoFirst", s, IndentSpaceNoFirst(s, n), p, " ", true)
	shifted("IndentTab", s, IndentTab(s, n), strings.Repeat("\t", n), "\t", false)
	shifted("IndentTab1", s, IndentTab1(s), "\t", "\t", false)
	shifted("IndentSpace4", s, IndentSpace4(s), "    ", " ", false)
	shifted("IndentSpace8", s, IndentSpace8(s), "        ", " ", false)
	shifted("IndentSpace4NoFirst", s, IndentSpace4NoFirst(s), "    ", " ", true)
	shifted("IndentSpace8NoFirst", s, IndentSpace8NoFirst(s), "        ", " ", true)
}

func Search_C22_Template() {
	s := vs.Str("s", "a \nb\\\r}", 9)
	body := "{{define \"T\"}}" + s + "{{end}}"
	want := s
	for _, nl := range []string{"\r\n", "\r", "\n"} {
		want = strings.ReplaceAll(want, "\\"+nl, "")
	}
	vs.Assert("a template without actions comes out as written, its continued lines joined", ExecuteTemplate(body, "T", nil, nil) == want)
	v := vs.Str("v", "a<&\"\n ", 4)
	body = "{{define \"T\"}}x" + s + "{{.V}}|{{indent 4 .V}}|{{indentspace 4 .V}}{{end}}"
	got := ExecuteTemplate(body, "T", nil, map[string]interface{}{"V": v})
	vs.Assert("the values of a template come out unchanged", got == "x"+joinCont(s, "")+v+"|"+IndentSpace(v, 4)+"|"+IndentSpaceNoFirst(v, 4))
}

func joinCont(s, _ string) string {
	for _, nl := range []string{"\r\n", "\r", "\n"} {
		s = strings.ReplaceAll(s, "\\"+nl, "")
	}
	return s
}

func Search_C22_Helpers() {
	s := vs.Str("s", "ab,.", 7)
	sep := vs.Pick("sep", ",", ".", "ab")
	vs.Assert("split keeps the parts", strings.Join(templateSplit(s, sep), sep) == s)
	d := templateDict("k", s, "l", 3)
	vs.Assert("dict holds what it is given", len(d) == 2 && d["k"] == s && d["l"] == 3)
}

func init() {
	vs.Register("C22", "Verify_C22_IndentSpace", Verify_C22_IndentSpace)
	vs.Register("C22", "Verify_C22_IndentTab", Verify_C22_IndentTab)
	vs.Register("C22", "Verify_C22_IndentNamed", Verify_C22_IndentNamed)
	vs.Register("C22", "Verify_C22_Slice", Verify_C22_Slice)
	vs.Register("C22", "Verify_C22_Iterate", Verify_C22_Iterate)
	vs.Register("C22", "Search_C22_Shift", Search_C22_Shift)
	vs.Register("C22", "Search_C22_Template", Search_C22_Template)
	vs.Register("C22", "Search_C22_Helpers", Search_C22_Helpers)
}
