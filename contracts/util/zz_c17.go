package util

import (
	"strings"

	vs "github.com/xaxys/bubbler/verifspec"
)

// content is what a name says: its letters and digits, case aside.
func content(s string) string {
	return vs.Fold("content", s, func(c rune) rune {
		if c == '_' {
			return -1
		}
		if c >= 'A' && c <= 'Z' {
			return c - 'A' + 'a'
		}
		return c
	})
}

// offUpper and offLower are the characters that do not belong in a name of
// capitals, or of small letters.
func offUpper(s string) string {
	return vs.Fold("offupper", s, func(c rune) rune {
		if c == '_' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			return -1
		}
		return c
	})
}

func offLower(s string) string {
	return vs.Fold("offlower", s, func(c rune) rune {
		if c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			return -1
		}
		return c
	})
}

// offName is the characters that do not occur in identifiers.
func offName(s string) string {
	return vs.Fold("offname", s, func(c rune) rune {
		if c == '_' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' {
			return -1
		}
		return c
	})
}

const nameChars = "aB_1Zc"

func Inv_toPascalCase_1(s, ret string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), content(ret) == content(s[:pos_]))
}

func Inv_tocamelCase_1(s, ret string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), content(ret) == content(s[:pos_]))
}

func Inv_tosnake_case_1(s, ret string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), vs.And(content(ret) == content(s[:pos_]), vs.Implies(offName(s[:pos_]) == "", offLower(ret) == "")))
}

func Inv_toALLCAP_CASE_1(s, ret string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), vs.And(content(ret) == content(s[:pos_]), vs.Implies(offName(s[:pos_]) == "", offUpper(ret) == "")))
}

func Inv_CutPrefixUnderscore_1(s string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), vs.And(content(s[:pos_]) == "", vs.And(offLower(s[:pos_]) == "", offUpper(s[:pos_]) == "")))
}

func Inv_CutSuffixUnderscore_1(s string, i int) bool {
	return vs.And(i >= -1 && i < len(s), vs.And(content(s[i+1:]) == "", vs.And(offLower(s[i+1:]) == "", offUpper(s[i+1:]) == "")))
}

func Inv_IsAllUpper_1(s string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), offUpper(s[:pos_]) == "")
}

func Inv_IsAllLower_1(s string, pos_ int) bool {
	return vs.And(pos_ >= 0 && pos_ <= len(s), offLower(s[:pos_]) == "")
}

func Verify_C17_Pascal() {
	s := vs.Str("s", nameChars, 7)
	vs.Assert("ToPascalCase keeps letters and digits in order", content(toPascalCase(s)) == content(s))
}

func Verify_C17_Camel() {
	s := vs.Str("s", nameChars, 7)
	vs.Assert("TocamelCase keeps letters and digits in order", content(tocamelCase(s)) == content(s))
}

func Verify_C17_Snake() {
	s := vs.Str("s", nameChars, 7)
	r := tosnake_case(s)
	vs.Assert("Tosnake_case keeps letters and digits in order", content(r) == content(s))
	vs.Assert("Tosnake_case leaves no capital", vs.Implies(offName(s) == "", offLower(r) == ""))
}

func Verify_C17_AllCap() {
	s := vs.Str("s", nameChars, 7)
	r := toALLCAP_CASE(s)
	vs.Assert("ToALLCAP_CASE keeps letters and digits in order", content(r) == content(s))
	vs.Assert("ToALLCAP_CASE leaves no small letter", vs.Implies(offName(s) == "", offUpper(r) == ""))
}

func Spec_IsAllUpper(s string, r bool) bool {
	return r == vs.And(s != "", offUpper(s) == "")
}

func Verify_C17_Recognisers() {
	vs.Inline("IsAllUpper")
	s := vs.Str("s", nameChars+".", 5)
	vs.Assert("IsAllUpper accepts exactly capitals, digits and underscores", IsAllUpper(s) == (len(s) > 0 && offUpper(s) == ""))
	vs.Assert("IsAllLower accepts exactly small letters, digits and underscores", IsAllLower(s) == (len(s) > 0 && offLower(s) == ""))
}

// onlyUnderscores holds the parts the converters set aside.
func onlyUnderscores(s string) bool {
	return vs.And(content(s) == "", vs.And(offLower(s) == "", offUpper(s) == ""))
}

func Spec_CutPrefixUnderscore(s, prefix, rest string) bool {
	return vs.And(onlyUnderscores(prefix), vs.And(content(rest) == content(s), vs.And(
		vs.Implies(offName(s) == "", offName(rest) == ""), rest == "" || rest[0] != '_')))
}

func Spec_CutSuffixUnderscore(s, rest, suffix string) bool {
	return vs.And(onlyUnderscores(suffix), vs.And(content(rest) == content(s), vs.And(
		vs.Implies(offName(s) == "", offName(rest) == ""), vs.Implies(s == "" || s[0] != '_', rest == "" || rest[0] != '_'))))
}

func Verify_C17_CutPrefix() {
	vs.Inline("CutPrefixUnderscore")
	s := vs.Str("s", nameChars, 7)
	p, r := CutPrefixUnderscore(s)
	vs.Assert("CutPrefixUnderscore splits the name", p+r == s)
	vs.Assert("CutPrefixUnderscore takes underscores only", onlyUnderscores(p))
	vs.Assert("CutPrefixUnderscore takes all of them", r == "" || r[0] != '_')
	vs.Assert("the contract of CutPrefixUnderscore", Spec_CutPrefixUnderscore(s, p, r))
}

func Verify_C17_CutSuffix() {
	vs.Inline("CutSuffixUnderscore")
	s := vs.Str("s", nameChars, 7)
	q, u := CutSuffixUnderscore(s)
	vs.Assert("CutSuffixUnderscore splits the name", q+u == s)
	vs.Assert("CutSuffixUnderscore takes underscores only", onlyUnderscores(u))
	vs.Assert("CutSuffixUnderscore takes all of them", q == "" || q[len(q)-1] != '_')
	vs.Assert("the contract of CutSuffixUnderscore", Spec_CutSuffixUnderscore(s, q, u))
}

func Verify_C17_Chars() {
	c := rune(vs.Int("c", 0, 0x10ffff))
	vs.Assert("IsUpper", IsUpper(c) == vs.And(c >= 'A', c <= 'Z'))
	vs.Assert("IsLower", IsLower(c) == vs.And(c >= 'a', c <= 'z'))
	vs.Assert("IsDigit", IsDigit(c) == vs.And(c >= '0', c <= '9'))
	vs.Assert("IsLetter", IsLetter(c) == vs.Or(vs.And(c >= 'A', c <= 'Z'), vs.And(c >= 'a', c <= 'z')))
	vs.Assert("upper case of the lower case of a letter", vs.Implies(IsLetter(c), ToUpper(ToLower(c)) == ToUpper(c) && ToLower(ToUpper(c)) == ToLower(c) && IsUpper(ToUpper(c)) && IsLower(ToLower(c))))
	vs.Assert("other characters have no case", vs.Implies(!IsLetter(c), ToUpper(c) == c && ToLower(c) == c))
	vs.Assert("the case of a letter", vs.And(vs.Implies(IsUpper(c), ToLower(c) == c+32), vs.Implies(IsLower(c), ToUpper(c) == c-32)))
}

// What follows runs on the compiled code only: it compares several runs of the
// converters, over every name up to a length and random longer ones.

func lettered(s string) bool {
	t := strings.TrimLeft(s, "_")
	return t != "" && (t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z')
}

func Search_C17_Dotted() {
	s := vs.Str("s", nameChars+".", 6)
	for i, f := range []func(string) string{ToPascalCase, TocamelCase, Tosnake_case, ToALLCAP_CASE} {
		g := []func(string) string{toPascalCase, tocamelCase, tosnake_case, toALLCAP_CASE}[i]
		ps, qs := strings.Split(s, "."), strings.Split(f(s), ".")
		vs.Assert("conversion keeps the number of dotted parts", len(ps) == len(qs))
		for j := range ps {
			vs.Assert("conversion converts every dotted part", qs[j] == g(ps[j]))
		}
	}
}

func Search_C17_Again() {
	s := vs.Str("s", nameChars, 8)
	vs.Assume(lettered(s))
	a := Tosnake_case(s)
	vs.Assert("snake_case stays", Tosnake_case(a) == a)
	a = ToALLCAP_CASE(s)
	vs.Assert("ALLCAP_CASE without digits stays", strings.Contains(a, "1") || ToALLCAP_CASE(a) == a)
	a = TocamelCase(s)
	vs.Assert("camelCase stays", TocamelCase(a) == a)
	a = ToPascalCase(s)
	vs.Assert("PascalCase with a small letter stays", IsAllUpper(a) || ToPascalCase(a) == a)
	vs.Assert("PascalCase is capitalised", IsCapitalized(a))
	vs.Assert("camelCase is not capitalised", IsUncapitalized(TocamelCase(s)))
	vs.Assert("snake_case is recognised", IsAllLower(Tosnake_case(s)) && IsUncapitalized(Tosnake_case(s)))
	vs.Assert("ALLCAP_CASE is recognised", IsAllUpper(ToALLCAP_CASE(s)) && IsCapitalized(ToALLCAP_CASE(s)))
	for _, t := range []string{ToPascalCase(s), TocamelCase(s)} {
		vs.Assert("no underscore inside PascalCase and camelCase", !strings.Contains(strings.Trim(t, "_"), "_"))
	}
	for _, t := range []string{Tosnake_case(s), ToALLCAP_CASE(s)} {
		vs.Assert("no doubled underscore inside snake_case and ALLCAP_CASE", !strings.Contains(strings.Trim(t, "_"), "__"))
	}
	if words := strings.Split(strings.Trim(s, "_"), "_"); IsAllLower(s) && len(words) > 0 {
		var p []string
		for _, w := range words {
			if w != "" {
				p = append(p, strings.ToUpper(w[:1])+w[1:])
			}
		}
		pre, rest := CutPrefixUnderscore(s)
		_, suf := CutSuffixUnderscore(rest)
		vs.Assert("PascalCase capitalises every word", ToPascalCase(s) == pre+strings.Join(p, "")+suf)
		vs.Assert("ALLCAP_CASE keeps the words", ToALLCAP_CASE(s) == pre+strings.ToUpper(strings.Join(lower(words), "_"))+suf)
	}
}

func lower(ws []string) []string {
	var out []string
	for _, w := range ws {
		if w != "" {
			out = append(out, w)
		}
	}
	return out
}

func init() {
	vs.Register("C17", "Verify_C17_Pascal", Verify_C17_Pascal)
	vs.Register("C17", "Verify_C17_Camel", Verify_C17_Camel)
	vs.Register("C17", "Verify_C17_Snake", Verify_C17_Snake)
	vs.Register("C17", "Verify_C17_AllCap", Verify_C17_AllCap)
	vs.Register("C17", "Verify_C17_Recognisers", Verify_C17_Recognisers)
	vs.Register("C17", "Verify_C17_CutPrefix", Verify_C17_CutPrefix)
	vs.Register("C17", "Verify_C17_CutSuffix", Verify_C17_CutSuffix)
	vs.Register("C17", "Verify_C17_Chars", Verify_C17_Chars)
	vs.Register("C17", "Search_C17_Dotted", Search_C17_Dotted)
	vs.Register("C17", "Search_C17_Again", Search_C17_Again)
}
