package gcv

import (
	"fmt"
	"strings"
)

// Dialect of generated code.
type Dialect int

const (
	DC Dialect = iota
	DCpp
	DJava
	DCs
	DJs
	DKt
	DGo
	DPy
)

type tok struct {
	k    byte // 'i' ident, 'n' number, 's' string, 'c' char, 'p' punct, 'e' eof
	s    string
	nl   bool // newline before
	line int
}

var puncts = []string{
	">>>=", "<<=", ">>=", ">>>", "===", "!==", "...", "**=",
	"->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "::", "=>", "?.", "?:", "!!", "??", "**", "..",
}

type synErr struct{ msg string }

func (e synErr) Error() string { return e.msg }

func isIdStart(c byte) bool {
	return c == '_' || c == '$' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}
func isIdPart(c byte) bool { return isIdStart(c) || c >= '0' && c <= '9' }

func lex(src string, d Dialect) []tok {
	var out []tok
	line := 1
	nl := true
	i := 0
	n := len(src)
	var skip []bool // stack of preprocessor conditionals: true while skipping
	skipping := func() bool {
		for _, s := range skip {
			if s {
				return true
			}
		}
		return false
	}
	atLineStart := true
	for i < n {
		c := src[i]
		switch {
		case c == '\n':
			line++
			nl = true
			atLineStart = true
			i++
			continue
		case c == ' ' || c == '\t' || c == '\r':
			i++
			continue
		case c == '#' && atLineStart && (d == DC || d == DCpp || d == DCs):
			j := i
			for j < n && src[j] != '\n' {
				if src[j] == '\\' && j+1 < n && src[j+1] == '\n' {
					j++
					line++
				}
				j++
			}
			dir := strings.TrimSpace(src[i+1 : j])
			switch {
			case strings.HasPrefix(dir, "ifdef __cplusplus"):
				skip = append(skip, true)
			case strings.HasPrefix(dir, "if"):
				skip = append(skip, false)
			case strings.HasPrefix(dir, "else"), strings.HasPrefix(dir, "elif"):
				if len(skip) > 0 {
					skip[len(skip)-1] = !skip[len(skip)-1]
				}
			case strings.HasPrefix(dir, "endif"):
				if len(skip) > 0 {
					skip = skip[:len(skip)-1]
				}
			case strings.HasPrefix(dir, "define") && !skipping():
				out = append(out, tok{'d', strings.TrimSpace(dir[6:]), true, line})
			}
			i = j
			continue
		case c == '/' && i+1 < n && src[i+1] == '/':
			for i < n && src[i] != '\n' {
				i++
			}
			continue
		case c == '/' && i+1 < n && src[i+1] == '*':
			i += 2
			for i+1 < n && !(src[i] == '*' && src[i+1] == '/') {
				if src[i] == '\n' {
					line++
					nl = true
				}
				i++
			}
			i += 2
			continue
		}
		atLineStart = false
		start := i
		var t tok
		switch {
		case isIdStart(c):
			for i < n && isIdPart(src[i]) {
				i++
			}
			t = tok{'i', src[start:i], nl, line}
		case c >= '0' && c <= '9':
			i++
			hex := c == '0' && i < n && (src[i] == 'x' || src[i] == 'X')
			for i < n && (isIdPart(src[i]) || (src[i] == '.' && i+1 < n && src[i+1] >= '0' && src[i+1] <= '9') ||
				((src[i] == '+' || src[i] == '-') && !hex && (src[i-1] == 'e' || src[i-1] == 'E'))) {
				i++
			}
			if i < n && src[i] == '.' && !(i+1 < n && (isIdStart(src[i+1]) || src[i+1] == '.')) {
				i++
			}
			t = tok{'n', src[start:i], nl, line}
		case c == '"' || c == '\'' || c == '`':
			if c == '\'' && d == DCpp && false {
			}
			i++
			var sb strings.Builder
			for i < n && src[i] != c {
				if src[i] == '\\' && c != '`' && i+1 < n {
					i++
					r, adv := unescape(src[i:])
					sb.WriteString(r)
					i += adv
					continue
				}
				if src[i] == '\n' {
					line++
				}
				sb.WriteByte(src[i])
				i++
			}
			i++
			k := byte('s')
			if c == '\'' && d != DJs {
				k = 'c'
			}
			t = tok{k, sb.String(), nl, line}
		default:
			p := string(c)
			for _, q := range puncts {
				if strings.HasPrefix(src[i:], q) {
					if q == "?:" && d != DKt || q == "!!" && d != DKt || q == "?." && d != DJs && d != DKt && d != DCs || q == "**" && d != DJs || q == "**=" || q == "===" && d != DJs && d != DKt || q == "!==" && d != DJs && d != DKt || q == ">>>" && d != DJava && d != DJs || q == "??" && d != DCs && d != DJs {
						continue
					}
					p = q
					break
				}
			}
			i += len(p)
			t = tok{'p', p, nl, line}
		}
		nl = false
		if !skipping() {
			out = append(out, t)
		}
	}
	out = append(out, tok{'e', "", true, line})
	return out
}

func unescape(s string) (string, int) {
	switch s[0] {
	case 'n':
		return "\n", 1
	case 't':
		return "\t", 1
	case 'r':
		return "\r", 1
	case '0', '1', '2', '3', '4', '5', '6', '7':
		v, k := 0, 0
		for k < 3 && k < len(s) && s[k] >= '0' && s[k] <= '7' {
			v = v*8 + int(s[k]-'0')
			k++
		}
		return string([]byte{byte(v)}), k
	case 'a':
		return "\a", 1
	case 'b':
		return "\b", 1
	case 'f':
		return "\f", 1
	case 'v':
		return "\v", 1
	case 'x':
		var v, k = 0, 1
		for k < 3 && k < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[k]) >= 0 {
			fmt.Sscanf(s[1:k+1], "%x", &v)
			k++
		}
		return string([]byte{byte(v)}), k
	case 'u':
		if len(s) >= 5 {
			var v int
			fmt.Sscanf(s[1:5], "%x", &v)
			return string(rune(v)), 5
		}
	}
	return s[:1], 1
}
