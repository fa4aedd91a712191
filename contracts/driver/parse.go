package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/antlr4-go/antlr/v4"
	"github.com/xaxys/bubbler/parser"
)

// node is the form in which parse trees of the repository's own parser reach
// the verifier.
type node struct {
	T string           `json:"t"`
	K bool             `json:"k,omitempty"`
	N int              `json:"n,omitempty"`
	X string           `json:"x,omitempty"`
	L int              `json:"l"`
	C int              `json:"c"`
	D []*node          `json:"d,omitempty"`
	B map[string]*node `json:"b,omitempty"`
}

type listener struct {
	*antlr.DefaultErrorListener
	msgs []string
}

func (l *listener) SyntaxError(_ antlr.Recognizer, _ any, line, col int, msg string, _ antlr.RecognitionException) {
	l.msgs = append(l.msgs, fmt.Sprintf("%d:%d %s", line, col, msg))
}

func tok(t antlr.Token, names []string) *node {
	n := &node{K: true, N: t.GetTokenType(), X: t.GetText(), L: t.GetLine(), C: t.GetColumn()}
	if n.N >= 0 && n.N < len(names) {
		n.T = names[n.N]
	} else {
		n.T = "EOF"
		n.X = ""
	}
	return n
}

func dump(t antlr.Tree, names []string) *node {
	if tn, ok := t.(antlr.TerminalNode); ok {
		return tok(tn.GetSymbol(), names)
	}
	rc := t.(antlr.ParserRuleContext)
	n := &node{T: strings.TrimPrefix(fmt.Sprintf("%T", t), "*parser."), L: rc.GetStart().GetLine(), C: rc.GetStart().GetColumn()}
	for _, k := range rc.GetChildren() {
		n.D = append(n.D, dump(k, names))
	}
	rv := reflect.ValueOf(t)
	for _, name := range []string{"GetOp"} {
		if f := rv.MethodByName(name); f.IsValid() {
			if s, ok := f.Call(nil)[0].Interface().(antlr.Token); ok && s != nil {
				n.B = map[string]*node{name: tok(s, names)}
			}
		}
	}
	return n
}

func parse() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(nil, 1<<26)
	w := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var text string
		json.Unmarshal(sc.Bytes(), &text)
		l := &listener{}
		lexer := parser.NewbubblerLexer(antlr.NewInputStream(text))
		lexer.RemoveErrorListeners()
		lexer.AddErrorListener(l)
		p := parser.NewbubblerParser(antlr.NewCommonTokenStream(lexer, 0))
		p.RemoveErrorListeners()
		p.AddErrorListener(l)
		tree := p.Proto()
		var r struct {
			Tree *node
			Err  string
		}
		r.Err = strings.Join(l.msgs, "\n")
		if r.Err == "" {
			r.Tree = dump(tree, p.GetSymbolicNames())
		}
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}
