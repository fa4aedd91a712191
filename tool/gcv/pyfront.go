package gcv

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/big"
	"os/exec"
	"strings"
	"sync"
)

//go:embed py2json.py
var pyDump string

type pyNode struct {
	K string    `json:"k"`
	S string    `json:"s"`
	V string    `json:"v"`
	L int       `json:"l"`
	A []*pyNode `json:"a"`
	F *pyFunc   `json:"f"`
}
type pyFunc struct {
	Name   string    `json:"name"`
	Params []pyParam `json:"params"`
	Body   []*pyNode `json:"body"`
	Deco   []string  `json:"deco"`
	Expr   *pyNode   `json:"expr"`
}
type pyParam struct {
	Name string  `json:"name"`
	Def  *pyNode `json:"def"`
}

// pyServer is a persistent python3 process that dumps syntax trees.
type pyServer struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
}

var pysrv pyServer

func (p *pyServer) parse(src string) ([]*pyNode, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cmd == nil {
		c := exec.Command("python3", "-c", pyDump)
		w, err := c.StdinPipe()
		if err != nil {
			return nil, err
		}
		r, err := c.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := c.Start(); err != nil {
			return nil, err
		}
		p.cmd, p.in, p.out = c, json.NewEncoder(w), json.NewDecoder(r)
	}
	if err := p.in.Encode(src); err != nil {
		return nil, err
	}
	var res struct {
		Err  string    `json:"err"`
		Body []*pyNode `json:"body"`
	}
	if err := p.out.Decode(&res); err != nil {
		return nil, err
	}
	if res.Err != "" {
		return nil, CompileError{res.Err}
	}
	return res.Body, nil
}

func (m *Module) addPy(name, src string) error {
	body, err := pysrv.parse(src)
	if err != nil {
		return err
	}
	_ = bytes.NewReader
	for _, n := range body {
		if err := m.pyTop(n); err != nil {
			return err
		}
	}
	return nil
}

func (m *Module) pyTop(n *pyNode) error {
	switch n.K {
	case "import", "pass":
	case "funcdef":
		m.Funcs[n.F.Name] = []*Func{m.pyFunc(n.F, nil)}
	case "classdef":
		c := newClass(n.S, "class", m)
		if n.V == "Enum" || n.V == "IntEnum" {
			c.Kind = "enum"
		}
		m.Classes[c.Name] = c
		for _, x := range n.A {
			switch x.K {
			case "funcdef":
				m.pyMethod(c, x.F)
			case "pyassign":
				if x.A[0].K != "id" {
					return fmt.Errorf("class body assignment")
				}
				if c.Kind == "enum" {
					c.Items = append(c.Items, EnumItem{Name: x.A[0].S, Args: []*Node{pyConv(m, x.A[len(x.A)-1])}})
				} else {
					c.Fields = append(c.Fields, &Field{Name: x.A[0].S, Static: true, Init: pyConv(m, x.A[len(x.A)-1])})
				}
			case "pass":
			case "expr":
			case "classdef":
				if err := m.pyTop(x); err != nil {
					return err
				}
				c.Inner[x.S] = m.Classes[x.S]
			default:
				return fmt.Errorf("line %d: class body %s", x.L, x.K)
			}
		}
	case "pyassign":
		if n.A[0].K == "id" {
			m.Globals[n.A[0].S] = &Field{Name: n.A[0].S, Init: pyConv(m, n.A[len(n.A)-1])}
		}
	case "expr":
	default:
		return fmt.Errorf("line %d: module statement %s", n.L, n.K)
	}
	return nil
}

func (m *Module) pyMethod(c *Class, f *pyFunc) {
	fn := m.pyFunc(f, c)
	for _, d := range f.Deco {
		switch {
		case d == "overload":
			return
		case d == "property":
			c.Get[f.Name] = fn
			return
		case strings.HasSuffix(d, ".setter"):
			c.Set[f.Name] = fn
			return
		}
	}
	c.Funcs[f.Name] = []*Func{fn}
}

func (m *Module) pyFunc(f *pyFunc, c *Class) *Func {
	fn := &Func{Name: f.Name, Cls: c, mod: m}
	static := c == nil
	for _, d := range f.Deco {
		if d == "staticmethod" {
			static = true
		}
	}
	fn.Static = static
	for i, p := range f.Params {
		if i == 0 && !static {
			fn.Recv = p.Name
			continue
		}
		q := Param{Name: p.Name}
		if p.Def != nil {
			q.Def = pyConv(m, p.Def)
		}
		fn.Params = append(fn.Params, q)
	}
	if f.Expr != nil {
		fn.expr = true
		fn.body = pyConv(m, f.Expr)
		return fn
	}
	b := &Node{K: "block"}
	for _, s := range f.Body {
		b.A = append(b.A, pyConv(m, s))
	}
	fn.body = b
	return fn
}

func pyConv(m *Module, p *pyNode) *Node {
	if p == nil {
		return nil
	}
	n := &Node{K: p.K, S: p.S, L: p.L}
	if p.V != "" && p.K == "num" {
		n.V, _ = new(big.Int).SetString(p.V, 10)
	}
	if p.K == "funcdef" {
		n.K = "funcdecl"
		n.S = p.F.Name
		n.F = m.pyFunc(p.F, nil)
	}
	if p.K == "func" {
		n.F = m.pyFunc(p.F, nil)
	}
	for _, a := range p.A {
		n.A = append(n.A, pyConv(m, a))
	}
	return n
}
