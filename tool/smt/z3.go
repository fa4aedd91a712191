package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Session is a running z3 that knows the definitions of the terms sent to it.
type Session struct {
	c    *Ctx
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	id   int
	decl int
	vars map[string]bool
	done map[int]bool

	Queries int
	Time    time.Duration
	Bin     string
	Args    []string
	Log     io.Writer
	CVC     bool // cvc5: the time limit is an argument
}

var sessions int

func NewSession(c *Ctx) *Session {
	return &Session{c: c, Bin: "z3", Args: []string{"-in", "-smt2"}}
}

func (s *Session) start() error {
	if s.cmd != nil {
		return nil
	}
	sessionMu.Lock()
	sessions++
	s.id = sessions
	sessionMu.Unlock()
	s.decl = 0
	s.vars = map[string]bool{}
	s.done = map[int]bool{}
	s.cmd = exec.Command(s.Bin, s.Args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if s.CVC {
		return s.send("(set-logic ALL)\n")
	}
	return s.send("(set-option :print-success false)\n(set-option :smt.random_seed 1)\n")
}

func (s *Session) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Session) send(t string) error {
	if s.Log != nil {
		io.WriteString(s.Log, t)
	}
	_, err := io.WriteString(s.in, t)
	return err
}

// expr prints a term, using the names of subterms defined before.
func (s *Session) expr(t *Term) string {
	switch t.Op {
	case "var", "const", "bound":
		return t.Name
	}
	if s.done[t.id] && !t.bound {
		return fmt.Sprintf("t!%d", t.id)
	}
	return s.body(t)
}

func (s *Session) body(t *Term) string {
	var b strings.Builder
	switch t.Op {
	case "forall", "lambda":
		n := len(t.Args) - 1
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Args[:n] {
			fmt.Fprintf(&b, "(%s %s)", v.Name, v.Sort)
		}
		b.WriteString(") " + s.expr(t.Args[n]) + ")")
	case "constarray":
		fmt.Fprintf(&b, "((as const %s) %s)", t.Sort, s.expr(t.Args[0]))
	default:
		if len(t.Args) == 0 {
			return t.Op
		}
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteString(" " + s.expr(a))
		}
		b.WriteString(")")
	}
	return b.String()
}

func (s *Session) define(t *Term, w *strings.Builder) {
	if s.done[t.id] {
		return
	}
	for _, a := range t.Args {
		s.define(a, w)
	}
	switch t.Op {
	case "const", "bound":
		return
	case "var":
		if !s.vars[t.Name] {
			s.vars[t.Name] = true
			fmt.Fprintf(w, "(declare-const %s %s)\n", t.Name, t.Sort)
		}
		s.done[t.id] = true
		return
	}
	if t.bound {
		return
	}
	body := s.body(t)
	s.done[t.id] = true
	fmt.Fprintf(w, "(define-fun t!%d () %s %s)\n", t.id, t.Sort, body)
}

// Answer of a query.
type Answer int

const (
	Unknown Answer = iota
	Sat
	Unsat
)

func (a Answer) String() string { return [...]string{"unknown", "sat", "unsat"}[a] }

// Check decides the conjunction of ts. When it is satisfiable and want is not
// nil, values of the listed terms are returned as text.
func (s *Session) Check(timeout time.Duration, want []*Term, ts ...*Term) (Answer, []string, error) {
	for _, t := range ts {
		if t.IsFalse() {
			return Unsat, nil, nil
		}
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0); s.Queries++ }()
	if err := s.start(); err != nil {
		return Unknown, nil, err
	}
	var w strings.Builder
	for ; s.decl < len(s.c.forder); s.decl++ {
		w.WriteString(s.c.forder[s.decl] + "\n")
	}
	for _, t := range ts {
		s.define(t, &w)
	}
	for _, t := range want {
		s.define(t, &w)
	}
	if !s.CVC {
		fmt.Fprintf(&w, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	w.WriteString("(push)\n")
	for _, t := range ts {
		fmt.Fprintf(&w, "(assert %s)\n", s.expr(t))
	}
	w.WriteString("(check-sat)\n")
	if err := s.send(w.String()); err != nil {
		s.Close()
		return Unknown, nil, err
	}
	ln, err := s.line(timeout + 10*time.Second)
	if err != nil {
		s.Close()
		return Unknown, nil, err
	}
	a := Unknown
	switch ln {
	case "sat":
		a = Sat
	case "unsat":
		a = Unsat
	case "unknown", "timeout":
	default:
		s.Close()
		return Unknown, nil, fmt.Errorf("z3: %s", ln)
	}
	var vals []string
	if a == Sat && len(want) > 0 {
		var q strings.Builder
		for _, t := range want {
			q.WriteString("(get-value (" + s.expr(t) + "))\n")
		}
		q.WriteString("(echo \"end!\")\n")
		if err := s.send(q.String()); err != nil {
			s.Close()
			return a, nil, err
		}
		var all strings.Builder
		for {
			ln, err := s.line(10 * time.Second)
			if err != nil {
				s.Close()
				return a, nil, err
			}
			if ln == "end!" {
				break
			}
			all.WriteString(ln + "\n")
		}
		vals = splitVals(all.String(), len(want))
	}
	if err := s.send("(pop)\n"); err != nil {
		s.Close()
	}
	return a, vals, nil
}

// splitVals splits a sequence of ((name value)) answers.
func splitVals(t string, n int) []string {
	out := make([]string, 0, n)
	depth, start, inq := 0, -1, false
	for i := 0; i < len(t); i++ {
		if inq {
			inq = t[i] != '"'
			continue
		}
		switch t[i] {
		case '"':
			inq = true
		case '(':
			if depth == 0 {
				start = i
			}
			depth++
		case ')':
			depth--
			if depth == 0 {
				body := strings.TrimSpace(t[start+2 : i-1])
				// skip the echoed term
				k, d, q := 0, 0, false
				for ; k < len(body); k++ {
					if q {
						q = body[k] != '"'
						continue
					}
					if body[k] == '"' {
						q = true
					} else if body[k] == '(' {
						d++
					} else if body[k] == ')' {
						d--
					} else if (body[k] == ' ' || body[k] == '\n') && d == 0 {
						break
					}
				}
				out = append(out, strings.TrimSpace(body[k:]))
			}
		}
	}
	return out
}

func (s *Session) line(d time.Duration) (string, error) {
	type res struct {
		s   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, err := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil || l != "" {
				ch <- res{l, err}
				return
			}
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(d):
		return "", fmt.Errorf("z3 does not answer")
	}
}
