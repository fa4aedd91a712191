package sym

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type z3proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	done map[int32]bool
}

func (c *Ctx) solver() *z3proc {
	if c.z != nil {
		return c.z
	}
	cmd := exec.Command("z3", "-in")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	c.z = &z3proc{cmd, in, bufio.NewReader(out), map[int32]bool{0: true}}
	fmt.Fprintln(in, "(set-option :produce-models true)\n(set-option :timeout 15000)\n(declare-const n0 Bool)(assert (not n0))")
	return c.z
}

func (c *Ctx) Close() {
	if c.z != nil {
		c.z.in.Close()
		c.z.cmd.Process.Kill()
		c.z.cmd.Wait()
		c.z = nil
	}
}

func lname(l Lit) string {
	if l&1 == 1 {
		return fmt.Sprintf("(not n%d)", l>>1)
	}
	return fmt.Sprintf("n%d", l>>1)
}

func (c *Ctx) define(z *z3proc, n int32, sb *strings.Builder) {
	if z.done[n] {
		return
	}
	// iterative post-order
	st := []int32{n}
	for len(st) > 0 {
		x := st[len(st)-1]
		if z.done[x] {
			st = st[:len(st)-1]
			continue
		}
		nd := c.nodes[x]
		if nd.a < 0 {
			fmt.Fprintf(sb, "(declare-const n%d Bool)\n", x)
			z.done[x] = true
			continue
		}
		ia, ib := int32(nd.a>>1), int32(nd.b>>1)
		ok := true
		if !z.done[ia] {
			st = append(st, ia)
			ok = false
		}
		if !z.done[ib] {
			st = append(st, ib)
			ok = false
		}
		if ok {
			fmt.Fprintf(sb, "(declare-const n%d Bool)(assert (= n%d (and %s %s)))\n", x, x, lname(nd.a), lname(nd.b))
			z.done[x] = true
		}
	}
}

// vars reachable from the literals
func (c *Ctx) support(ls []Lit) []int32 {
	seen := map[int32]bool{}
	var vs []int32
	var st []int32
	for _, l := range ls {
		st = append(st, int32(l>>1))
	}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == 0 || seen[x] {
			continue
		}
		seen[x] = true
		nd := c.nodes[x]
		if nd.a < 0 {
			vs = append(vs, x)
			continue
		}
		st = append(st, int32(nd.a>>1), int32(nd.b>>1))
	}
	return vs
}

// Sat asks whether the conjunction of the literals is satisfiable. The model
// (over the variables in the support) is returned when it is. err is set when
// the solver gave no answer.
func (c *Ctx) Sat(ls ...Lit) (bool, map[int32]bool, error) {
	var use []Lit
	var all uint64 = ^uint64(0)
	for _, l := range ls {
		if l == False {
			return false, nil, nil
		}
		if l == True {
			continue
		}
		use = append(use, l)
		all &= c.sim(l)
	}
	if len(use) == 0 {
		return true, map[int32]bool{}, nil
	}
	if all != 0 { // one of the random assignments is a model
		bit := uint(0)
		for all&1 == 0 {
			all >>= 1
			bit++
		}
		m := map[int32]bool{}
		for _, v := range c.support(use) {
			m[v] = c.simv[v]>>bit&1 == 1
		}
		return true, m, nil
	}
	t0 := time.Now()
	c.Stats.Queries++
	if c.s == nil {
		c.s = newSolver(c)
	}
	switch r, m := c.s.solve(use, 300000); r {
	case 1:
		for _, l := range use {
			if !c.Eval(l, m) {
				return false, nil, fmt.Errorf("the solver's model does not satisfy the query")
			}
		}
		c.learn(m)
		c.Stats.SolverMs += float64(time.Since(t0).Microseconds()) / 1000
		return true, m, nil
	case 0:
		if n := unsats.Add(1); CrossEvery == 0 || n%int64(CrossEvery) != 0 {
			c.Stats.SolverMs += float64(time.Since(t0).Microseconds()) / 1000
			return false, nil, nil
		}
		ok, m, err := c.satZ3(use)
		c.Stats.Crossed++
		if err == nil && ok {
			err = fmt.Errorf("the solvers disagree")
		}
		return ok, m, err
	}
	ok, m, err := c.satZ3(use)
	c.Stats.SolverMs += float64(time.Since(t0).Microseconds()) / 1000
	return ok, m, err
}

// CrossEvery makes every n-th unsatisfiable answer of a context be confirmed
// by z3.
var CrossEvery = 0

var unsats atomic.Int64

// learn adds a model to the random assignments that screen later queries.
func (c *Ctx) learn(m map[int32]bool) {
	bit := uint(c.nlearn % 48)
	c.nlearn++
	for n := range c.nodes {
		nd := c.nodes[n]
		var v bool
		if nd.a < 0 {
			x, ok := m[int32(n)]
			if !ok || n == 0 {
				continue
			}
			v = x
		} else {
			v = (c.simv[nd.a>>1]>>bit^uint64(nd.a))&1 == 1 && (c.simv[nd.b>>1]>>bit^uint64(nd.b))&1 == 1
		}
		if v {
			c.simv[n] |= 1 << bit
		} else {
			c.simv[n] &^= 1 << bit
		}
	}
}

func (c *Ctx) satZ3(use []Lit) (bool, map[int32]bool, error) {
	z := c.solver()
	var sb strings.Builder
	for _, l := range use {
		c.define(z, int32(l>>1), &sb)
	}
	sb.WriteString("(check-sat-assuming (")
	for _, l := range use {
		sb.WriteString(lname(l))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	io.WriteString(z.in, sb.String())
	line, err := z.out.ReadString('\n')
	if err != nil {
		return false, nil, err
	}
	line = strings.TrimSpace(line)
	var m map[int32]bool
	res := false
	switch line {
	case "sat":
		res = true
		m = map[int32]bool{}
		if vs := c.support(use); len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&q, "n%d ", v)
			}
			q.WriteString("))\n")
			io.WriteString(z.in, q.String())
			for range vs { // one pair per line
				l, err := z.out.ReadString('\n')
				if err != nil {
					return false, nil, err
				}
				f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(l))
				if len(f) != 2 {
					return false, nil, fmt.Errorf("z3: %s", l)
				}
				n, err := strconv.Atoi(strings.TrimPrefix(f[0], "n"))
				if err != nil {
					return false, nil, fmt.Errorf("z3: %s", l)
				}
				m[int32(n)] = f[1] == "true"
			}
		}
		for _, l := range use {
			if !c.Eval(l, m) {
				return false, nil, fmt.Errorf("z3 model does not satisfy the query")
			}
		}
	case "unsat":
	default:
		err = fmt.Errorf("z3: %s", line)
	}
	return res, m, err
}

func (c *Ctx) simBad() int { return len(c.simv) }
