package sym

// A small incremental CDCL solver over the and-inverter graph. Gates are
// clausified when a query first reaches them; a query is a set of assumed
// literals; decisions are restricted to the query's cone, which is enough
// because every other gate is a definition.

type clause struct {
	lits   []Lit
	learnt bool
	act    float32
	del    bool
}

type watch struct {
	c       *clause
	blocker Lit
}

type solver struct {
	c       *Ctx
	vals    []int8 // per node: 0 unknown, 1 true, -1 false
	level   []int32
	reason  []*clause
	trail   []Lit
	lim     []int
	qhead   int
	watches [][]watch // indexed by literal: clauses watching its negation
	defined []bool
	act     []float64
	inc     float64
	phase   []bool
	heap    []int32
	hpos    []int32
	seen    []bool
	cone    []int32 // query stamp
	stamp   int32
	learnts []*clause
	cinc    float32
	unsat   bool
	Confl   int64
}

func newSolver(c *Ctx) *solver {
	return &solver{c: c, inc: 1, cinc: 1}
}

func (s *solver) grow() {
	n := len(s.c.nodes)
	for len(s.vals) < n {
		s.vals = append(s.vals, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, nil)
		s.watches = append(s.watches, nil, nil)
		s.defined = append(s.defined, false)
		s.act = append(s.act, 0)
		s.phase = append(s.phase, false)
		s.hpos = append(s.hpos, -1)
		s.seen = append(s.seen, false)
		s.cone = append(s.cone, 0)
	}
}

func (s *solver) val(l Lit) int8 {
	v := s.vals[l>>1]
	if l&1 == 1 {
		return -v
	}
	return v
}

func (s *solver) assign(l Lit, r *clause) {
	v := int8(1)
	if l&1 == 1 {
		v = -1
	}
	n := l >> 1
	s.vals[n] = v
	s.level[n] = int32(len(s.lim))
	s.reason[n] = r
	s.trail = append(s.trail, l)
}

func (s *solver) attach(c *clause) {
	a, b := c.lits[0], c.lits[1]
	s.watches[a.Not()] = append(s.watches[a.Not()], watch{c, b})
	s.watches[b.Not()] = append(s.watches[b.Not()], watch{c, a})
}

// addClause is used at decision level 0 only.
func (s *solver) addClause(ls ...Lit) {
	out := make([]Lit, 0, len(ls))
	for _, l := range ls {
		switch s.val(l) {
		case 1:
			return
		case -1:
			continue
		}
		out = append(out, l)
	}
	switch len(out) {
	case 0:
		s.unsat = true
	case 1:
		s.assign(out[0], nil)
	default:
		s.attach(&clause{lits: out})
	}
}

func (s *solver) define(n int32) {
	if s.defined[n] {
		return
	}
	s.defined[n] = true
	if n == 0 {
		s.addClause(True)
		return
	}
	nd := s.c.nodes[n]
	if nd.a < 0 {
		return
	}
	x := Lit(n << 1)
	s.addClause(x.Not(), nd.a)
	s.addClause(x.Not(), nd.b)
	s.addClause(x, nd.a.Not(), nd.b.Not())
}

func (s *solver) propagate() *clause {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[p]
		j := 0
	next:
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if s.val(w.blocker) == 1 {
				ws[j] = w
				j++
				continue
			}
			c := w.c
			if c.del {
				continue
			}
			if c.lits[0] == p.Not() {
				c.lits[0], c.lits[1] = c.lits[1], c.lits[0]
			}
			f := c.lits[0]
			if f != w.blocker && s.val(f) == 1 {
				ws[j] = watch{c, f}
				j++
				continue
			}
			for k := 2; k < len(c.lits); k++ {
				if s.val(c.lits[k]) != -1 {
					c.lits[1], c.lits[k] = c.lits[k], c.lits[1]
					nl := c.lits[1].Not()
					s.watches[nl] = append(s.watches[nl], watch{c, f})
					continue next
				}
			}
			ws[j] = watch{c, f}
			j++
			if s.val(f) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				s.qhead = len(s.trail)
				return c
			}
			s.assign(f, c)
		}
		s.watches[p] = ws[:j]
	}
	return nil
}

func (s *solver) cancel(lv int) {
	if len(s.lim) <= lv {
		return
	}
	to := s.lim[lv]
	for i := len(s.trail) - 1; i >= to; i-- {
		n := int32(s.trail[i] >> 1)
		s.phase[n] = s.trail[i]&1 == 0
		s.vals[n] = 0
		s.reason[n] = nil
		if s.cone[n] == s.stamp {
			s.push(n)
		}
	}
	s.trail = s.trail[:to]
	s.lim = s.lim[:lv]
	s.qhead = to
}

func (s *solver) bump(n int32) {
	s.act[n] += s.inc
	if s.act[n] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[n] >= 0 {
		s.up(s.hpos[n])
	}
}

func (s *solver) analyze(confl *clause) ([]Lit, int) {
	out := []Lit{0}
	path := 0
	var p Lit = -1
	idx := len(s.trail) - 1
	cl := confl
	cur := int32(len(s.lim))
	for {
		if cl.learnt {
			cl.act += s.cinc
		}
		for _, q := range cl.lits {
			if q == p {
				continue
			}
			n := int32(q >> 1)
			if !s.seen[n] && s.level[n] > 0 {
				s.seen[n] = true
				s.bump(n)
				if s.level[n] >= cur {
					path++
				} else {
					out = append(out, q)
				}
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		cl = s.reason[p>>1]
		s.seen[p>>1] = false
		path--
		if path == 0 {
			break
		}
	}
	out[0] = p.Not()
	// drop literals implied by the others (one step)
	all := append([]Lit{}, out[1:]...)
	k := 1
	for _, q := range out[1:] {
		r := s.reason[q>>1]
		keep := r == nil
		if !keep {
			for _, x := range r.lits {
				if x>>1 != q>>1 && !s.seen[x>>1] && s.level[x>>1] > 0 {
					keep = true
					break
				}
			}
		}
		if keep {
			out[k] = q
			k++
		}
	}
	out = out[:k]
	for _, q := range all {
		s.seen[q>>1] = false
	}
	bt := 0
	if len(out) > 1 {
		m := 1
		for i := 2; i < len(out); i++ {
			if s.level[out[i]>>1] > s.level[out[m]>>1] {
				m = i
			}
		}
		out[1], out[m] = out[m], out[1]
		bt = int(s.level[out[1]>>1])
	}
	return out, bt
}

// heap of candidate decisions

func (s *solver) up(i int32) {
	x := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if s.act[s.heap[p]] >= s.act[x] {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = i
		i = p
	}
	s.heap[i] = x
	s.hpos[x] = i
}
func (s *solver) down(i int32) {
	x := s.heap[i]
	n := int32(len(s.heap))
	for 2*i+1 < n {
		k := 2*i + 1
		if k+1 < n && s.act[s.heap[k+1]] > s.act[s.heap[k]] {
			k++
		}
		if s.act[s.heap[k]] <= s.act[x] {
			break
		}
		s.heap[i] = s.heap[k]
		s.hpos[s.heap[i]] = i
		i = k
	}
	s.heap[i] = x
	s.hpos[x] = i
}
func (s *solver) push(n int32) {
	if s.hpos[n] >= 0 {
		return
	}
	s.heap = append(s.heap, n)
	s.hpos[n] = int32(len(s.heap) - 1)
	s.up(s.hpos[n])
}
func (s *solver) pop() int32 {
	x := s.heap[0]
	l := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.hpos[x] = -1
	if len(s.heap) > 0 {
		s.heap[0] = l
		s.hpos[l] = 0
		s.down(0)
	}
	return x
}

func luby(i int64) int64 {
	k := int64(1)
	for ; (1<<uint(k))-1 < i; k++ {
	}
	for (1<<uint(k))-1 != i {
		i -= (1 << uint(k-1)) - 1
		k = 1
		for ; (1<<uint(k))-1 < i; k++ {
		}
	}
	return 1 << uint(k-1)
}

func (s *solver) reduce() {
	if len(s.learnts) < 4000+len(s.c.nodes)/4 {
		return
	}
	var sum float32
	for _, c := range s.learnts {
		sum += c.act
	}
	avg := sum / float32(len(s.learnts))
	k := 0
	for _, c := range s.learnts {
		locked := s.reason[c.lits[0]>>1] == c
		if len(c.lits) > 2 && c.act < avg && !locked {
			c.del = true
			continue
		}
		c.act *= 0.5
		s.learnts[k] = c
		k++
	}
	s.learnts = s.learnts[:k]
}

// solve returns 1 (satisfiable), 0 (unsatisfiable) or -1 (budget).
func (s *solver) solve(use []Lit, budget int64) (int, map[int32]bool) {
	s.cancel(0)
	s.grow()
	for _, n := range s.heap {
		s.hpos[n] = -1
	}
	s.heap = s.heap[:0]
	s.stamp++
	// cone
	var st, vs []int32
	for _, l := range use {
		st = append(st, int32(l>>1))
	}
	s.define(0)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == 0 || s.cone[x] == s.stamp {
			continue
		}
		s.cone[x] = s.stamp
		s.define(x)
		if s.vals[x] == 0 {
			s.push(x)
		}
		nd := s.c.nodes[x]
		if nd.a < 0 {
			vs = append(vs, x)
			continue
		}
		st = append(st, int32(nd.a>>1), int32(nd.b>>1))
	}
	if s.unsat || s.propagate() != nil {
		s.unsat = true
		return 0, nil
	}
	var confl, round int64 = 0, 1
	left := 100 * luby(round)
	for {
		c := s.propagate()
		if c != nil {
			confl++
			s.Confl++
			left--
			if len(s.lim) == 0 {
				s.unsat = true
				return 0, nil
			}
			ls, bt := s.analyze(c)
			s.cancel(bt)
			if len(ls) == 1 {
				if s.val(ls[0]) == -1 {
					s.unsat = true
					return 0, nil
				}
				if s.val(ls[0]) == 0 {
					s.assign(ls[0], nil)
				}
			} else {
				nc := &clause{lits: ls, learnt: true, act: s.cinc}
				s.learnts = append(s.learnts, nc)
				s.attach(nc)
				s.assign(ls[0], nc)
			}
			s.inc *= 1.0 / 0.95
			s.cinc *= 1.0 / 0.999
			if s.cinc > 1e20 {
				for _, c := range s.learnts {
					c.act *= 1e-20
				}
				s.cinc *= 1e-20
			}
			if confl > budget {
				s.cancel(0)
				return -1, nil
			}
			continue
		}
		if left <= 0 {
			round++
			left = 100 * luby(round)
			s.cancel(0)
			s.reduce()
			continue
		}
		if len(s.lim) < len(use) { // assumptions first
			l := use[len(s.lim)]
			switch s.val(l) {
			case -1:
				s.cancel(0)
				return 0, nil
			case 1:
				s.lim = append(s.lim, len(s.trail))
			default:
				s.lim = append(s.lim, len(s.trail))
				s.assign(l, nil)
			}
			continue
		}
		var d int32 = -1
		for len(s.heap) > 0 {
			n := s.pop()
			if s.vals[n] == 0 {
				d = n
				break
			}
		}
		if d < 0 {
			m := make(map[int32]bool, len(vs))
			for _, v := range vs {
				m[v] = s.vals[v] == 1
			}
			s.cancel(0)
			return 1, m
		}
		l := Lit(d << 1)
		if !s.phase[d] {
			l = l.Not()
		}
		s.lim = append(s.lim, len(s.trail))
		s.assign(l, nil)
	}
}
