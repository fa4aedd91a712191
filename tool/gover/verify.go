package gover

import (
	"fmt"
	"time"

	"verif/smt"

	"golang.org/x/tools/go/ssa"
)

// Options of one verification.
type Options struct {
	Budget   time.Duration
	NoInv    bool
	LoopMax  int
	MaxSteps int
}

// Verify discharges the obligations of one harness.
func (p *Prog) Verify(fn *ssa.Function, o Options) (out *Verdict) {
	out = &Verdict{Name: fn.Name(), Funcs: map[string]bool{}, Trusted: map[string]bool{}, Contract: map[string]bool{}, Bounded: map[string]int{}, MapRanges: map[string]bool{}}
	c := smt.NewCtx()
	m := &Machine{P: p, C: c, S: smt.NewSession(c), Out: out, Dead: time.Now().Add(o.Budget), MaxSteps: 20000000, LoopMax: 6, NoInv: o.NoInv}
	if o.LoopMax > 0 {
		m.LoopMax = o.LoopMax
	}
	s2 := smt.NewSession(c)
	s2.Bin = "z3-new"
	m.S2 = s2
	defer m.S.Close()
	defer s2.Close()
	s3 := smt.NewSession(c)
	s3.Bin, s3.Args, s3.CVC = "cvc5", []string{"--lang=smt2", "--incremental", "--strings-exp", "--produce-models", "--tlimit-per=10000"}, true
	m.S3 = s3
	defer s3.Close()
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsup); ok {
				out.Err = e
			} else {
				out.Err = fmt.Errorf("verifier failure: %v", r)
				if Debug {
					panic(r)
				}
			}
		}
		out.Queries = m.S.Queries + s2.Queries + s3.Queries
		out.Millis = int(time.Since(t0).Milliseconds())
	}()
	out.Err = m.Explore(func() { m.callFn(fn, nil, nil) })
	return out
}

var Debug bool
