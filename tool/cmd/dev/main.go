package main

import (
	"flag"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verif/gcv"
)

func main() {
	fam := flag.String("f", "demo", "family")
	ct := flag.String("c", "edcs", "contracts")
	opts := flag.String("opts", "", "override options")
	tg := flag.String("t", "", "targets")
	only := flag.String("s", "", "struct")
	max := flag.Int("max", 3, "failures shown per result")
	lim := flag.Int("lim", 25, "results shown")
	deep := flag.Bool("deep", false, "")
	bud := flag.Int("b", 20, "budget")
	cn := flag.Int("conc", 0, "concrete runs per struct")
	dd := flag.String("dump", "", "")
	flag.Parse()
	defer prof()()
	gcv.Budget = time.Duration(*bud) * time.Second
	var bs []*gcv.Batch
	for _, f := range strings.Split(*fam, ",") {
		switch f {
		case "demo":
			df := gcv.DemoFile()
			b := &gcv.Batch{Name: "demo", File: df}
			for _, s := range df.Structs {
				b.Jobs = append(b.Jobs, &gcv.Job{S: s})
			}
			bs = append(bs, b)
		case "scalar":
			bs = append(bs, gcv.ScalarBatches("m", *deep)...)
		case "array":
			bs = append(bs, gcv.ArrayBatches("m", *deep)...)
		case "string":
			bs = append(bs, gcv.StringBatches("m")...)
		case "const":
			bs = append(bs, gcv.ConstBatches("m")...)
		case "mal":
			bs = append(bs, gcv.MalBatches("m", *deep)...)
		case "option":
			bs = append(bs, gcv.OptionBatches("m", *deep)...)
		}
	}
	for _, b := range bs {
		if *opts != "" {
			b.Opts = [][]string{strings.Fields(*opts)}
		}
		if *only != "" {
			var js []*gcv.Job
			for _, j := range b.Jobs {
				if j.S.Name == *only {
					js = append(js, j)
				}
			}
			b.Jobs = js
		}
	}
	if *dd != "" {
		dump(bs, *dd)
	}
	if *cn > 0 {
		var tl []string
		if *tg != "" {
			tl = strings.Split(*tg, ",")
		}
		concrete(bs, *ct, *cn, tl)
		return
	}
	t0 := time.Now()
	p := &gcv.Plan{C: &gcv.Compiler{Bin: bin()}, Batches: bs, Seed: 1}
	if *tg != "" {
		p.Targets = strings.Split(*tg, ",")
	}
	p.Verify = func(u *gcv.Unit, j *gcv.Job) (out []gcv.Result) {
		if j.Mal > 0 {
			for n := 0; n <= j.Mal; n++ {
				for _, st := range []int{0, 2} {
					if st == 0 || n >= j.Mal-1 {
						out = append(out, u.MalContract(n, st))
					}
				}
			}
			return
		}
		shapes := j.Shapes
		if shapes == nil {
			shapes = []gcv.Shape{{}}
		}
		starts := j.Starts
		if starts == nil {
			starts = []int{0, 2}
		}
		for _, sh := range shapes {
			for _, st := range starts {
				if strings.Contains(*ct, "e") {
					out = append(out, u.EncodeContract(sh, st, false))
				}
				if strings.Contains(*ct, "E") {
					out = append(out, u.EncodeContract(sh, st, true))
				}
				if strings.Contains(*ct, "d") {
					out = append(out, u.DecodeContract(sh, st, 1))
				}
				if strings.Contains(*ct, "c") {
					out = append(out, u.ConstContract(sh, st))
				}
				if strings.Contains(*ct, "s") {
					out = append(out, u.SizeContract(sh, st))
				}
			}
		}
		return
	}
	rep := p.Run()
	pr, nf, ne, sol := 0, 0, 0, 0
	agg := map[string]int{}
	shown := 0
	for _, r := range rep.Results {
		pr += r.Proved
		sol += r.Solver
		nf += len(r.Failed)
		if r.Err != nil {
			ne++
			agg[r.Target+" "+r.Contract+" ERR "+r.Err.Error()]++
		}
		if len(r.Failed) > 0 {
			agg[r.Target+" "+r.Contract+" FAILED"]++
			if shown < *lim {
				shown++
				fmt.Printf("%s %s %s %s [%s] failed %d\n", r.Target, r.Unit.Task.B.Name, r.Struct, r.Contract, r.Opts, len(r.Failed))
				for i, o := range r.Failed {
					if i < *max {
						fmt.Printf("    %s: %s line %d\n", o.Name, o.Msg, o.Line)
					}
				}
			}
		}
	}
	for i, r := range rep.Reject {
		if i < 10 {
			fmt.Println("REJECT", r.Task, r.Gen, r.Err)
		}
	}
	var ks []string
	for k := range agg {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i < 60 {
			fmt.Println(agg[k], k)
		}
	}
	fmt.Printf("tasks %d results %d proved %d (solver %d) failed %d err %d reject %d time %v\n", rep.Tasks, len(rep.Results), pr, sol, nf, ne, len(rep.Reject), time.Since(t0))
}

func concrete(bs []*gcv.Batch, kinds string, n int, targets []string) {
	c := &gcv.Compiler{Bin: bin()}
	for _, b := range bs {
		opts := b.Opts
		if opts == nil {
			opts = [][]string{nil}
		}
		for _, t := range gcv.Targets {
			if len(targets) > 0 && !has(targets, t.Name) || !gcv.CanReplay(t.Name) {
				continue
			}
			for _, o := range opts {
				tk := &gcv.Task{B: b, T: t, Opts: o}
				var cs []*gcv.Case
				r := rand.New(rand.NewSource(7))
				for _, j := range b.Jobs {
					cs = append(cs, gcv.ConcreteCases(r, j, n, kinds, t.Name)...)
				}
				t0 := time.Now()
				outs, err := gcv.RunCases(c, tk, "", cs)
				bad, ran := 0, 0
				for i, x := range outs {
					if x.Ran {
						ran++
					}
					if x.Bad {
						bad++
						if bad <= 3 {
							fmt.Println("   ", cs[i].Kind, cs[i].Struct.Name, "start", cs[i].Start, "n", cs[i].N, x.Detail, "|", x.Observed)
						}
					}
				}
				fmt.Println(tk, "cases", len(cs), "ran", ran, "bad", bad, "err", err, time.Since(t0).Round(time.Millisecond))
			}
		}
	}
}
func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
