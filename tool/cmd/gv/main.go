// gv runs the verifier on chosen harnesses; for development.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	"verif/contract"
	"verif/gover"
)

func main() {
	root := flag.String("root", "/repo", "")
	noinv := flag.Bool("noinv", false, "")
	bud := flag.Int("t", 60, "")
	flag.BoolVar(&gover.Debug, "debug", false, "")
	prop := flag.String("p", "", "")
	drv := flag.Int("drv", 0, "driver millis")
	eff := flag.Bool("effects", false, "")
	flag.Parse()
	l, err := contract.Open(*root, "/verif", *prop)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	defer l.Close()
	fmt.Println("dropped:", l.Dropped)
	if *drv > 0 {
		rs, err := l.Run(contract.Query{Prop: *prop, Budget: 200000, Seed: 1, Millis: *drv})
		for _, r := range rs {
			fmt.Println(r.Name, r.Runs, r.Kept, r.Complete)
			for _, f := range r.Fails {
				st := f.Stack
				if len(st) > 1500 {
					st = st[:1500]
				}
				fmt.Println("   FAIL", f.Assert, f.Values, st)
			}
		}
		fmt.Println(err)
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 8)
	if *eff {
		n := 0
		for _, x := range l.Prog.Effects() {
			n++
			if !x.OK {
				fmt.Println(x.At, x.Func, x.What, x.Why)
			}
		}
		fmt.Println(n)
		return
	}
	for _, fn := range l.Prog.Harnesses("Verify_") {
		if flag.NArg() > 0 && !strings.Contains(fn.Name(), flag.Arg(0)) {
			continue
		}
		fn := fn
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			v := l.Prog.Verify(fn, gover.Options{Budget: time.Duration(*bud) * time.Second, NoInv: *noinv})
			mu.Lock()
			defer mu.Unlock()
			fmt.Printf("%s: proved %d (trivial %d) failed %d paths %d cuts %d queries %d %d ms err %v vacuous %v bounded %v trusted %v\n", v.Name, v.Proved, v.Trivial, len(v.Failed), v.Paths, v.Cuts, v.Queries, v.Millis, v.Err, v.Vacuous, v.Bounded, v.Trusted)
			for _, f := range v.Failed {
				fmt.Printf("   FAIL %s at %s: %s %s havoc=%v\n      %v\n", f.Name, f.Pos, f.Status, f.Note, f.Havoc, f.Model)
			}
		}()
	}
	wg.Wait()
}
