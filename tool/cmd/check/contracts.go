package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/contract"
	"verif/gover"
	"verif/smt"
)

// deductive decides a property by the contracts laid over the compiler's own
// code: every obligation of every harness of the property is discharged by the
// verifier, and whatever it refutes or cannot settle is searched for and
// replayed on the compiled code.
func (r *Run) deductive(rule string, assume ...string) {
	r.Level = "proof"
	r.Assume = append(assume,
		"int is 64 bits wide and an integer result out of the range of its type wraps (checked, not assumed, where the contract says so)",
		"texts handled by the compiler's own string functions are ASCII",
		"append never writes into a backing array that another live slice shares (aliasing of slice backing stores is not modelled)",
		"sound translation of the SSA form built by golang.org/x/tools/go/ssa to SMT-LIB by /verif/tool/gover",
	)
	l, err := contract.Open(r.Repo, r.Verif, r.ID)
	if err != nil {
		r.Level = "other"
		r.Coverage["explanation"] = "the contracts could not be laid over this tree, so nothing was decided: " + err.Error()
		fmt.Println("contracts do not load:", firstLine(err.Error()))
		return
	}
	defer l.Close()
	hs := l.Prog.Harnesses("Verify_" + r.ID + "_")
	budget, search := 200*time.Second, 4000
	if len(hs) > 24 {
		search = 100000 / len(hs)
	}
	if r.ID == "C23" {
		search = 12000
	}
	if r.deep() {
		budget, search = 1500*time.Second, search*6
	}

	// search on the compiled code, at the same time
	var found []contract.Result
	var serr error
	sdone := make(chan bool)
	go func() {
		found, serr = l.Run(contract.Query{Prop: r.ID, Budget: 1 << 30, Seed: r.Seed, Millis: search})
		close(sdone)
	}()

	res := make([]*gover.Verdict, len(hs))
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	for i := range hs {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res[i] = l.Prog.Verify(hs[i], gover.Options{Budget: budget})
			v := res[i]
			loopOnly := v.Err == nil && len(v.Failed) > 0
			for _, f := range v.Failed {
				if !f.Havoc {
					loopOnly = false
				}
			}
			if v.Err != nil && v.Cuts > 0 || loopOnly {
				// an invariant that no longer fits: fall back to unrolling
				w := l.Prog.Verify(hs[i], gover.Options{Budget: budget / 2, NoInv: true})
				for _, f := range v.Failed {
					w.Lost = append(w.Lost, f)
				}
				if v.Err != nil {
					w.Lost = append(w.Lost, gover.Obligation{Name: "loop contracts of " + v.Name, Note: v.Err.Error()})
				}
				res[i] = w
			}
		}()
	}
	wg.Wait()
	<-sdone

	failing := map[string]bool{}
	for _, f := range found {
		for _, x := range f.Fails {
			key := f.Name + "/" + x.Assert
			if failing[key] {
				continue
			}
			failing[key] = true
			body := "obligation: " + x.Assert + "\ncontract: " + f.Name + "\nfailing input, run on the compiled code: " + strings.Join(x.Values, ", ") + "\n"
			if x.Stack != "" {
				body += "\n" + x.Stack
			}
			r.addViol(Violation{Key: slug(key), Title: fmt.Sprintf("%s: %q fails with %s", f.Name, x.Assert, strings.Join(x.Values, ", ")), Body: body, Confirmed: true})
		}
	}
	if serr != nil {
		fmt.Println("search on the compiled code:", firstLine(serr.Error()))
		if strings.Contains(serr.Error(), "goroutine") || strings.Contains(serr.Error(), "stack") {
			r.addViol(Violation{Key: "driver-crash", Title: "the compiled code ends the process", Body: serr.Error(), Confirmed: true})
		}
	}

	total, done, trivial, queries, millis, paths := 0, 0, 0, 0, 0, 0
	funcs, trusted, unrolled := map[string]bool{}, map[string]bool{}, map[string]int{}
	var bounded, open []string
	var samples []any
	for _, v := range res {
		for f := range v.Funcs {
			funcs[f] = true
		}
		for f := range v.Trusted {
			trusted[f] = true
		}
		queries += v.Queries
		millis += v.Millis
		paths += v.Paths
		for _, o := range v.Lost {
			bounded = append(bounded, fmt.Sprintf("%s: %s not re-established (%s)", v.Name, o.Name, firstLine(o.Note)))
		}
		if v.Err != nil {
			bounded = append(bounded, fmt.Sprintf("%s: outside the verifier's reach (%v)", v.Name, v.Err))
		}
		for f, n := range v.Bounded {
			unrolled[f] = n
		}
		for _, o := range v.Failed {
			key := v.Name + "/" + o.Name
			if o.Status != smt.Sat {
				open = append(open, fmt.Sprintf("%s: %s at %s: %s %s", v.Name, o.Name, o.Pos, o.Status, firstLine(o.Note)))
				continue
			}
			body := fmt.Sprintf("obligation: %s\ncontract: %s\nat: %s\nz3: %s %s\n", o.Name, v.Name, o.Pos, o.Status, o.Note)
			var ks []string
			for k := range o.Model {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			vals := map[string]string{}
			for _, k := range ks {
				body += fmt.Sprintf("   %s = %s\n", k, o.Model[k])
				n := k
				if j := strings.LastIndexByte(k, '!'); j >= 0 {
					n = k[:j]
				}
				vals[n] = plain(o.Model[k])
			}
			confirmed := false
			if rs, err := l.Run(contract.Query{Name: v.Name, Values: vals, Budget: 1, Seed: r.Seed, Millis: 10000}); err == nil {
				for _, x := range rs {
					for _, f := range x.Fails {
						confirmed = true
						body += fmt.Sprintf("\nreplayed on the compiled code: %q fails with %s\n%s\n", f.Assert, strings.Join(f.Values, ", "), f.Stack)
					}
				}
			}
			if !confirmed && o.Havoc {
				open = append(open, fmt.Sprintf("%s: %s at %s depends on a loop contract", v.Name, o.Name, o.Pos))
				continue
			}
			any := false
			for k := range failing {
				any = any || strings.HasPrefix(k, v.Name+"/")
			}
			if any && !confirmed {
				continue // the search has the input already
			}
			if failing[key] {
				continue
			}
			failing[key] = true
			r.addViol(Violation{Key: slug(key), Title: fmt.Sprintf("%s: %q is refuted", v.Name, o.Name), Body: body, Confirmed: confirmed})
		}
		total += v.Proved + len(v.Failed)
		done += v.Proved
		trivial += v.Trivial
		if len(samples) < 12 {
			samples = append(samples, map[string]any{"contract": v.Name, "obligations": v.Proved + len(v.Failed), "discharged": v.Proved, "paths": v.Paths, "ms": v.Millis})
		}
	}
	if r.ID == "C23" {
		// the effect contract of every function
		bad := 0
		seen := map[string]bool{}
		for _, e := range l.Prog.Effects() {
			total++
			funcs[e.Func] = true
			if e.OK {
				done++
				trivial++
				continue
			}
			if e.Open {
				open = append(open, fmt.Sprintf("%s: %s at %s: %s", e.Func, e.What, e.At, e.Why))
				continue
			}
			bad++
			key := "effect/" + e.Func + "/" + e.What
			if len(failing) > 0 || seen[key] {
				continue // the search has an input already
			}
			seen[key] = true
			r.addViol(Violation{Key: slug(key), Title: fmt.Sprintf("%s: %q fails: %s", e.Func, e.What, e.Why), Body: fmt.Sprintf("obligation: %s\nfunction: %s\nat: %s\nbecause: %s\n", e.What, e.Func, e.At, e.Why)})
		}
		if bad > 0 {
			fmt.Printf("%d obligations of the effect contracts fail\n", bad)
		}
	}
	for f, n := range unrolled {
		bounded = append(bounded, fmt.Sprintf("%s: unrolled %d times, more iterations not covered", f, n))
	}
	for _, d := range l.Dropped {
		bounded = append(bounded, "contract file left out, it does not fit this tree: "+d)
	}
	for _, f := range found {
		if strings.HasPrefix(f.Name, "Search_") {
			all := "a sample"
			if f.Complete {
				all = "its whole finite family"
			}
			bounded = append(bounded, fmt.Sprintf("%s: %d inputs run on the compiled code, %s", f.Name, f.Kept, all))
		}
	}
	sort.Strings(bounded)
	sort.Strings(open)
	runs, kept := 0, 0
	for _, f := range found {
		runs += f.Runs
		kept += f.Kept
	}
	r.Coverage["obligations"] = total
	r.Coverage["discharged"] = done
	r.Coverage["discharged_by_simplification"] = trivial
	r.Coverage["checker_cmd"] = "/verif/check.sh " + r.ID + " " + r.Tier + " (gover over go/ssa, back ends z3 4.8 and z3-new)"
	r.Coverage["trusted_base"] = append(keys(trusted), "z3", "golang.org/x/tools/go/ssa", "/verif/tool/gover", "/verif/tool/smt")
	r.Coverage["functions_under_contract"] = keys(funcs)
	r.Coverage["paths"] = paths
	r.Coverage["solver_queries"] = queries
	r.Coverage["solver_and_execution_ms"] = millis
	r.Coverage["bounded"] = bounded
	r.Coverage["not_discharged"] = open
	r.Coverage["rule"] = rule
	r.Coverage["samples"] = samples
	r.Coverage["evaluations"] = runs
	r.Coverage["distinct_nontrivial"] = kept
	r.Coverage["search"] = "the same contracts run on the compiled code, over small inputs in order and then random ones; it looks for failing inputs and is not counted as proof"
	if os.Getenv("BB_VERBOSE") != "" {
		for _, b := range bounded {
			fmt.Println("bounded:", b)
		}
		for _, f := range found {
			fmt.Println("search:", f.Name, f.Runs, f.Kept, f.Complete)
		}
	}
	for _, b := range open {
		fmt.Println("not discharged:", b)
	}
	fmt.Printf("%s: %d of %d obligations discharged, %d contracts, %d functions, search ran %d inputs\n", r.ID, done, total, len(res), len(funcs), runs)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func slug(s string) string { return strings.ReplaceAll(s, " ", "-") }

// plain turns an SMT value into the text the driver reads.
func plain(s string) string {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(- ") {
		return "-" + strings.TrimSuffix(s[3:], ")")
	}
	if strings.HasPrefix(s, "#x") || strings.HasPrefix(s, "#b") {
		var v uint64
		if s[1] == 'x' {
			fmt.Sscanf(s[2:], "%x", &v)
		} else {
			fmt.Sscanf(s[2:], "%b", &v)
		}
		return fmt.Sprint(int64(v))
	}
	return s
}
