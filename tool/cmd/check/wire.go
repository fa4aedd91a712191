package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
	"time"

	"verif/gcv"
	"verif/sym"
)

// Checks decided by contracts on the generated functions.

type wireCheck struct {
	batches func(deep bool) []*gcv.Batch
	verify  func(u *gcv.Unit, j *gcv.Job, deep bool) []gcv.Result
	kinds   string // concrete sampling where the interpreter does not reach
	what    string
}

func starts(j *gcv.Job, deep bool, def ...int) []int {
	if j.Starts != nil {
		return j.Starts
	}
	return def
}

func shapes(j *gcv.Job) []gcv.Shape {
	if len(j.Shapes) == 0 {
		return []gcv.Shape{{}}
	}
	return j.Shapes
}

func init() {
	reg := func(id string, w wireCheck) { checks[id] = func(r *Run) { r.wire(w) } }
	reg("C01", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.ScalarBatches("m", deep) },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for i, st := range starts(j, deep, 0, 2) {
				if i == 0 || deep || smallWidth(j) {
					out = append(out, u.EncodeContract(gcv.Shape{}, st, false))
				}
			}
			return
		},
		kinds: "e", what: "encode contract of every struct of the scalar family",
	})
	reg("C02", wireCheck{
		batches: func(deep bool) []*gcv.Batch {
			return append(gcv.ScalarBatches("m", deep), gcv.SignBatches("m", deep)...)
		},
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for i, st := range starts(j, deep, 0, 2) {
				if i == 0 || deep || smallWidth(j) {
					out = append(out, u.DecodeContract(gcv.Shape{}, st, 1))
				}
			}
			return
		},
		kinds: "d", what: "decode contract of every struct of the scalar family",
	})
	reg("C03", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.ConstBatches("m") },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			out = append(out, u.EncodeContract(gcv.Shape{}, 0, false), u.ConstContract(gcv.Shape{}, 1))
			if deep {
				out = append(out, u.EncodeContract(gcv.Shape{}, 2, false), u.ConstContract(gcv.Shape{}, 0), u.DecodeContract(gcv.Shape{}, 0, 1))
			}
			return
		},
		kinds: "ec", what: "encode and constant-enforcement contracts of every struct of the constant family",
	})
	reg("C04", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.ArrayBatches("m", deep) },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for _, sp := range shapes(j) {
				out = append(out, u.EncodeContract(sp, 0, false), u.DecodeContract(sp, 2, 1))
				if deep {
					out = append(out, u.EncodeContract(sp, 3, false), u.DecodeContract(sp, 0, 1))
				}
			}
			return
		},
		kinds: "ed", what: "encode and decode contracts of arrays, nested and embedded structs",
	})
	reg("C05", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.StringBatches("m") },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for _, sp := range shapes(j) {
				out = append(out, u.EncodeContract(sp, 0, false), u.DecodeContract(sp, 0, 2), u.EncodeContract(sp, 3, false), u.DecodeContract(sp, 3, 0))
			}
			return
		},
		kinds: "ed", what: "encode and decode contracts of strings and blobs",
	})
	reg("C06", wireCheck{
		batches: func(deep bool) []*gcv.Batch {
			bs := gcv.StringBatches("m")
			bs = append(bs, gcv.OptionBatches("m", false)[0])
			bs[len(bs)-1].Opts = [][]string{nil}
			for _, b := range gcv.ArrayBatches("m", false) {
				if deep || b.Name == "nest" || b.Name == "dyn" {
					bs = append(bs, b)
				}
			}
			return bs
		},
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for _, sp := range shapes(j) {
				out = append(out, u.SizeContract(sp, 0))
				if deep {
					out = append(out, u.SizeContract(sp, 3))
				}
			}
			for b := 0; b < gcv.Blobs(j.S); b++ {
				for k := 1; k <= 5; k++ {
					out = append(out, u.LongSizeContract(b, k))
				}
			}
			return
		},
		kinds: "s", what: "size contracts: encode_size, the size constant and decode_size against the layout",
	})
	reg("C07", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.MalBatches("m", deep) },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for n := 0; n <= j.Mal; n++ {
				out = append(out, u.MalContract(n, 0))
				if n >= j.Mal-1 {
					out = append(out, u.MalContract(n, 2))
				}
			}
			return
		},
		kinds: "m", what: "malformed-data contracts of decode_size and of the length-checking decodes",
	})
	reg("C08", wireCheck{
		batches: func(deep bool) []*gcv.Batch { return gcv.OptionBatches("m", deep) },
		verify: func(u *gcv.Unit, j *gcv.Job, deep bool) (out []gcv.Result) {
			for _, sp := range shapes(j) {
				out = append(out, u.EncodeContract(sp, 0, false), u.DecodeContract(sp, 0, 1), u.SizeContract(sp, 0))
				if deep {
					out = append(out, u.EncodeContract(sp, 2, false), u.DecodeContract(sp, 2, 1), u.ConstContract(sp, 0))
				}
			}
			return
		},
		kinds: "eds", what: "encode, decode and size contracts under every option set",
	})
}

func smallWidth(j *gcv.Job) bool {
	for _, f := range j.S.Fields {
		if !f.Void && f.EW > 16 {
			return false
		}
	}
	return true
}

func hash(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%012x", h.Sum64()&0xffffffffffff)
}

func (r *Run) compiler() *gcv.Compiler { return &gcv.Compiler{Bin: r.Bubbler} }

func schemaText(t *gcv.Task) string {
	var s strings.Builder
	fmt.Fprintf(&s, "target: %s\noptions: %s\n", t.T.Name, strings.Join(t.Opts, " "))
	fmt.Fprintf(&s, "command: bubbler -t %s -o OUT %s m.bb\n", t.T.Name, strings.Join(t.Opts, " "))
	fmt.Fprintf(&s, "--- m.bb\n%s", t.B.File.BB())
	var ns []string
	for n := range t.B.Extra {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Fprintf(&s, "--- %s\n%s", n, t.B.Extra[n].BB())
	}
	s.WriteString("---\n")
	return s.String()
}

func caseBody(c *gcv.Case) string {
	var s strings.Builder
	fmt.Fprintf(&s, "call: %s of struct %s at start %d", c.Kind, c.Struct.Name, c.Start)
	if c.Kind != "encode" && c.Kind != "size" {
		fmt.Fprintf(&s, " with %d bytes of data", c.N)
	}
	s.WriteString("\n")
	if c.Buf != nil {
		fmt.Fprintf(&s, "buffer: %s\n", hex.EncodeToString(c.Buf))
	}
	if c.V != nil {
		fmt.Fprintf(&s, "values: %s\n", c.Values())
	}
	if c.Want != nil {
		fmt.Fprintf(&s, "expected bytes at start: %s\n", hex.EncodeToString(c.Want))
	}
	return s.String()
}

func (r *Run) wire(w wireCheck) {
	r.Level = "translation_validation"
	gcv.Budget = 15 * time.Second
	limit := 280 * time.Second
	sym.CrossEvery = 400
	if r.deep() {
		gcv.Budget = 120 * time.Second
		limit = 50 * time.Minute
		sym.CrossEvery = 40
	}
	bs := w.batches(r.deep())
	p := &gcv.Plan{C: r.compiler(), Batches: bs, Deadline: r.T0.Add(limit), Scratch: r.Scratch, Seed: r.Seed, MaxFail: 12}
	p.Verify = func(u *gcv.Unit, j *gcv.Job) []gcv.Result { return w.verify(u, j, r.deep()) }
	rep := p.Run()
	r.judge(w, rep, p)
}

func (r *Run) judge(w wireCheck, rep *gcv.Report, p *gcv.Plan) {
	c := r.compiler()
	rng := rand.New(rand.NewSource(r.Seed))
	proved, refuted, undecided, normal, solver, crossed, ms, paths := 0, 0, 0, 0, 0, 0, 0, 0
	type grp struct {
		t    *gcv.Task
		res  []*gcv.Result
		errs []*gcv.Result
	}
	groups := map[*gcv.Task]*grp{}
	var order []*gcv.Task
	g := func(t *gcv.Task) *grp {
		if groups[t] == nil {
			groups[t] = &grp{t: t}
			order = append(order, t)
		}
		return groups[t]
	}
	for i := range rep.Results {
		x := &rep.Results[i]
		proved += x.Proved
		normal += x.Normal
		solver += x.Solver
		crossed += x.Crossed
		ms += x.Millis
		paths += x.Paths
		refuted += len(x.Failed)
		if len(x.Failed) > 0 {
			g(x.Unit.Task).res = append(g(x.Unit.Task).res, x)
		}
		if x.Err != nil {
			undecided++
			g(x.Unit.Task).errs = append(g(x.Unit.Task).errs, x)
		}
	}
	ran, unconf := 0, []string{}
	bounded := []string{}
	confirmedTasks := 0
	sort.SliceStable(order, func(i, j int) bool { return len(groups[order[i]].res) > len(groups[order[j]].res) })
	// compiler failures on valid schemas
	for _, rj := range rep.Reject {
		if rj.Gen {
			r.addViol(Violation{Key: "reject-" + hash(rj.Task.B.File.BB()+rj.Task.T.Name), Title: "the compiler fails on a valid schema: " + firstLine(rj.Err.Error()), Confirmed: true,
				Body: schemaText(rj.Task) + "\noutput of the compiler:\n" + rj.Err.Error() + "\n"})
			continue
		}
		bounded = append(bounded, fmt.Sprintf("%s: front end: %v", rj.Task, rj.Err))
		r.concrete(w, c, rj.Task, rj.Task.B.Jobs, rng, 6, &ran, "the generated code of "+rj.Task.String())
	}
	for _, t := range order {
		gr := groups[t]
		if len(gr.res) > 0 && confirmedTasks < 4 && len(r.Viol) < 8 {
			var cs []*gcv.Case
			var own []*gcv.Result
			var obl []gcv.Obligation
			for _, x := range gr.res {
				n := 0
				for _, o := range x.Failed {
					if o.Case != nil && n < 3 && len(cs) < 24 {
						cs, own, obl = append(cs, o.Case), append(own, x), append(obl, o)
						n++
					}
				}
			}
			first := gr.res[0]
			verdict := fmt.Sprintf("%s of %s.%s (%s): %s", first.Contract, t.T.Name, first.Struct, strings.Join(t.Opts, " "), first.Failed[0].Msg)
			if !gcv.CanReplay(t.T.Name) {
				r.addViol(Violation{Key: hash(t.T.Name + first.Struct + first.Failed[0].Name), Title: "obligation refuted: " + verdict,
					Body: schemaText(t) + oblText(first) + "there is no runtime for this language here; the counterexample could not be run\n"})
				continue
			}
			outs, err := gcv.RunCases(c, t, r.Scratch, cs)
			done := false
			if err != nil {
				r.addViol(Violation{Key: "build-" + hash(t.B.File.BB()+t.T.Name), Title: "the generated code of a valid schema does not build: " + t.String(), Confirmed: true,
					Body: schemaText(t) + oblText(first) + "\nbuilding the generated code:\n" + err.Error() + "\n"})
				confirmedTasks++
				continue
			}
			for i, o := range outs {
				if o.Ran {
					ran++
				}
				if o.Bad && !done {
					done = true
					x := own[i]
					r.addViol(Violation{Key: hash(t.T.Name + x.Struct + obl[i].Name), Confirmed: true,
						Title: fmt.Sprintf("%s %s: %s", t.T.Name, x.Struct, o.Detail),
						Body:  schemaText(t) + oblText(x) + "\nreplayed on the generated code:\n" + caseBody(cs[i]) + "observed: " + o.Observed + "\n" + o.Detail + "\n"})
				}
			}
			if done {
				confirmedTasks++
				continue
			}
			// the counterexample itself does not fail: sample the struct
			var js []*gcv.Job
			for _, x := range gr.res {
				js = append(js, jobOf(t, x.Unit.S))
			}
			if r.concrete(w, c, t, js, rng, 20, &ran, verdict) {
				confirmedTasks++
				continue
			}
			unconf = append(unconf, verdict)
			r.addViol(Violation{Key: hash(t.T.Name + first.Struct + first.Failed[0].Name), Title: "obligation refuted: " + verdict,
				Body: schemaText(t) + oblText(first) + "the counterexample was run on the generated code and did not fail there\n"})
			continue
		}
		if len(gr.errs) > 0 && len(r.Viol) < 8 {
			var js []*gcv.Job
			seen := map[*gcv.SStruct]bool{}
			for _, x := range gr.errs {
				bounded = append(bounded, fmt.Sprintf("%s %s %s: %v", t, x.Struct, x.Contract, x.Err))
				if !seen[x.Unit.S] {
					seen[x.Unit.S] = true
					js = append(js, jobOf(t, x.Unit.S))
				}
			}
			if gcv.CanReplay(t.T.Name) {
				r.concrete(w, c, t, js, rng, 6, &ran, "")
			}
		}
	}
	if len(bounded) > 40 {
		bounded = append(bounded[:40], fmt.Sprintf("... %d more", len(bounded)-40))
	}
	var samples []any
	for i := 0; i < len(rep.Results) && len(samples) < 6; i += len(rep.Results)/6 + 1 {
		x := rep.Results[i]
		samples = append(samples, map[string]any{"target": x.Target, "struct": x.Struct, "options": x.Opts, "contract": x.Contract, "obligations_discharged": x.Proved, "paths": x.Paths})
	}
	cv := r.Coverage
	cv["programs"] = rep.Tasks
	cv["functions_under_contract"] = len(rep.Funcs)
	cv["contracts"] = len(rep.Results)
	cv["obligations"] = proved + refuted + undecided
	cv["discharged"] = proved
	cv["discharged_by_normal_form"] = normal
	cv["discharged_by_solver"] = solver
	cv["solver_answers_confirmed_by_z3"] = crossed
	cv["solver_ms"] = ms
	cv["symbolic_paths"] = paths
	cv["by_target"] = rep.ByT
	cv["disagreements_checked"] = refuted
	cv["concrete_replays"] = ran
	cv["bounded_instead_of_proved"] = bounded
	cv["refuted_but_not_reproduced"] = unconf
	cv["not_started_before_deadline"] = rep.Skipped
	cv["samples"] = samples
	cv["checker_cmd"] = "verif/tool/cmd/check " + r.ID + " " + r.Tier
	cv["trusted_base"] = []string{
		"the interpreters of the nine generated languages in tool/gcv (subset semantics, cross-checked against the real compilers and runtimes for eight of them)",
		"the wire-layout specification in tool/gcv/schema.go and sval.go, written from the documentation",
		"the and-inverter-graph normal form and the CDCL solver in tool/sym (satisfying models are re-evaluated; unsatisfiable answers are sampled against z3)",
	}
	r.Assume = []string{
		"every statement is for all values, all buffer contents and the listed shapes of one generated program; schemas are the stated families, not all schemas",
		"encode's destination holds zeroes in the bytes of the frame (the documented use; encoders OR into reserved bits)",
		"Kotlin code cannot be executed here: its refutations carry no replay",
	}
	if rep.Tasks == 0 || proved == 0 {
		r.addViol(Violation{Key: "vacuous", Title: "no obligation was generated", Body: "the check generated no obligation: the compiler produced nothing the verifier could read\n"})
	}
}

func jobOf(t *gcv.Task, s *gcv.SStruct) *gcv.Job {
	for _, j := range t.B.Jobs {
		if j.S == s {
			return j
		}
	}
	return &gcv.Job{S: s}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func oblText(x *gcv.Result) string {
	var s strings.Builder
	fmt.Fprintf(&s, "contract: %s of struct %s\nfailed obligations:\n", x.Contract, x.Struct)
	for _, o := range x.Failed {
		fmt.Fprintf(&s, "  %s: %s (generated code line %d)\n", o.Name, o.Msg, o.Line)
		var ks []string
		for k := range o.Model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s.WriteString("    counterexample:")
		for _, k := range ks {
			fmt.Fprintf(&s, " %s=%s", k, o.Model[k])
		}
		s.WriteString("\n")
	}
	return s.String()
}

// concrete samples the contracts on the real generated code. It reports
// whether a failure was found.
func (r *Run) concrete(w wireCheck, c *gcv.Compiler, t *gcv.Task, js []*gcv.Job, rng *rand.Rand, n int, ran *int, verdict string) bool {
	if !gcv.CanReplay(t.T.Name) {
		return false
	}
	var cs []*gcv.Case
	for _, j := range js {
		cs = append(cs, gcv.ConcreteCases(rng, j, n, w.kinds, t.T.Name)...)
	}
	if len(cs) > 400 {
		rng.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
		cs = cs[:400]
	}
	if len(cs) == 0 {
		return false
	}
	outs, err := gcv.RunCases(c, t, r.Scratch, cs)
	if err != nil {
		r.addViol(Violation{Key: "build-" + hash(t.B.File.BB()+t.T.Name), Title: "the generated code of a valid schema does not build: " + t.String(), Confirmed: true,
			Body: schemaText(t) + "\nbuilding the generated code:\n" + err.Error() + "\n"})
		return true
	}
	for i, o := range outs {
		if o.Ran {
			*ran++
		}
		if o.Bad {
			r.addViol(Violation{Key: hash(t.T.Name + cs[i].Struct.Name + cs[i].Kind), Confirmed: true,
				Title: fmt.Sprintf("%s %s: %s", t.T.Name, cs[i].Struct.Name, o.Detail),
				Body:  schemaText(t) + verdict + "\nrun on the generated code:\n" + caseBody(cs[i]) + "observed: " + o.Observed + "\n" + o.Detail + "\n"})
			return true
		}
	}
	return false
}
