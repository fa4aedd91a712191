package gcv

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Task is one generated module: a batch compiled for a target with options.
type Task struct {
	B    *Batch
	T    Target
	Opts []string
}

func (t *Task) String() string {
	return fmt.Sprintf("%s/%s [%s]", t.B.Name, t.T.Name, strings.Join(t.Opts, " "))
}

// Rejection is a valid schema the compiler did not accept, or output that the
// front end could not read.
type Rejection struct {
	Task *Task
	Gen  bool
	Err  error
}

// Report collects everything a run did.
type Report struct {
	mu      sync.Mutex
	Tasks   int
	Results []Result
	Reject  []Rejection
	Funcs   map[string]bool // target/struct.function under contract
	ByT     map[string]int
	Skipped int // tasks not started before the deadline
}

// Plan selects what to verify.
type Plan struct {
	C        *Compiler
	Batches  []*Batch
	Targets  []string
	Deadline time.Time
	Scratch  string
	Seed     int64
	Verify   func(u *Unit, j *Job) []Result
	MaxFail  int // stop early once this many obligations failed
}

func (p *Plan) Run() *Report {
	rep := &Report{Funcs: map[string]bool{}, ByT: map[string]int{}}
	var tasks []*Task
	for _, b := range p.Batches {
		opts := b.Opts
		if opts == nil {
			opts = [][]string{nil}
		}
		for _, o := range opts {
			for _, t := range Targets {
				if len(p.Targets) > 0 && !hasStr(p.Targets, t.Name) || len(b.Targets) > 0 && !hasStr(b.Targets, t.Name) {
					continue
				}
				tasks = append(tasks, &Task{b, t, o})
			}
		}
	}
	ch := make(chan *Task)
	var wg sync.WaitGroup
	nf := 0
	for i := 0; i < runtime.NumCPU(); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for t := range ch {
				rep.mu.Lock()
				stop := p.MaxFail > 0 && nf >= p.MaxFail || !p.Deadline.IsZero() && time.Now().After(p.Deadline)
				if stop {
					rep.Skipped++
				}
				rep.mu.Unlock()
				if stop {
					continue
				}
				n := p.one(t, rep)
				rep.mu.Lock()
				nf += n
				rep.mu.Unlock()
			}
		}()
	}
	for _, t := range tasks {
		ch <- t
	}
	close(ch)
	wg.Wait()
	return rep
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Emit writes the schema files of a batch and generates code into out.
func (t *Task) Emit(c *Compiler, dir, out string) error {
	if err := WriteFile(dir, "m.bb", t.B.File); err != nil {
		return err
	}
	for n, f := range t.B.Extra {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755)
		if err := WriteFile(dir, n, f); err != nil {
			return err
		}
	}
	return c.Generate(dir, "m.bb", t.T.Name, out, t.Opts...)
}

func (p *Plan) one(t *Task, rep *Report) (nfail int) {
	dir, err := os.MkdirTemp(p.Scratch, "g")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	var m *Module
	rej := func(gen bool, err error) {
		rep.mu.Lock()
		rep.Reject = append(rep.Reject, Rejection{t, gen, err})
		rep.mu.Unlock()
	}
	if err := t.Emit(p.C, dir, out); err != nil {
		rej(true, err)
		return 1
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("front end: %v", r)
			}
		}()
		m, err = LoadDir(t.T, out)
	}()
	if err != nil {
		rej(false, err)
		return 0
	}
	rep.mu.Lock()
	rep.Tasks++
	rep.mu.Unlock()
	for _, j := range t.B.Jobs {
		if !p.Deadline.IsZero() && time.Now().After(p.Deadline) {
			rep.mu.Lock()
			rep.Skipped++
			rep.mu.Unlock()
			return
		}
		u := &Unit{Target: t.T, Mod: m, File: t.B.File, S: j.S, Opts: strings.Join(t.Opts, " "), Seed: p.Seed, Task: t}
		rs := p.Verify(u, j)
		rep.mu.Lock()
		for _, r := range rs {
			if len(r.Failed) > 0 && CanReplay(t.T.Name) {
				nfail++
			}
			rep.Results = append(rep.Results, r)
			rep.ByT[t.T.Name] += r.Proved
			rep.Funcs[t.T.Name+"/"+t.B.Name+"/"+j.S.Name+"."+strings.SplitN(r.Contract, "@", 2)[0]] = true
		}
		rep.mu.Unlock()
	}
	return
}
