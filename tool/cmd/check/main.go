// Command check decides one property on the current tree of /repo.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Violation is one failed obligation with whatever was found about it.
type Violation struct {
	Key       string // stable identification, for the known-findings file
	Title     string
	Body      string // the replay file
	Confirmed bool   // a failing input was run on the real code
}

// Run is the state of one check.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Repo     string
	Verif    string
	Bubbler  string
	Scratch  string
	T0       time.Time
	Level    string
	Coverage map[string]any
	Assume   []string
	Viol     []Violation
	mu       sync.Mutex
}

func (r *Run) deep() bool { return r.Tier == "thorough" }

func (r *Run) addViol(v Violation) {
	r.mu.Lock()
	r.Viol = append(r.Viol, v)
	r.mu.Unlock()
}

var checks = map[string]func(r *Run){}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: check ID [quick|thorough]")
		os.Exit(2)
	}
	r := &Run{ID: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Seed: 1, T0: time.Now(), Coverage: map[string]any{}}
	if len(os.Args) > 2 {
		r.Tier = os.Args[2]
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		r.Seed = s
	}
	get := func(k, d string) string {
		if v := os.Getenv(k); v != "" {
			return v
		}
		return d
	}
	r.Repo, r.Verif = get("BB_REPO", "/repo"), get("BB_VERIF", "/verif")
	r.Bubbler, r.Scratch = os.Getenv("BB_BIN"), get("BB_SCRATCH", os.TempDir())
	f := checks[r.ID]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check", r.ID)
		os.Exit(2)
	}
	f(r)
	os.Exit(r.finish())
}

// known reads the findings recorded for this property: key -> text.
func (r *Run) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.Verif, "KNOWN_FINDINGS"))
	if err != nil {
		return out
	}
	for _, ln := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <what fails>
		p := strings.SplitN(strings.TrimSpace(ln), " ", 4)
		if len(p) == 4 && p[0] == "finding:" && p[1] == "property="+r.ID && strings.HasPrefix(p[2], "key=") {
			out[strings.TrimPrefix(p[2], "key=")] = p[3]
		}
	}
	return out
}

func (r *Run) finish() int {
	known := r.known()
	hit := map[string]bool{}
	var vs []Violation
	for _, v := range r.Viol {
		if _, ok := known[v.Key]; ok {
			hit[v.Key] = true
			continue
		}
		vs = append(vs, v)
	}
	var hs []string
	for k := range hit {
		hs = append(hs, k)
	}
	sort.Strings(hs)
	for _, k := range hs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, known[k])
	}
	sort.SliceStable(vs, func(i, j int) bool { return vs[i].Confirmed && !vs[j].Confirmed })
	dir := filepath.Join(r.Verif, "evidence", "replay", r.ID)
	os.RemoveAll(dir)
	if len(vs) > 0 {
		os.MkdirAll(dir, 0o755)
	}
	for i, v := range vs {
		if i >= 5 {
			break
		}
		p := filepath.Join(dir, fmt.Sprintf("%d.txt", i+1))
		os.WriteFile(p, []byte("property "+r.ID+"\n"+v.Title+"\n\n"+v.Body), 0o644)
		end := ""
		if !v.Confirmed {
			end = " no-failing-input-found"
		}
		fmt.Printf("%s: %s\n", r.ID, v.Title)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.ID, p, end)
	}
	ev := map[string]any{"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": r.Coverage, "wall_s": time.Since(r.T0).Seconds(), "violations": len(vs)}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d violation(s), %.1f s\n", r.ID, r.Tier, len(vs), time.Since(r.T0).Seconds())
	if len(vs) > 0 {
		return 1
	}
	return 0
}
