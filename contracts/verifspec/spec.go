// Package verifspec is the specification vocabulary of the contracts laid over
// the repository. The verifier gives these functions their logical meaning; the
// bodies below are the executable meaning, used to replay and to search for
// failing inputs on the compiled code.
package verifspec

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type Harness struct {
	Prop, Name string
	F          func()
}

var All []Harness

func Register(prop, name string, f func()) { All = append(All, Harness{prop, name, f}) }

// Symbolic is true under the verifier.
func Symbolic() bool { return false }

type (
	discard struct{}
	failed  struct{ name string }
)

type choice struct{ n, i int }

var (
	given  map[string]string
	trail  []choice
	at     int
	random *rand.Rand
	used   []string
)

func choose(n int) int {
	if n <= 1 {
		return 0
	}
	if random != nil {
		return random.Intn(n)
	}
	if at == len(trail) {
		trail = append(trail, choice{n, 0})
	}
	c := trail[at]
	at++
	return c.i
}

func note(name, v string) { used = append(used, name+"="+v) }

// Note shows a text made of the choices in replays.
func Note(name, v string) { note(name, strconv.Quote(v)) }

// Int is an arbitrary integer in [lo, hi].
func Int(name string, lo, hi int64) int64 {
	v := lo
	if s, ok := given[name]; ok {
		v, _ = strconv.ParseInt(s, 10, 64)
	} else if uint64(hi-lo) <= 80 {
		v = lo + int64(choose(int(hi-lo)+1))
	} else if random != nil && random.Intn(3) > 0 {
		if w := uint64(hi - lo); w+1 == 0 {
			v = int64(random.Uint64())
		} else {
			v = lo + int64(random.Uint64()%(w+1))
		}
	} else {
		set := interesting(lo, hi)
		v = set[choose(len(set))]
	}
	note(name, strconv.FormatInt(v, 10))
	return v
}

func interesting(lo, hi int64) []int64 {
	var out []int64
	seen := map[int64]bool{}
	add := func(v int64) {
		if v >= lo && v <= hi && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, v := range []int64{0, 1, -1, 2, 3, 7, 8, 9, -2, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 72, 80, 127, 128, 129, 255, 256, 257} {
		add(v)
	}
	add(lo)
	add(hi)
	add(lo + 1)
	add(hi - 1)
	for k := 9; k < 63; k++ {
		for d := int64(-1); d <= 1; d++ {
			add(int64(1)<<k + d)
			add(-(int64(1) << k) + d)
		}
	}
	return out
}

// Digits is the text of a number under the verb d, x, X or b.
func Digits(n uint64, verb string) string { return fmt.Sprintf("%"+verb, n) }

// Bool is an arbitrary truth value.
func Bool(name string) bool {
	v := false
	if s, ok := given[name]; ok {
		v = s == "true"
	} else {
		v = choose(2) == 1
	}
	note(name, strconv.FormatBool(v))
	return v
}

// Choose is an arbitrary number in [0, n).
func Choose(name string, n int) int {
	v := 0
	if s, ok := given[name]; ok {
		v, _ = strconv.Atoi(s)
	} else {
		v = choose(n)
	}
	note(name, strconv.Itoa(v))
	return v
}

// Pick is an arbitrary one of the given texts.
func Pick(name string, opts ...string) string { return opts[Choose(name, len(opts))] }

// Str is an arbitrary text of ASCII characters. The search uses texts over the
// alphabet, up to max characters; the verifier does not bound the length.
func Str(name, alphabet string, max int) string {
	v := ""
	if s, ok := given[name]; ok {
		v = unesc(s)
	} else {
		n := choose(max + 1)
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[choose(len(alphabet))]
		}
		v = string(b)
	}
	note(name, strconv.Quote(v))
	return v
}

func unesc(s string) string {
	if len(s) >= 2 && s[0] == '"' {
		if u, err := strconv.Unquote(s); err == nil {
			return u
		}
	}
	return s
}

// Any is an arbitrary value of a type; only the verifier has it.
func Any[T any](name string) T { panic("verifspec.Any outside the verifier") }

// Lit is the schema text of a non-negative integer.
func Lit(n int64) string { return strconv.FormatInt(n, 10) }

func Assume(b bool) {
	if !b {
		panic(discard{})
	}
}

func Assert(name string, b bool) {
	if !b {
		panic(failed{name})
	}
}

func Implies(a, b bool) bool { return !a || b }
func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }

// Forall is true when f holds for every integer in [lo, hi).
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallInt quantifies over all integers; the executable meaning covers the
// small ones.
func ForallInt(f func(i int) bool) bool { return Forall(-64, 64, f) }

// Fold maps the characters of s, dropping those mapped to a negative number.
func Fold(tag, s string, f func(c rune) rune) string {
	var b strings.Builder
	for _, c := range s {
		if d := f(c); d >= 0 {
			b.WriteRune(d)
		}
	}
	return b.String()
}

// FoldAll is the concatenation of the folds of the elements.
func FoldAll(tag string, ss []string, f func(c rune) rune) string {
	return Fold(tag, strings.Join(ss, ""), f)
}

// BVMode makes the verifier treat integers as bit vectors from here on.
func BVMode() {}

// Inline makes the verifier use the bodies of the named functions, not their
// contracts (Spec_…).
func Inline(names ...string) {}

// Replace makes the verifier call f (receiver first) where the code calls the
// function named; it records what that function is given. Verifier only.
func Replace(name string, f any) {}

// Dir is a directory that is empty when a harness starts.
func Dir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "dir")
		if err != nil {
			panic(err)
		}
		dir, _ = filepath.EvalSymlinks(d)
	}
	return dir
}

var dir string

func clearDir() {
	if dir == "" {
		return
	}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

// File puts a text file into Dir and returns its path.
func File(name, text string) string {
	p := filepath.Join(Dir(), name)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
	return p
}

// MayPanic runs f and tells whether it panicked.
func MayPanic(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case discard, failed:
				panic(e)
			}
			r = true
		}
	}()
	f()
	return false
}

// ---- running ----

type Fail struct {
	Assert string
	Values []string
	Stack  string `json:",omitempty"`
}

type Result struct {
	Name     string
	Runs     int
	Kept     int
	Complete bool
	Fails    []Fail
}

func once(f func()) (kept bool, fail *Fail) {
	used, at = nil, 0
	clearDir()
	defer func() {
		switch e := recover().(type) {
		case nil:
			kept = true
		case discard:
		case failed:
			kept = true
			fail = &Fail{Assert: e.name, Values: append([]string{}, used...)}
		default:
			kept = true
			st := string(debug.Stack())
			fail = &Fail{Assert: fmt.Sprintf("no panic: %v", e), Values: append([]string{}, used...), Stack: st}
		}
	}()
	f()
	return
}

// Run explores one harness: every choice up to budget runs, then random ones.
func Run(h Harness, values map[string]string, budget int, seed int64, limit time.Duration) Result {
	r := Result{Name: h.Name}
	given = values
	seen := map[string]int{}
	t0 := time.Now()
	busy := make(chan bool)
	go func() {
		last := -1
		for {
			select {
			case <-busy:
				return
			case <-time.After(20 * time.Second):
				if r.Runs == last {
					b, _ := json.Marshal(Result{Name: h.Name, Runs: last, Kept: r.Kept, Fails: append(r.Fails, Fail{Assert: "terminates", Values: append([]string{}, used...)})})
					fmt.Println(string(b))
					os.Exit(0)
				}
				last = r.Runs
			}
		}
	}()
	one := func() {
		r.Runs++
		kept, fail := once(h.F)
		if kept {
			r.Kept++
		}
		if fail != nil && seen[fail.Assert] < 3 && len(r.Fails) < 30 {
			seen[fail.Assert]++
			r.Fails = append(r.Fails, *fail)
		}
	}
	random = nil
	if values != nil {
		trail = nil
		one()
		close(busy)
		return r
	}
	trail = nil
	for r.Runs < budget*2/3 && time.Since(t0) < limit/3 {
		one()
		for len(trail) > 0 && trail[len(trail)-1].i+1 >= trail[len(trail)-1].n {
			trail = trail[:len(trail)-1]
		}
		if len(trail) == 0 {
			r.Complete = true
			break
		}
		trail[len(trail)-1].i++
	}
	if !r.Complete {
		random = rand.New(rand.NewSource(seed))
		for r.Runs < budget && time.Since(t0) < limit {
			one()
		}
	}
	close(busy)
	return r
}

// Main is the driver's entry: PROP or a harness name, then options in JSON.
func Main() {
	var o struct {
		Prop, Name string
		Values     map[string]string
		Budget     int
		Seed       int64
		Millis     int
	}
	if err := json.Unmarshal([]byte(os.Args[1]), &o); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, h := range All {
		if o.Prop != "" && h.Prop != o.Prop || o.Name != "" && h.Name != o.Name {
			continue
		}
		r := Run(h, o.Values, o.Budget, o.Seed, time.Duration(o.Millis)*time.Millisecond)
		b, _ := json.Marshal(r)
		fmt.Println(string(b))
	}
}

// Old is a copy of everything reachable from x.
func Old[T any](x T) T { return deepCopy(x) }
