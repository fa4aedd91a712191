// Package contract lays the contracts of /verif over the repository, builds the
// driver that runs them on the compiled code, and loads them for the verifier.
package contract

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/gover"
)

const Mod = "github.com/xaxys/bubbler"

type Lab struct {
	Root, Verif string
	Dir         string
	Dropped     []string
	Prog        *gover.Prog
	driver      string
	dump        *dumper
	driverErr   error
	driverOnce  sync.Once
	parseOnce   sync.Once
	cache       sync.Map
}

func env() []string {
	var e []string
	for _, v := range os.Environ() {
		switch {
		case strings.HasPrefix(v, "GOFLAGS="), strings.HasPrefix(v, "GOPROXY="), strings.HasPrefix(v, "GOWORK="), strings.HasPrefix(v, "GOTOOLCHAIN="):
			continue
		}
		e = append(e, v)
	}
	return append(e, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

// files maps paths in the repository to the files laid over them.
func (l *Lab) files() (map[string]string, error) {
	out := map[string]string{}
	base := filepath.Join(l.Verif, "contracts")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(base, p)
		if strings.HasPrefix(rel, "driver/") {
			rel = "zz_verif" + rel
		}
		if strings.HasPrefix(rel, "dump/") {
			rel = "zz_verif" + rel
		}
		out[filepath.Join(l.Root, rel)] = p
		return nil
	})
	return out, err
}

// Open loads the repository with its contracts.
//
// Contract files named zz_cNN….go belong to one property; those of the other
// properties are left out when prop is given. A contract file that no longer
// type-checks against the tree is dropped and listed in l.Dropped.
func Open(root, verif, prop string) (*Lab, error) {
	drop := map[string]bool{}
	var dropped []string
	for {
		l, bad, err := open(root, verif, prop, drop)
		if err == nil {
			l.Dropped = dropped
			go l.build()
			return l, nil
		}
		if len(bad) == 0 || len(dropped) > 20 {
			return nil, err
		}
		for _, b := range bad {
			drop[b] = true
			dropped = append(dropped, fmt.Sprintf("%s (%v)", b, firstLine(err.Error())))
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimPrefix(s, "load: ")
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

var propFile = regexp.MustCompile(`^zz_(c[0-9][0-9])`)

func open(root, verif, prop string, drop map[string]bool) (*Lab, []string, error) {
	l := &Lab{Root: root, Verif: verif}
	fs, err := l.files()
	if err != nil {
		return nil, nil, err
	}
	l.Dir, err = os.MkdirTemp("", "bbc.")
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	rep := map[string]string{}
	for dst, src := range fs {
		rel, _ := filepath.Rel(root, dst)
		if q := propFile.FindStringSubmatch(filepath.Base(dst)); drop[rel] || prop != "" && q != nil && !strings.EqualFold(q[1], prop) {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
		rep[dst] = src
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(filepath.Join(l.Dir, "overlay.json"), b, 0o644); err != nil {
		return nil, nil, err
	}
	l.Prog, err = gover.Load(root, Mod, ov, env(), ".", "./util", "./definition", "./compiler", "./parser", "./fileio", "./generator/...", "./verifspec")
	if err != nil {
		l.Close()
		var bad []string
		for dst := range ov {
			if strings.Contains(err.Error(), dst+":") && strings.HasPrefix(filepath.Base(dst), "zz_") {
				rel, _ := filepath.Rel(root, dst)
				bad = append(bad, rel)
			}
		}
		sort.Strings(bad)
		return nil, bad, err
	}
	l.Prog.Parse = l.parse
	return l, nil, nil
}

func (l *Lab) build() {
	l.driverOnce.Do(func() {
		l.driver = filepath.Join(l.Dir, "driver")
		cmd := exec.Command("go", "build", "-overlay", filepath.Join(l.Dir, "overlay.json"), "-o", l.driver, "./zz_verifdriver")
		cmd.Dir = l.Root
		cmd.Env = env()
		if out, err := cmd.CombinedOutput(); err != nil {
			l.driverErr = fmt.Errorf("driver: %v\n%s", err, out)
		}
	})
}

func (l *Lab) Close() {
	if l.dump != nil {
		l.dump.close()
	}
	if l.Dir != "" {
		l.driverOnce.Do(func() {})
		os.RemoveAll(l.Dir)
	}
}

// Result is what the driver reports for one harness.
type Result struct {
	Name     string
	Runs     int
	Kept     int
	Complete bool
	Fails    []Fail
}

type Fail struct {
	Assert string
	Values []string
	Stack  string
}

type Query struct {
	Prop   string            `json:",omitempty"`
	Name   string            `json:",omitempty"`
	Values map[string]string `json:",omitempty"`
	Budget int
	Seed   int64
	Millis int
}

// Run executes harnesses on the compiled code.
func (l *Lab) Run(q Query) ([]Result, error) {
	l.build()
	if l.driverErr != nil {
		return nil, l.driverErr
	}
	b, _ := json.Marshal(q)
	cmd := exec.Command(l.driver, string(b))
	scratch, err := os.MkdirTemp(l.Dir, "run.")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "TMPDIR="+scratch, "GOMEMLIMIT=2GiB")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	var ob bytes.Buffer
	cmd.Stdout = &ob
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	select {
	case werr = <-done:
	case <-time.After(time.Duration(q.Millis)*time.Millisecond*time.Duration(60) + 120*time.Second):
		cmd.Process.Kill()
		<-done
		werr = fmt.Errorf("the driver did not end")
	}
	var out []Result
	sc := bufio.NewScanner(&ob)
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var r Result
		if json.Unmarshal(sc.Bytes(), &r) == nil && r.Name != "" {
			out = append(out, r)
		}
	}
	if werr != nil {
		t := eb.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		return out, fmt.Errorf("%v: %s", werr, t)
	}
	return out, nil
}

// ---- parse trees ----

type dumper struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	mu  sync.Mutex
}

func (d *dumper) close() { d.in.Close(); d.cmd.Wait() }

func (l *Lab) parse(text string) (*gover.Node, string, error) {
	type reply struct {
		Tree *gover.Node
		Err  string
	}
	if r, ok := l.cache.Load(text); ok {
		x := r.(reply)
		return x.Tree, x.Err, nil
	}
	l.build()
	if l.driverErr != nil {
		return nil, "", l.driverErr
	}
	var err error
	l.parseOnce.Do(func() {
		cmd := exec.Command(l.driver, "parse")
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		cmd.Stderr = os.Stderr
		if err = cmd.Start(); err == nil {
			l.dump = &dumper{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<20)}
		}
	})
	if l.dump == nil {
		return nil, "", fmt.Errorf("the parser did not start: %v", err)
	}
	b, _ := json.Marshal(text)
	l.dump.mu.Lock()
	defer l.dump.mu.Unlock()
	if _, err := l.dump.in.Write(append(b, '\n')); err != nil {
		return nil, "", err
	}
	ln, err := l.dump.out.ReadBytes('\n')
	if err != nil {
		return nil, "", err
	}
	var r reply
	if err := json.Unmarshal(ln, &r); err != nil {
		return nil, "", err
	}
	l.cache.Store(text, r)
	return r.Tree, r.Err, nil
}
