package gcv

import (
	"bytes"
	"context"
	"embed"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed drv
var drvFS embed.FS

// Replay runs concrete cases on the real generated code of one task.

type leafVal struct {
	path string
	typ  string
	en   string
	val  string
	raw  []byte
	t    *SType
	f    *SField
}

// leaves flattens a value: embedded fields appear directly in their owner.
func leaves(s *SStruct, v *CVal, pre string, out []leafVal) []leafVal {
	var one func(t *SType, f *SField, v *CVal, p string)
	one = func(t *SType, f *SField, v *CVal, p string) {
		l := leafVal{path: p, t: t, f: f}
		switch t.K {
		case 'i', 'u':
			l.typ, l.val = fmt.Sprintf("%c%d", t.K, t.W), v.N.String()
		case 'b':
			l.typ, l.val = "b", v.N.String()
		case 'f':
			l.typ, l.val = fmt.Sprintf("f%d", t.W), v.N.String()
		case 'e':
			l.typ, l.en, l.val = "e", t.En.Name, v.N.String()
		case 's', 'y':
			l.typ, l.val, l.raw = string(t.K), hex.EncodeToString(v.B), v.B
		case 'a':
			for i, e := range v.E {
				one(t.E, f, e, p+"."+itoa(i))
			}
			return
		case 'c':
			out = leaves(t.S, v, p+".", out)
			return
		}
		out = append(out, l)
	}
	for i, f := range s.Fields {
		if f.Void || f.Const != "" {
			continue
		}
		if f.Embed {
			out = leaves(f.T.S, v.F[i], pre, out)
			continue
		}
		one(f.T, f, v.F[i], pre+f.Name)
	}
	return out
}

// Outcome is what the real code did on a case.
type Outcome struct {
	Ran      bool
	Bad      bool
	Detail   string
	Observed string
}

type obs struct {
	r, s       *big.Int
	b, e       string
	hasB, hasE bool
	x          string
	v          map[string]string
	seen       bool
}

func parseObs(out string, n int) []obs {
	os := make([]obs, n)
	cur := -1
	for _, ln := range strings.Split(out, "\n") {
		a := strings.SplitN(strings.TrimRight(ln, "\r"), " ", 3)
		if a[0] == "CASE" && len(a) > 1 {
			cur, _ = strconv.Atoi(a[1])
			if cur >= n {
				cur = -1
				continue
			}
			os[cur] = obs{seen: true, v: map[string]string{}}
			continue
		}
		if cur < 0 {
			continue
		}
		o := &os[cur]
		arg := ""
		if len(a) > 1 {
			arg = a[1]
		}
		switch a[0] {
		case "R", "S":
			if v, ok := new(big.Int).SetString(arg, 10); ok {
				if a[0] == "R" {
					o.r = v
				} else {
					o.s = v
				}
			}
		case "B":
			o.b, o.hasB = arg, true
		case "E":
			o.e, o.hasE = arg, true
		case "V":
			val := ""
			if len(a) > 2 {
				val = a[2]
			}
			o.v[arg] = val
		case "X":
			if o.x == "" {
				o.x = strings.TrimPrefix(strings.TrimSpace(ln), "X ")
			}
		}
	}
	return os
}

func (c *Case) judge(o *obs, target string) Outcome {
	if !o.seen {
		return Outcome{}
	}
	out := Outcome{Ran: true}
	bad := func(f string, a ...any) Outcome {
		out.Bad, out.Detail = true, fmt.Sprintf(f, a...)
		return out
	}
	out.Observed = o.String()
	if o.x != "" {
		return bad("the generated %s code fails: %s", c.Kind, o.x)
	}
	if o.r == nil {
		return bad("the generated %s code does not return", c.Kind)
	}
	want := func(x *big.Int, n int, what string) bool { return x.Cmp(big.NewInt(int64(n))) == 0 }
	switch c.Kind {
	case "encode":
		if !want(o.r, c.WantN, "") {
			return bad("encode returns %s, the layout has %d bytes", o.r, c.WantN)
		}
		exp := append([]byte{}, c.Buf...)
		copy(exp[c.Start:], c.Want)
		if c.Void != nil { // bits of reserved space may keep their old contents
			got, err := hex.DecodeString(o.b)
			if err == nil && len(got) == len(exp) {
				for i, m := range c.Void {
					exp[c.Start+i] = exp[c.Start+i]&^m | got[c.Start+i]&m
				}
			}
		}
		if o.hasB && o.b != hex.EncodeToString(exp) {
			return bad("encode leaves %s in the buffer, the layout says %s", o.b, hex.EncodeToString(exp))
		}
		if o.hasE && c.Void == nil && o.e != hex.EncodeToString(c.Want) {
			return bad("encode() gives %s, the layout says %s", o.e, hex.EncodeToString(c.Want))
		}
		if c.Void == nil {
			if d := cmpVals(c, o); d != "" {
				return bad("encode changes the object: %s", d)
			}
		}
	case "decode":
		ok := o.r.Sign() >= 0
		if ok != c.WantOK {
			return bad("decode %s data that must be %s (returns %s)", map[bool]string{true: "accepts", false: "rejects"}[ok], map[bool]string{true: "accepted", false: "rejected"}[c.WantOK], o.r)
		}
		if ok {
			if !want(o.r, c.WantN, "") {
				return bad("decode returns %s, the frame has %d bytes", o.r, c.WantN)
			}
			if d := cmpVals(c, o); d != "" {
				return bad("decode gives %s", d)
			}
		}
	case "size":
		if !want(o.r, c.WantN, "") {
			return bad("encode_size is %s, the encoding has %d bytes", o.r, c.WantN)
		}
		if o.s != nil && !want(o.s, c.Struct.minBits()/8, "") {
			return bad("the size constant is %s, the fixed part has %d bytes", o.s, c.Struct.minBits()/8)
		}
	case "probe":
		r := o.r.Int64()
		if c.N >= c.WantN && r != int64(c.WantN) {
			return bad("decode_size of %d bytes is %d, the frame has %d", c.N, r, c.WantN)
		}
		if c.N < c.WantN && (r > int64(-c.N-1) || r < int64(-c.WantN)) {
			return bad("decode_size of %d of %d bytes is %d", c.N, c.WantN, r)
		}
	case "mprobe", "mald":
		r := o.r.Int64()
		if r > int64(c.N) {
			return bad("%s of %d bytes returns %d", map[string]string{"mprobe": "decode_size", "mald": "decode"}[c.Kind], c.N, r)
		}
		if c.WantOK && r != int64(c.WantN) {
			return bad("%s of %d bytes holding a complete frame of %d bytes returns %d", c.Kind, c.N, c.WantN, r)
		}
		if c.WantN < 0 && r >= 0 {
			return bad("%d bytes that end inside the frame are taken as complete (returns %d)", c.N, r)
		}
	}
	return out
}

func (o *obs) String() string {
	var p []string
	if o.r != nil {
		p = append(p, "returns "+o.r.String())
	}
	if o.s != nil {
		p = append(p, "size constant "+o.s.String())
	}
	if o.hasB {
		p = append(p, "buffer "+o.b)
	}
	if o.hasE {
		p = append(p, "encode() "+o.e)
	}
	var ks []string
	for k := range o.v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p = append(p, k+"="+o.v[k])
	}
	if o.x != "" {
		p = append(p, "exception "+o.x)
	}
	return strings.Join(p, "; ")
}

func cmpVals(c *Case, o *obs) string {
	for _, l := range leaves(c.Struct, c.V, "", nil) {
		got, ok := o.v[l.path]
		if !ok {
			return ""
		}
		if l.t.K == 'e' { // JavaScript reports enum values by name
			for _, it := range l.t.En.Items {
				if it.Name == got {
					got = fmt.Sprint(it.Val)
				}
			}
		}
		if got != l.val {
			if l.t.K == 'f' && isNaN(l) {
				continue // NaN payloads are not observable through every language's float
			}
			return fmt.Sprintf("%s = %s instead of %s", l.path, got, l.val)
		}
	}
	return ""
}

func isNaN(l leafVal) bool {
	v, _ := new(big.Int).SetString(l.val, 10)
	if l.t.W == 32 {
		x := v.Uint64()
		return x>>23&0xff == 0xff && x&0x7fffff != 0
	}
	x := v.Uint64()
	return x>>52&0x7ff == 0x7ff && x&(1<<52-1) != 0
}

func sh(dir string, env []string, limit time.Duration, name string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	if err != nil {
		e := eb.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		return out.String(), fmt.Errorf("%s %v: %v: %s", name, args, err, e)
	}
	return out.String(), nil
}

// CanReplay tells whether the target's code can be executed here.
func CanReplay(target string) bool { return target != "kotlin" }

// RunCases builds the task's generated code and runs the cases on it.
// buildErr reports code that does not build.
func RunCases(c *Compiler, t *Task, scratch string, cases []*Case) (outs []Outcome, buildErr error) {
	dir, err := os.MkdirTemp(scratch, "r")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out")
	if err := t.Emit(c, dir, out); err != nil {
		return nil, err
	}
	raw, err := runCases(t, dir, out, cases)
	outs = make([]Outcome, len(cases))
	if err != nil {
		return outs, err
	}
	for i := range cases {
		outs[i] = cases[i].judge(&raw[i], t.T.Name)
	}
	return outs, nil
}

func caseText(cases []*Case, set func(*Case) bool) string {
	var s strings.Builder
	ty := func(l leafVal) string {
		if l.typ == "e" {
			return "e:" + l.en
		}
		return l.typ
	}
	for i, c := range cases {
		k := c.Kind
		n := c.N
		if k == "mprobe" {
			k = "probe"
		}
		fmt.Fprintf(&s, "CASE %d %s %s %d %d %s\n", i, k, c.Struct.Name, c.Start, n, hex.EncodeToString(c.Buf))
		if (k == "encode" || k == "size") && c.V != nil {
			for _, l := range leaves(c.Struct, c.V, "", nil) {
				fmt.Fprintf(&s, "SET %s %s %s\n", l.path, ty(l), l.val)
			}
		}
		if k == "decode" && c.Old != nil {
			for _, l := range leaves(c.Struct, c.Old, "", nil) {
				fmt.Fprintf(&s, "SET %s %s %s\n", l.path, ty(l), l.val)
			}
		}
		s.WriteString("RUN\n")
		if k == "encode" || k == "decode" && c.WantOK {
			for _, l := range leaves(c.Struct, c.V, "", nil) {
				fmt.Fprintf(&s, "GET %s %s\n", l.path, ty(l))
			}
		}
	}
	return s.String()
}

func drv(name string) []byte {
	b, err := drvFS.ReadFile("drv/" + name)
	if err != nil {
		panic(err)
	}
	return b
}

func filesUnder(dir string, ext string) []string {
	var fs []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ext) {
			fs = append(fs, p)
		}
		return nil
	})
	sort.Strings(fs)
	return fs
}

func runCases(t *Task, dir, out string, cases []*Case) ([]obs, error) {
	cf := filepath.Join(dir, "cases.txt")
	if err := os.WriteFile(cf, []byte(caseText(cases, nil)), 0o644); err != nil {
		return nil, err
	}
	pkg := t.B.File.Pkg
	last := pkg[strings.LastIndex(pkg, ".")+1:]
	lim := 60 * time.Second
	switch t.T.Name {
	case "cjs", "esm":
		fs := filesUnder(out, ".js")
		main := ""
		for _, f := range fs {
			if main == "" || strings.HasSuffix(f, "/"+strings.ReplaceAll(pkg, ".", "/")+".bb.js") {
				main = f
			}
		}
		if main == "" {
			return nil, fmt.Errorf("no .js output")
		}
		if t.T.Name == "esm" {
			os.WriteFile(filepath.Join(out, "package.json"), []byte(`{"type":"module"}`), 0o644)
		}
		rf := filepath.Join(dir, "run.cjs")
		src := string(drv("run.js"))
		os.WriteFile(rf, []byte(src), 0o644)
		var res []obs
		for i, kind := range []string{"u8", "array"} {
			o, err := sh(dir, []string{"NS=" + pkg, "JSBUF=" + kind, "ESM=" + map[bool]string{true: "1", false: ""}[t.T.Name == "esm"]}, lim, "node", rf, main, cf)
			if err != nil && i == 0 {
				return nil, err
			}
			r := parseObs(o, len(cases))
			if i == 0 {
				res = r
				continue
			}
			for k := range r { // report the first input kind that misbehaves
				if r[k].seen && !cases[k].judge(&res[k], "").Bad && cases[k].judge(&r[k], "").Bad {
					res[k] = r[k]
				}
			}
		}
		return res, nil
	case "python":
		rf := filepath.Join(dir, "run.py")
		os.WriteFile(rf, drv("run.py"), 0o644)
		fs := filesUnder(out, ".py")
		mod := ""
		for _, f := range fs {
			if mod == "" || strings.HasSuffix(f, "/"+strings.ReplaceAll(pkg, ".", "/")+"_bb.py") {
				mod = f
			}
		}
		if mod == "" {
			return nil, fmt.Errorf("no .py output")
		}
		name := strings.TrimSuffix(filepath.Base(mod), ".py")
		o, err := sh(dir, nil, lim, "python3", rf, filepath.Dir(mod), name, cf)
		if err != nil {
			return nil, err
		}
		return parseObs(o, len(cases)), nil
	case "java":
		os.WriteFile(filepath.Join(dir, "Run.java"), drv("Run.java"), 0o644)
		fs := append([]string{"-nowarn", "-d", filepath.Join(dir, "cls"), filepath.Join(dir, "Run.java")}, filesUnder(out, ".java")...)
		if _, err := sh(dir, nil, lim*2, "javac", fs...); err != nil {
			return nil, err
		}
		o, err := sh(dir, nil, lim, "java", "-XX:+UseSerialGC", "-cp", filepath.Join(dir, "cls"), "Run", pkg, cf)
		if err != nil {
			return nil, err
		}
		return parseObs(o, len(cases)), nil
	case "csharp":
		os.WriteFile(filepath.Join(dir, "Run.cs"), drv("Run.cs"), 0o644)
		csc, refs, rtv, err := dotnetPaths()
		if err != nil {
			return nil, err
		}
		dll := filepath.Join(dir, "run.dll")
		args := []string{csc, "-nologo", "-nowarn:0168,0219,0162,8632", "-unsafe", "-checked-", "-out:" + dll}
		for _, r := range refs {
			args = append(args, "-r:"+r)
		}
		args = append(args, filepath.Join(dir, "Run.cs"))
		args = append(args, filesUnder(out, ".cs")...)
		if o, err := sh(dir, nil, lim*2, "dotnet", args...); err != nil {
			return nil, fmt.Errorf("%v %s", err, o)
		}
		os.WriteFile(filepath.Join(dir, "run.runtimeconfig.json"), []byte(`{"runtimeOptions":{"tfm":"net8.0","framework":{"name":"Microsoft.NETCore.App","version":"`+rtv+`"}}}`), 0o644)
		o, err := sh(dir, []string{"DOTNET_gcServer=0", "DOTNET_CLI_TELEMETRY_OPTOUT=1"}, lim, "dotnet", dll, pkg, cf)
		if err != nil {
			return nil, err
		}
		return parseObs(o, len(cases)), nil
	case "go":
		root := filepath.Join(dir, "mod")
		os.MkdirAll(filepath.Join(root, "gen"), 0o755)
		os.WriteFile(filepath.Join(root, "go.mod"), []byte("module x\n\ngo 1.21\n"), 0o644)
		for i, f := range filesUnder(out, ".go") {
			b, _ := os.ReadFile(f)
			os.WriteFile(filepath.Join(root, "gen", fmt.Sprintf("f%d.go", i)), b, 0o644)
		}
		os.WriteFile(filepath.Join(root, "main.go"), drv("run.go.txt"), 0o644)
		var tb strings.Builder
		fmt.Fprintf(&tb, "package main\n\nimport g %q\n\nvar types = map[string]func() any{\n", "x/gen")
		seen := map[string]bool{}
		for _, c := range cases {
			if !seen[c.Struct.Name] {
				seen[c.Struct.Name] = true
				fmt.Fprintf(&tb, "\t%q: func() any { return new(g.%s) },\n", c.Struct.Name, c.Struct.Name)
			}
		}
		tb.WriteString("}\n")
		_ = last
		os.WriteFile(filepath.Join(root, "types.go"), []byte(tb.String()), 0o644)
		bin := filepath.Join(root, "run")
		if _, err := sh(root, []string{"GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0"}, lim*2, "go", "build", "-o", bin, "."); err != nil {
			return nil, err
		}
		o, err := sh(root, nil, lim, bin, cf)
		if err != nil {
			return nil, err
		}
		return parseObs(o, len(cases)), nil
	case "c", "cpp":
		return runC(t, dir, out, cases)
	}
	return nil, fmt.Errorf("no runtime for %s", t.T.Name)
}

func dotnetPaths() (csc string, refs []string, rtv string, err error) {
	g, _ := filepath.Glob("/usr/lib/dotnet/sdk/*/Roslyn/bincore/csc.dll")
	if len(g) == 0 {
		g, _ = filepath.Glob("/usr/share/dotnet/sdk/*/Roslyn/bincore/csc.dll")
	}
	if len(g) == 0 {
		return "", nil, "", fmt.Errorf("no C# compiler")
	}
	csc = g[len(g)-1]
	root := csc[:strings.Index(csc, "/sdk/")]
	refs, _ = filepath.Glob(root + "/packs/Microsoft.NETCore.App.Ref/*/ref/net*/*.dll")
	rts, _ := filepath.Glob(root + "/shared/Microsoft.NETCore.App/*")
	if len(refs) == 0 || len(rts) == 0 {
		return "", nil, "", fmt.Errorf("no .NET reference assemblies")
	}
	return csc, refs, filepath.Base(rts[len(rts)-1]), nil
}

// ------------------------------------------------------------- C and C++

func runC(t *Task, dir, out string, cases []*Case) ([]obs, error) {
	cpp := t.T.Name == "cpp"
	var s strings.Builder
	ext, comp := ".c", "gcc"
	hs := filesUnder(out, ".h")
	if cpp {
		ext, comp = ".cpp", "g++"
		hs = filesUnder(out, ".hpp")
	}
	srcs := filesUnder(out, ext)
	if cpp {
		s.WriteString("#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cstdint>\n#include <string>\n#include <memory>\n#include <type_traits>\n#if __has_include(<span>)\n#include <span>\n#endif\n")
	} else {
		s.WriteString("#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n")
	}
	for _, h := range hs {
		fmt.Fprintf(&s, "#include %q\n", h)
	}
	for _, h := range srcs {
		fmt.Fprintf(&s, "#include %q\n", h)
	}
	s.WriteString(`
static uint8_t* mk(const char* lit, size_t n) { uint8_t* p = (uint8_t*)malloc(n ? n : 1); uint8_t* q = (uint8_t*)malloc(n); (void)p; if (n) memcpy(q, lit, n); free(p); return q; }
static void hex(const char* tag, const uint8_t* p, size_t n) { printf("%s ", tag); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
`)
	if cpp {
		s.WriteString(`
template <class T> static auto enc(const T& o, uint8_t* p, size_t n, int) -> decltype(o.encode(::std::span<uint8_t>(p, n))) { return o.encode(::std::span<uint8_t>(p, n)); }
template <class T> static uint64_t enc(const T& o, uint8_t* p, size_t, long) { return o.encode((void*)p); }
template <class T> static auto dec(T& o, uint8_t* p, size_t n, int) -> decltype(o.decode(::std::span<const uint8_t>(p, n))) { return o.decode(::std::span<const uint8_t>(p, n)); }
template <class T> static int64_t dec(T& o, uint8_t* p, size_t, long) { return o.decode((const void*)p); }
template <class T> static auto dsz(uint8_t* p, size_t n, int) -> decltype(T::decode_size(::std::span<const uint8_t>(p, n))) { return T::decode_size(::std::span<const uint8_t>(p, n)); }
template <class T> static int64_t dsz(uint8_t* p, size_t n, long) { return T::decode_size((const void*)p, n); }
`)
	}
	ns := ""
	if cpp {
		ns = strings.ReplaceAll(t.B.File.Pkg, ".", "::") + "::"
	}
	lit := func(b []byte) string {
		var q strings.Builder
		q.WriteByte('"')
		for _, x := range b {
			fmt.Fprintf(&q, "\\%03o", x)
		}
		q.WriteByte('"')
		return q.String()
	}
	acc := func(p string) string {
		o := "o"
		for _, st := range strings.Split(p, ".") {
			if st[0] >= '0' && st[0] <= '9' {
				o += "[" + st + "]"
			} else {
				o += "." + st
			}
		}
		return o
	}
	for i, c := range cases {
		S := c.Struct.Name
		fmt.Fprintf(&s, "static void case_%d(void) {\n printf(\"CASE %d\\n\");\n", i, i)
		if cpp {
			fmt.Fprintf(&s, " %s%s o{};\n", ns, S)
		} else {
			fmt.Fprintf(&s, " struct %s o; memset(&o, 0, sizeof o);\n", S)
		}
		set := func(v *CVal) {
			for _, l := range leaves(c.Struct, v, "", nil) {
				a := acc(l.path)
				switch l.typ[0] {
				case 's':
					if cpp {
						fmt.Fprintf(&s, " %s = ::std::string(%s, %d);\n", a, lit(l.raw), len(l.raw))
					} else {
						fmt.Fprintf(&s, " %s = (char*)mk(%s, %d);\n", a, lit(append(append([]byte{}, l.raw...), 0)), len(l.raw)+1)
					}
				case 'y':
					if cpp {
						fmt.Fprintf(&s, " { ::std::shared_ptr<uint8_t[]> q(new uint8_t[%d]); memcpy(q.get(), %s, %d); %s.data = q; %s.length = %d; }\n", len(l.raw), lit(l.raw), len(l.raw), a, a, len(l.raw))
					} else {
						fmt.Fprintf(&s, " %s.data = mk(%s, %d); %s.length = %d;\n", a, lit(l.raw), len(l.raw), a, len(l.raw))
					}
				case 'f':
					fmt.Fprintf(&s, " { uint%s_t q = %sULL; memcpy(&%s, &q, sizeof q); }\n", l.typ[1:], l.val, a)
				case 'e':
					if cpp {
						fmt.Fprintf(&s, " %s = static_cast<::std::remove_reference_t<decltype(%s)>>(%s);\n", a, a, l.val)
					} else {
						fmt.Fprintf(&s, " %s = (enum %s)%s;\n", a, l.en, l.val)
					}
				case 'i':
					if l.val == "-9223372036854775808" {
						fmt.Fprintf(&s, " %s = INT64_MIN;\n", a)
					} else {
						fmt.Fprintf(&s, " %s = %sLL;\n", a, l.val)
					}
				case 'u':
					fmt.Fprintf(&s, " %s = %sULL;\n", a, l.val)
				default:
					fmt.Fprintf(&s, " %s = %s;\n", a, l.val)
				}
			}
		}
		n := c.N
		switch c.Kind {
		case "encode":
			set(c.V)
			fmt.Fprintf(&s, " uint8_t* b = mk(%s, %d);\n", lit(c.Buf), len(c.Buf))
			if cpp {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)enc(o, b + %d, %d, 0));\n", c.Start, len(c.Buf)-c.Start)
			} else {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)%s_encode(&o, b + %d));\n", S, c.Start)
			}
			fmt.Fprintf(&s, " hex(\"B\", b, %d);\n", len(c.Buf))
		case "decode", "mald":
			if c.Kind == "decode" && c.Old != nil {
				set(c.Old)
			}
			fmt.Fprintf(&s, " uint8_t* b = mk(%s, %d);\n", lit(c.Buf[:c.Start+n]), c.Start+n)
			if cpp {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)dec(o, b + %d, %d, 0));\n", c.Start, n)
			} else {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)%s_decode(b + %d, &o));\n", S, c.Start)
			}
		case "size":
			set(c.V)
			if cpp {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)o.encode_size()); printf(\"S %%lld\\n\", (long long)%s%s::size);\n", ns, S)
			} else {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)%s_encode_size(&o)); printf(\"S %%lld\\n\", (long long)%s_size);\n", S, S)
			}
		default:
			fmt.Fprintf(&s, " uint8_t* b = mk(%s, %d);\n", lit(c.Buf[:c.Start+n]), c.Start+n)
			if cpp {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)dsz<%s%s>(b + %d, %d, 0));\n", ns, S, c.Start, n)
			} else {
				fmt.Fprintf(&s, " printf(\"R %%lld\\n\", (long long)%s_decode_size(b + %d, %d));\n", S, c.Start, n)
			}
		}
		if c.Kind == "encode" || c.Kind == "decode" && c.WantOK {
			for _, l := range leaves(c.Struct, c.V, "", nil) {
				a := acc(l.path)
				switch l.typ[0] {
				case 's':
					if cpp {
						fmt.Fprintf(&s, " hex(\"V %s\", (const uint8_t*)%s.data(), %s.size());\n", l.path, a, a)
					} else {
						fmt.Fprintf(&s, " hex(\"V %s\", (const uint8_t*)%s, strlen(%s));\n", l.path, a, a)
					}
				case 'y':
					g := a + ".data"
					if cpp {
						g += ".get()"
					}
					fmt.Fprintf(&s, " hex(\"V %s\", %s, %s.length);\n", l.path, g, a)
				case 'f':
					fmt.Fprintf(&s, " { uint%s_t q; memcpy(&q, &%s, sizeof q); printf(\"V %s %%llu\\n\", (unsigned long long)q); }\n", l.typ[1:], a, l.path)
				case 'u':
					fmt.Fprintf(&s, " printf(\"V %s %%llu\\n\", (unsigned long long)%s);\n", l.path, a)
				default:
					fmt.Fprintf(&s, " printf(\"V %s %%lld\\n\", (long long)%s);\n", l.path, a)
				}
			}
		}
		s.WriteString(" fflush(stdout);\n}\n")
	}
	// every case runs in a process of its own, so that a sanitizer stop is
	// attributed to it
	s.WriteString("int main(int n, char** a) {\n switch (atoi(a[1])) {\n")
	for i := range cases {
		fmt.Fprintf(&s, " case %d: case_%d(); break;\n", i, i)
	}
	s.WriteString(" }\n return 0;\n}\n")
	src := filepath.Join(dir, "drv"+ext)
	if err := os.WriteFile(src, []byte(s.String()), 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "drv")
	args := []string{"-w", "-O1", "-g", "-fsanitize=address,bounds,null,alignment,pointer-overflow", "-fno-sanitize-recover=all", "-I", out, "-o", bin, src}
	if cpp {
		args = append([]string{"-std=c++20"}, args...)
	}
	if hasStr(t.Opts, "-compat") || !cpp {
		// alignment is only promised without the cast-based accessors
		args[indexOf(args, "-fsanitize=address,bounds,null,alignment,pointer-overflow")] = "-fsanitize=address,bounds,null,pointer-overflow"
	}
	if _, err := sh(dir, nil, 120*time.Second, comp, args...); err != nil {
		return nil, err
	}
	res := make([]obs, len(cases))
	for i := range cases {
		o, err := sh(dir, []string{"ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1"}, 20*time.Second, bin, itoa(i))
		res[i] = parseObs(o, len(cases))[i]
		res[i].seen = true
		if res[i].v == nil {
			res[i].v = map[string]string{}
		}
		if err != nil {
			m := err.Error()
			if k := strings.Index(m, "ERROR: "); k >= 0 {
				m = m[k:]
			} else if k := strings.Index(m, "runtime error"); k >= 0 {
				m = m[k:]
			}
			if k := strings.IndexByte(m, '\n'); k >= 0 {
				m = m[:k]
			}
			res[i].x = m
		}
	}
	return res, nil
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// Values prints the value of a case.
func (c *Case) Values() string {
	var p []string
	for _, l := range leaves(c.Struct, c.V, "", nil) {
		p = append(p, l.path+"="+l.val)
	}
	return strings.Join(p, " ")
}
