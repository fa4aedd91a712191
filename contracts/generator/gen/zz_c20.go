package gen

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/xaxys/bubbler/definition"
	vs "github.com/xaxys/bubbler/verifspec"
)

// leads says that prefix names a leading sequence of the segments of file.
func leads(file, prefix string) bool {
	return vs.And(prefix != "", strings.HasPrefix(file, prefix+"/"))
}

func Inv_GenCtx_WriteFile_1(ctx *GenCtx, file, old_file string, idx_ int) bool {
	rm := ctx.GenOptions.RemovePath
	return vs.And(idx_ >= -1 && idx_ < len(rm) && file == old_file, vs.Forall(0, idx_+1, func(k int) bool { return !leads(old_file, rm[k]) }))
}

func anyCtx() *GenCtx {
	return &GenCtx{OutputPath: vs.Any[string]("out"), GenOptions: &GenOptions{RemovePath: vs.Any[[]string]("rm")}}
}

func Verify_C20_WriteFile() {
	if !vs.Symbolic() {
		return
	}
	ctx := anyCtx()
	file := vs.Str("file", "ab/.", 8)
	n, at := 0, ""
	vs.Replace("GenCtx_WriteFileAbs", func(ctx *GenCtx, path, text string) error {
		n++
		at = path
		return nil
	})
	rm := ctx.GenOptions.RemovePath
	out := ctx.OutputPath
	i := int(vs.Int("i", 0, 1<<31)) // the first prefix that leads
	vs.Assume(i <= len(rm))
	vs.Assume(vs.Forall(0, i, func(k int) bool { return !leads(file, rm[k]) }))
	vs.Assume(i == len(rm) || leads(file, rm[i]))
	rest := file
	if i < len(rm) {
		rest = strings.TrimLeft(file[len(rm[i]):], "/")
	}
	err := ctx.WriteFile(file, "")
	vs.Assert("a file is written once at most", n <= 1)
	local := filepath.ToSlash(filepath.Clean("./" + rest))
	outside := local == ".." || strings.HasPrefix(local, "../")
	if n == 1 {
		vs.Assert("nothing is written without an output path, or outside of it", out != "" && !outside)
		vs.Assert("a file goes to the output directory joined with its path after the first leading prefix", at == filepath.Join(out, rest))
	} else {
		vs.Assert("a file is not written only when printed, or refused", out == "" || err != nil && outside)
	}
}

func Verify_C20_WritePackage() {
	if !vs.Symbolic() {
		return
	}
	ctx := anyCtx()
	vs.Assume(ctx.OutputPath != "")
	full := vs.Any[[]string]("full")
	vs.Assume(len(full) > 0)
	pkg := definition.NewPackage(nil, full)
	ext := vs.Str("ext", ".bh", 4)
	n := 0
	vs.Replace("GenCtx_WriteFile", func(ctx *GenCtx, file, text string) error {
		n++
		vs.Assert("the file of a package is named after it", file == strings.Join(full, "/")+ext)
		return nil
	})
	ctx.WritePackage(pkg, ext, "x")
	vs.Assert("the file of a package is written once", n == 1)
}

// On the compiled code: a tree of directories of its own shows where files go.
func Search_C20_Output() {
	base, err := os.MkdirTemp("", "c20")
	if err != nil {
		return
	}
	defer os.RemoveAll(base)
	out := filepath.Join(base, "1", "2", "3", "4", "out")
	seg := func(name string) string { return vs.Pick(name, "a", "ab", "b") }
	file := seg("s1") + "/" + seg("s2") + "/" + seg("s3") + ".bb.h"
	switch vs.Choose("shape", 4) {
	case 0:
		file = seg("s1") + ".bb.h"
	case 1:
		file = strings.Repeat("../", 1+vs.Choose("up", 3)) + file
	}
	rm := vs.Pick("rm", "", "a", "a/b", "ab", "b,a", ",a", "a/,ab/b", "..", "a/..", "../..")
	ctx := &GenCtx{OutputPath: out, GenOptions: NewGenOptions(RemovePath(rm))}
	werr := ctx.WriteFile(file, "x")
	want := file
	for _, p := range strings.Split(rm, ",") {
		p = strings.TrimRight(p, "/")
		if p != "" && strings.HasPrefix(file, p+"/") {
			want = file[len(p)+1:]
			break
		}
	}
	var got []string
	filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			got = append(got, p)
		}
		return nil
	})
	abs := filepath.Join(out, want)
	if strings.HasPrefix(abs, out+"/") {
		vs.Assert("a file is written at the output directory joined with what remains of its path", werr == nil && len(got) == 1 && got[0] == abs)
	} else {
		vs.Assert("nothing is written outside of the output directory", werr != nil && len(got) == 0)
	}
}

func init() {
	vs.Register("C20", "Verify_C20_WriteFile", Verify_C20_WriteFile)
	vs.Register("C20", "Verify_C20_WritePackage", Verify_C20_WritePackage)
	vs.Register("C20", "Search_C20_Output", Search_C20_Output)
}
