package definition

import (
	"path"
	"strings"

	vs "github.com/xaxys/bubbler/verifspec"
)

// anyPackage is an arbitrary package; on compiled code one of up to four
// segments out of a few.
func anyPackage(name string) *Package {
	var full []string
	if vs.Symbolic() {
		full = vs.Any[[]string](name)
		vs.Assume(len(full) > 0)
		vs.Assume(vs.Forall(0, len(full), func(i int) bool { return full[i] != ".." }))
	} else {
		n := 1 + vs.Choose(name+".n", 4)
		for i := 0; i < n; i++ {
			full = append(full, vs.Pick(name, "a", "b", "ab", "A"))
		}
	}
	return NewPackage(nil, full)
}

// isWay says that steps, taken from the directory at, lead to the file name in
// the directory to: up as often as needed to a common directory, then down.
// The number of steps says how far up.
func isWay(at, to []string, name string, steps []string) bool {
	up, twice := upOf(at, to, steps)
	i := len(at) - up
	return vs.And(twice, vs.And(up >= 0 && up <= len(at) && i <= len(to), vs.And(
		vs.And(
			vs.Forall(0, up, func(k int) bool { return steps[k] == ".." }),
			vs.Forall(0, i, func(k int) bool { return at[k] == to[k] })),
		vs.And(
			vs.Forall(i, len(to), func(k int) bool { return steps[up+k-i] == to[k] }),
			steps[len(steps)-1] == name))))
}

// upOf solves len(steps) = up + len(to) - (len(at) - up) + 1 for up.
func upOf(at, to []string, steps []string) (int, bool) {
	d := len(steps) - 1 - len(to) + len(at)
	return d / 2, d%2 == 0
}

func Inv_Package_Difference_1(p Package, other *Package, i int) bool {
	return vs.And(i >= 0 && i <= len(p.PackagePath) && i <= len(other.PackagePath),
		vs.Forall(0, i, func(k int) bool { return p.PackagePath[k] == other.PackagePath[k] }))
}

func Inv_Package_Difference_2(p Package, other *Package, diff []string, i, j int) bool {
	return vs.And(i <= j && j <= len(p.PackagePath) && len(diff) == j-i,
		vs.Forall(0, len(diff), func(k int) bool { return diff[k] == ".." }))
}

func Inv_Package_Difference_3(p Package, other *Package, diff []string, i, j int) bool {
	up := len(p.PackagePath) - i
	return vs.And(i <= j && j <= len(other.PackagePath) && len(diff) == up+j-i, vs.And(
		vs.Forall(0, up, func(k int) bool { return diff[k] == ".." }),
		vs.Forall(i, j, func(k int) bool { return diff[up+k-i] == other.PackagePath[k] })))
}

func Verify_C20_Difference() {
	p, o := anyPackage("p"), anyPackage("o")
	d := p.Difference(o)
	vs.Assert("the way between two packages leads from the one to the other", isWay(p.PackagePath, o.PackagePath, o.PackageName, d))
}

func Verify_C20_NewPackage() {
	p := anyPackage("p")
	n := len(p.PackageFullPaths)
	vs.Assert("a package lies in the directory of its leading names", vs.And(len(p.PackagePath) == n-1 && p.PackageName == p.PackageFullPaths[n-1],
		vs.Forall(0, n-1, func(i int) bool { return p.PackagePath[i] == p.PackageFullPaths[i] })))
}

func Inv_Package_PackageEquals_1(p Package, other *Package, idx_ int) bool {
	return vs.And(idx_ >= -1 && idx_ < len(p.PackageFullPaths), vs.Forall(0, idx_+1, func(k int) bool { return p.PackageFullPaths[k] == other.PackageFullPaths[k] }))
}

func Verify_C20_Equals() {
	p, o := anyPackage("p"), anyPackage("o")
	same := vs.And(len(p.PackageFullPaths) == len(o.PackageFullPaths), vs.Forall(0, len(p.PackageFullPaths), func(i int) bool {
		return i >= len(o.PackageFullPaths) || p.PackageFullPaths[i] == o.PackageFullPaths[i]
	}))
	vs.Assert("two packages are equal exactly when all their names are", p.PackageEquals(o) == same)
}

// The texts made of a way: any way the verifier may give the callers of
// Difference.
func Verify_C20_RelativeText() {
	if !vs.Symbolic() {
		return
	}
	p, o := anyPackage("p"), anyPackage("o")
	d := anyWay(p)
	ext := vs.Str("ext", ".bh", 5)
	way := strings.Join(d, "/") + ext
	vs.Assert("a relative path is the way to the other package", p.ToRelativePath(o, ext) == way)
	strict := p.ToRelativePathStrict(o, ext)
	vs.Assert("a strict relative path is the way to the other package, and starts with a dot",
		strict == "./"+way || strict == way && strings.HasPrefix(way, ".."))
}

func anyWay(p *Package) []string {
	d := vs.Any[[]string]("d")
	vs.Assume(len(d) > 0)
	vs.Replace("Package_Difference", func(p Package, o *Package) []string { return d })
	return d
}

func Inv_Package_ToPyRelativePath_1(diff []string, n, idx_ int) bool {
	return vs.And(idx_ >= -1 && idx_ < len(diff) && n == idx_+1, vs.Forall(0, n, func(k int) bool { return diff[k] == ".." }))
}

func Verify_C20_RelativePython() {
	if !vs.Symbolic() {
		return
	}
	p, o := anyPackage("p"), anyPackage("o")
	d := anyWay(p)
	up := int(vs.Int("up", 0, 1<<31))
	vs.Assume(up < len(d))
	vs.Assume(vs.Forall(0, up, func(k int) bool { return d[k] == ".." }))
	vs.Assume(d[up] != "..")
	ext := vs.Str("ext", "_b", 5)
	vs.Assert("a Python relative import has a dot for the directory and one for every step up, then the steps down",
		p.ToPyRelativePath(o, ext) == "."+strings.Repeat(".", up)+strings.Join(d[up:], ".")+ext)
}

// A package that is a directory: the way from it to another.
func Verify_C20_Directory() {
	if !vs.Symbolic() {
		return
	}
	p, o := anyPackage("p"), anyPackage("o")
	d := vs.Any[[]string]("d")
	vs.Replace("Package_Difference", func(at Package, to *Package) []string {
		vs.Assert("the way starts in the directory named by the package", vs.And(len(at.PackagePath) == len(p.PackageFullPaths),
			vs.Forall(0, len(at.PackagePath), func(i int) bool { return at.PackagePath[i] == p.PackageFullPaths[i] })))
		vs.Assert("the way leads to the other package", to == o)
		return d
	})
	way := strings.Join(d, "/")
	r := p.ToRelativeDirStrict(o)
	vs.Assert("the text is the way", r == "./"+way || r == way && strings.HasPrefix(way, ".."))
}

func Search_C20_Relative() {
	p, o := anyPackage("p"), anyPackage("o")
	for _, ext := range []string{".bb.h", "_bb.py", ""} {
		from, to := p.ToFilePath(ext), o.ToFilePath(ext)
		vs.Assert("ToFilePath names the packages", to == strings.Join(o.PackageFullPaths, "/")+ext)
		vs.Assert("a relative path resolves to the other file", path.Join(path.Dir(from), p.ToRelativePath(o, ext)) == to)
		s := p.ToRelativePathStrict(o, ext)
		vs.Assert("a strict relative path resolves to the other file", path.Join(path.Dir(from), s) == to)
		vs.Assert("a strict relative path starts with a dot", strings.HasPrefix(s, "./") || strings.HasPrefix(s, "../"))
		if ext != "" {
			continue
		}
		m := p.ToPyRelativePath(o, "_bb")
		rest := strings.TrimLeft(m, ".")
		dots := len(m) - len(rest)
		dir := p.PackagePath
		vs.Assert("a Python import names a module by dots", dots > 0 && dots-1 <= len(dir))
		all := append(append([]string{}, dir[:len(dir)-(dots-1)]...), strings.Split(rest, ".")...)
		vs.Assert("a Python relative import resolves to the other module", strings.Join(all, "/")+".py" == o.ToFilePath("_bb.py"))
	}
	d := p.ToRelativeDirStrict(o)
	vs.Assert("a relative directory resolves to the other package", path.Join(strings.Join(p.PackageFullPaths, "/"), d) == strings.Join(o.PackageFullPaths, "/"))
	vs.Assert("ToPath joins the names", p.ToPath(".", "") == strings.Join(p.PackageFullPaths, "."))
}

func init() {
	vs.Register("C20", "Verify_C20_Difference", Verify_C20_Difference)
	vs.Register("C20", "Verify_C20_NewPackage", Verify_C20_NewPackage)
	vs.Register("C20", "Verify_C20_Equals", Verify_C20_Equals)
	vs.Register("C20", "Verify_C20_RelativeText", Verify_C20_RelativeText)
	vs.Register("C20", "Verify_C20_RelativePython", Verify_C20_RelativePython)
	vs.Register("C20", "Verify_C20_Directory", Verify_C20_Directory)
	vs.Register("C20", "Search_C20_Relative", Search_C20_Relative)
}
