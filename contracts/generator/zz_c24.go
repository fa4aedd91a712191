package generator

import (
	"context"
	"fmt"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/xaxys/bubbler/generator/gen"
	vs "github.com/xaxys/bubbler/verifspec"
)

func init() {
	vs.Register("C24", "Search_C24_Schemas", Search_C24_Schemas)
	vs.Register("C24", "Search_C24_Tokens", Search_C24_Tokens)
	vs.Register("C24", "Search_C24_Command", Search_C24_Command)
}

var c24Position = regexp.MustCompile(`:\d+:\d+:`)

var c24Colour = regexp.MustCompile("\x1b\\[[0-9;]*m")

func c24Run(text string) bool {
	vs.Note("schema", text)
	target := vs.Pick("target", vTargets...)
	opts := vOptions()
	opts = append(opts, gen.MemoryCopy(vs.Bool("memcpy")))
	files, err := vGenerate(map[string]string{"main.bb": text}, target, opts...)
	if err != nil {
		text := c24Colour.ReplaceAllString(err.Error(), "")
		vs.Assert("the message has its place", c24Position.MatchString(text) || strings.Contains(text, "main.bb: compile error: package name not set") || strings.HasPrefix(text, "generate error: "))
		return false
	}
	return files != nil
}

func Search_C24_Schemas() {
	if vs.Symbolic() {
		return
	}
	g := &vs.Grammar{Name: "g", Small: true, Expr: vs.Bool("expr")}
	text := g.Schema()
	if vs.Choose("damage", 8) == 7 {
		text = g.Damage(text)
	}
	c24Run(text)
}

func Search_C24_Tokens() {
	if vs.Symbolic() {
		return
	}
	g := &vs.Grammar{Name: "g"}
	text := g.Tokens(12)
	if vs.Bool("package") {
		text = "package p ; " + text
	}
	c24Run(text)
}

// The command ends by itself, with a message or with output, whatever is in
// the file it is given, and if there is none.
func Search_C24_Command() {
	if vs.Symbolic() {
		return
	}
	bin, _ := vCommand()
	g := &vs.Grammar{Name: "g", Small: true, Expr: true}
	text := ""
	in := ""
	switch vs.Choose("input", 9) {
	case 0, 1, 2:
		text = g.Schema()
	case 3:
		text = g.Damage(g.Schema())
	case 4:
		text = g.Tokens(10)
	case 5:
		for i := vs.Choose("bytes", 30); i > 0; i-- {
			text += string([]byte{byte(vs.Int(fmt.Sprint("byte ", i), 0, 255))})
		}
	case 6:
		text = "package p; import " + vs.Pick("import", `"."`, `"missing.bb"`, `""`, `"/"`, `"a\x00b"`, `"main.bb"`, `'./main.bb'`) + "; struct S { uint8 a; };"
	case 7:
		in = vs.Dir()
	case 8:
		in = filepath.Join(vs.Dir(), "missing.bb")
	}
	vs.Note("schema", text)
	if in == "" {
		in = vs.File("main.bb", text)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-t", vs.Pick("target", vTargets...), "-o", filepath.Join(vs.Dir(), "out"), in)
	cmd.Dir = vs.Dir()
	var stderr strings.Builder
	cmd.Stderr = &stderr
	err := cmd.Run()
	vs.Assert("ends", ctx.Err() == nil)
	if err == nil {
		return
	}
	e, ok := err.(*exec.ExitError)
	vs.Assert("ends by itself, not by a crash", ok && e.ExitCode() == 1 && !strings.Contains(stderr.String(), "goroutine "))
	vs.Assert("says why", strings.TrimSpace(stderr.String()) != "")
}
