package gcv

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// Compiler is the bubbler binary built from the tree under check.
type Compiler struct{ Bin string }

// Generate compiles entry (a .bb file in dir) for one target into out.
func (c *Compiler) Generate(dir, entry, target, out string, opts ...string) error {
	for _, o := range opts {
		if o == "-single" && target != "java" && target != "kotlin" {
			if err := os.MkdirAll(out, 0o755); err != nil {
				return err
			}
			out = filepath.Join(out, "all"+singleExt[target])
		}
	}
	args := append([]string{"-t", target, "-o", out}, opts...)
	args = append(args, entry)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Bin, args...)
	cmd.Dir = dir
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, buf.String())
	}
	return nil
}

// WriteFiles stores the schema files in dir as <last package component>.bb
// unless a name is given.
func WriteFile(dir, name string, f *SFile) error {
	return os.WriteFile(filepath.Join(dir, name), []byte(f.BB()), 0o644)
}

var singleExt = map[string]string{"c": ".h", "cpp": ".hpp", "csharp": ".cs", "go": ".go", "cjs": ".js", "esm": ".js", "python": ".py"}
