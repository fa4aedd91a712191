package generator

import (
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
)

var vBinary, vBinaryDir string

// vCommand is the command, built from the tree under check, and the scratch
// directory it is in.
func vCommand() (string, string) {
	if vBinary == "" {
		_, file, _, _ := runtime.Caller(0)
		root := filepath.Dir(filepath.Dir(file))
		vBinaryDir, _ = os.MkdirTemp("", "cli")
		bin := filepath.Join(vBinaryDir, "bubbler")
		cmd := exec.Command("go", "build", "-o", bin, ".")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
		if out, err := cmd.CombinedOutput(); err != nil {
			panic("building the command: " + string(out))
		}
		vBinary = bin
	}
	return vBinary, vBinaryDir
}
