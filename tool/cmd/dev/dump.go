package main

import (
	"os"
	"runtime/pprof"

	"verif/gcv"
)

func dump(bs []*gcv.Batch, dir string) {
	for _, b := range bs {
		os.MkdirAll(dir, 0o755)
		gcv.WriteFile(dir, b.Name+".bb", b.File)
	}
	os.Exit(0)
}

func prof() func() {
	f := os.Getenv("CPUPROF")
	if f == "" {
		return func() {}
	}
	w, _ := os.Create(f)
	pprof.StartCPUProfile(w)
	return pprof.StopCPUProfile
}

func bin() string {
	if b := os.Getenv("BUBBLER"); b != "" {
		return b
	}
	return "/tmp/bub"
}
