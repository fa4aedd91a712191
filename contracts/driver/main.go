package main

import (
	"os"

	_ "github.com/xaxys/bubbler/compiler"
	_ "github.com/xaxys/bubbler/definition"
	_ "github.com/xaxys/bubbler/generator"
	_ "github.com/xaxys/bubbler/generator/gen"
	_ "github.com/xaxys/bubbler/util"
	"github.com/xaxys/bubbler/verifspec"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "parse" {
		parse()
		return
	}
	verifspec.Main()
}
