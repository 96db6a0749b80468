// Command verifh runs one harness natively on a recorded counterexample.
package main

import (
	"fmt"
	"os"

	_ "github.com/clipperhouse/jargon/internal/verifmodels"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

var registry = map[string]func(){}

func main() {
	name := sym.Load()
	h := registry[name]
	if h == nil {
		fmt.Fprintln(os.Stderr, "no harness", name)
		os.Exit(4)
	}
	h()
}
