// Command core checks the conversion packages and IsExact.
package main

import (
	"os"
	"strconv"

	"github.com/mewmew/float/verif/engine"
)

const is32 = strconv.IntSize == 32

func main() {
	props := []*engine.Prop{c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c25, c26, c27}
	if len(os.Args) > 1 && os.Args[1] == "serve" {
		serve()
		return
	}
	for _, p := range props {
		addSequences(p)
	}
	engine.Main(props)
}
