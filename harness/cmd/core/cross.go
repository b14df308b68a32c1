package main

import (
	"github.com/mewmew/float/verif/engine"
)

func answer(c RawCase) string {
	if c.Tasks != nil {
		return tasksAlone(c.Pool, c.Tasks)
	}
	r, _ := build(&c.Pool).do(c.Call)
	return r
}

func serve() { engine.Serve(answer) }

// c26 compares this (64-bit) build with a 32-bit build of the same binary.
var c26 = &engine.Prop{
	ID:   "C26",
	Rule: "the suites of the other properties run in a GOARCH=386 build, in one without an FPU (GO386=softfloat) and in one with fused multiply-add (GOAMD64=v3, where the processor has it), with reduced counts and the same oracles, and single calls of every function whose result text in the amd64 build is compared with the 386 build's. Non-trivial as in the other properties; for the comparison: the argument is not zero.",
	Subs: []engine.Runner{
		&engine.Sub[RawCase]{
			Name: "amd64-vs-386", Quick: 300000, Thor: 6000000, No32: true, Gen: genRaw,
			Run: func(c RawCase) engine.Outcome {
				l := build(&c.Pool)
				nt := true
				for _, x := range l.bigs {
					nt = x.Sign() != 0
				}
				o := engine.Outcome{Class: c.Call.Op + "-" + c.Call.Pkg, Nontrivial: nt}
				here, there := engine.Twice(c, answer)
				if here != there {
					o.Err = errf("%v: amd64 gives %s, 386 gives %s", c.Call, here, there)
				}
				return o
			},
		},
	},
}
