package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sync"

	"pgregory.net/rapid"

	"github.com/mewmew/float/verif/engine"
)

// ParCase is calls run by several goroutines over shared arguments.
type ParCase struct {
	Pool  Pool     `json:"pool"`
	Tasks [][]Call `json:"tasks"`
}

func (c ParCase) Key() uint64 {
	h := c.Pool.key()
	for _, t := range c.Tasks {
		h = engine.Mix(h)
		for _, k := range t {
			h = engine.Mix(h ^ pk(k.Op) ^ pk(k.Pkg)<<3 ^ uint64(k.Arg))
		}
	}
	return h
}

func genPar(t *rapid.T) ParCase {
	pkg := genPkg(t)
	c := ParCase{Pool: genPool(t, pkg)}
	for i := rapid.IntRange(2, 4).Draw(t, "tasks"); i > 0; i-- {
		c.Tasks = append(c.Tasks, genCalls(t, &c.Pool, pkg, 1, 6))
	}
	return c
}

// genContended draws the same kind of call for every goroutine.
func genContended(t *rapid.T) ParCase {
	pkg := genPkg(t)
	c := ParCase{Pool: genPool(t, pkg)}
	one := ParCase{Pool: c.Pool}
	one.Tasks = append(one.Tasks, genCalls(t, &c.Pool, pkg, 1, 1))
	cl := one.Tasks[0][0]
	n := len(c.Pool.Encs)
	switch cl.Op {
	case "frombig", "exact16", "exact32", "exact64":
		n = len(c.Pool.Bigs)
	case "from64", "from32":
		n = len(c.Pool.F64)
	}
	for i := rapid.IntRange(2, 4).Draw(t, "tasks"); i > 0; i-- {
		var cs []Call
		for j := rapid.IntRange(1, 2).Draw(t, "calls"); j > 0; j-- {
			cl.Arg = rapid.IntRange(0, n-1).Draw(t, "arg")
			cs = append(cs, cl)
		}
		c.Tasks = append(c.Tasks, cs)
	}
	return c
}

// tasksAlone gives the results of the calls made one after another, each on
// fresh arguments.
func tasksAlone(p Pool, tasks [][]Call) string {
	var out [][]string
	for _, cs := range tasks {
		var res []string
		for _, cl := range cs {
			s, _ := build(&p).do(cl)
			res = append(res, s)
		}
		out = append(out, res)
	}
	b, _ := json.Marshal(out)
	return string(b)
}

// runPar runs the tasks at once, each the given number of times.
func runPar(c ParCase, times int) engine.Outcome {
	o := engine.Outcome{Class: fmt.Sprintf("goroutines-%d", len(c.Tasks))}
	l := build(&c.Pool)
	results := make([][]string, len(c.Tasks))
	panics := make([]any, len(c.Tasks))
	start := make(chan struct{})
	var wg sync.WaitGroup
	shared := map[Call]int{}
	for i, cs := range c.Tasks {
		seen := map[Call]bool{}
		for _, cl := range cs {
			k := Call{Pkg: cl.Pkg}
			if cl.Op == "frombig" || cl.Op[:2] == "ex" {
				k = Call{Op: "bigs", Arg: cl.Arg}
			}
			if !seen[k] {
				seen[k] = true
				shared[k]++
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			for n := 0; n < times; n++ {
				for _, cl := range cs {
					s, _ := l.do(cl)
					results[i] = append(results[i], s)
					if times == 1 {
						runtime.Gosched()
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, n := range shared {
		if n > 1 {
			o.Nontrivial = true
		}
	}
	for i, p := range panics {
		if p != nil {
			o.Err = errf("goroutine %d: panic: %v", i, p)
			return o
		}
	}
	// Alone: in a process that has run no two calls at once.
	there := engine.There(RawCase{Pool: c.Pool, Tasks: c.Tasks})
	var alone, after [][]string
	if err := json.Unmarshal([]byte(there), &alone); err != nil || len(alone) != len(c.Tasks) {
		o.Err = errf("run alone: %s", there)
		return o
	}
	json.Unmarshal([]byte(tasksAlone(c.Pool, c.Tasks)), &after)
	for i, cs := range c.Tasks {
		for j, cl := range cs {
			for n := 0; n < times; n++ {
				if got := results[i][n*len(cs)+j]; got != alone[i][j] {
					o.Err = errf("goroutine %d call %v gave %s; alone it gives %s", i, cl, got, alone[i][j])
					return o
				}
			}
			if after[i][j] != alone[i][j] {
				o.Err = errf("call %v after calls made at once gave %s; in a process without them it gives %s", cl, after[i][j], alone[i][j])
				return o
			}
		}
	}
	return o
}

var c27 = &engine.Prop{
	ID:          "C27",
	Rule:        "two to four goroutines, one to six calls each, over a shared pool of big floats, encodings and float64s, in a binary built with the race detector; and the same kind of call fifty times over by every goroutine without it. Results, and the results of the same calls made afterwards, are compared with the calls made one after another in another process. Non-trivial: two goroutines use the same package or the same big float.",
	Assumptions: []string{"the Go scheduler chooses the interleavings; the race detector reports unordered conflicting accesses whatever the order they happened in"},
	Subs: []engine.Runner{
		&engine.Sub[ParCase]{Name: "shared-arguments", RaceOnly: true, Quick: 24000, Thor: 500000, Gen: genPar,
			Run: func(c ParCase) engine.Outcome { return runPar(c, 1) }},
		&engine.Sub[ParCase]{Name: "contended", PlainOnly: true, Quick: 6000, Thor: 200000, Gen: genContended,
			Run: func(c ParCase) engine.Outcome { return runPar(c, 50) }},
	},
}
