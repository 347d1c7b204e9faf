package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: monkitcheck check ID | dump FUNC")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		os.Exit(runCheck(os.Args[2], tier))
	}
}

func (p *Program) find(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if fnName(f) == name {
			return f
		}
	}
	for _, f := range p.Funcs {
		if strings.HasSuffix(fnName(f), name) {
			return f
		}
	}
	return nil
}

func dump(args []string) {
	p, err := load(configs["default"], true)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	p.orig = buildOrigins(p)
	p.computeMutable()
	o := Opts{}
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		switch args[0] {
		case "-seq":
			o.Seq = true
		case "-panics":
			o.AppPanics = true
		case "-noreads":
			o.NoReads = true
		case "-mut":
			for k := range p.mutable {
				fmt.Println(k)
			}
		}
		args = args[1:]
	}
	for _, a := range args {
		fn := p.find(a)
		if fn == nil {
			fmt.Println("no function", a)
			continue
		}
		e := newEngine(p, o)
		paths, err := e.Run(fn, RunOpt{})
		fmt.Printf("== %s: %d paths, %d steps, err=%v problems=%v\n", fnName(fn), len(paths), e.steps, err, e.Problems)
		for i, s := range paths {
			fmt.Printf("-- path %d %s ret=%v panic=%v\n", i, s.how, s.ret, s.panicV)
			fmt.Print(dumpFacts(s))
			fmt.Print(dumpEvents(p, s.events))
		}
	}
}

func dumpFacts(s *State) string {
	var b strings.Builder
	for t, v := range s.facts.b {
		fmt.Fprintf(&b, "      fact %v = %v\n", t, v)
	}
	for t, v := range s.facts.iv {
		fmt.Fprintf(&b, "      fact %v in [%d,%d]\n", t, v.lo, v.hi)
	}
	return b.String()
}
