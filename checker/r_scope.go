package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C13", spec: true, rule: "contract drivers over the exported API with arbitrary names and tags: equal names and tags are one metric, different ones never are, other kinds panic; an entry is only ever put into a table of metrics or scopes in the critical section that found it missing (or found a gauge)", run: func(c *Ctx) {
		c.SpecAll("identity", c.specOpts())
		c.Floor("identity", 100)
		c.getOrCreate("create")
	}})
}

// getOrCreate: a store into a named table is decided by a look at the same
// entry in the same critical section; otherwise two goroutines asking for the
// first time get different objects.
func (c *Ctx) getOrCreate(rule string) {
	named := func(ev *Event) bool {
		if ev.Kind != "MapWrite" || ev.Local || len(ev.Addr.Args) < 2 {
			return false
		}
		k := classKey(ev.Addr)
		if !strings.HasPrefix(k, "monkit.Scope.") && !strings.HasPrefix(k, "monkit.Registry.") && !strings.HasPrefix(k, "monkit.registryInternal.") {
			return false
		}
		kt := ev.Addr.Args[1].Typ
		if kt == nil {
			return false
		}
		_, num := kt.Underlying().(*types.Pointer)
		return !num && !isIntType(kt)
	}
	frames := map[*ssa.Function]bool{}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for _, ev := range evs {
					if named(ev) {
						frames[sectionFrame(st.events, ev)] = true
					}
				}
			})
		}
	}
	for _, s := range c.runFrames(frames) {
		c.P.eachIter(s, func(st *State, evs []*Event) {
			for _, ev := range evs {
				if !named(ev) {
					continue
				}
				c.Count(rule, 1)
				looked := false
				secs := sections(ev)
				for _, x := range st.events {
					if x == ev {
						break
					}
					if x.Kind != "MapRead" || normAddr(x.Addr) != normAddr(ev.Addr) {
						continue
					}
					for sec := range sections(x) {
						looked = looked || secs[sec]
					}
				}
				if !looked {
					c.FailPath(ev.Pos(), rule, st, "%s stores an entry of %s without having looked it up in the same critical section; another goroutine may have stored one", fnName(ev.Fn), classKey(ev.Addr))
				}
			}
		})
	}
	c.Floor(rule, 2)
}
