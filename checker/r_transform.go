package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C19", spec: true, rule: "contract drivers with arbitrary values: what each registry, derived registry, transformed source and delta transformer hands to the callback, in which order and how often; a derived transformer list never shares the memory of the one it was derived from; a total is exchanged for the previous one in one critical section", run: runC19})
}

func runC19(c *Ctx) {
	c.SpecAll("transform", c.specOpts())
	c.Floor("transform", 60)
	c.ownAppend("append", func(s string) bool { return strings.HasPrefix(s, "monkit.Registry.") })
	c.exchange("exchange", "monkit.DeltaTransformer.")
	c.Floor("exchange", 1)
}

// exchange: an entry is replaced in the critical section that read it.
func (c *Ctx) exchange(rule, prefix string) {
	frames := map[*ssa.Function]bool{}
	match := func(ev *Event) bool {
		return ev.Kind == "MapWrite" && !ev.Local && strings.HasPrefix(classKey(ev.Addr), prefix)
	}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for _, ev := range evs {
					if match(ev) {
						frames[sectionFrame(st.events, ev)] = true
					}
				}
			})
		}
	}
	for _, s := range c.runFrames(frames) {
		c.P.eachIter(s, func(st *State, evs []*Event) {
			for _, ev := range evs {
				if !match(ev) {
					continue
				}
				c.Count(rule, 1)
				if !inSection(ev, st.events, func(o *Event) bool {
					return o.Kind == "MapRead" && len(o.Addr.Args) > 1 && o.Addr.Args[0] == ev.Addr.Args[0] && o.Addr.Args[1] == ev.Addr.Args[1]
				}) {
					c.FailPath(ev.Pos(), rule, st, "%s replaces an entry of %s that it did not read in the same critical section", fnName(ev.Fn), classKey(ev.Addr))
				}
			}
		})
	}
}

// ownAppend: append may write to spare capacity of what it extends, so the
// result of extending a slice that is kept somewhere goes back to the very same
// place; anything else lets two owners overwrite each other's elements.
func (c *Ctx) ownAppend(rule string, match func(class string) bool) {
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for _, ev := range evs {
					if ev.Kind != "Append" {
						continue
					}
					base := ev.Addr
					for base.Op == "append" || base.Op == "appendall" || base.Op == "conv" || base.Op == "slice" && len(base.Args) == 3 {
						base = base.Args[0]
					}
					// the whole slice, as it is kept
					if base.Op != "load" || !match(classKey(base.Args[0])) {
						continue
					}
					c.Count(rule, 1)
					back := false
					for _, w := range st.events {
						if (w.Kind == "Write" || w.Kind == "MapWrite" || w.Kind == "AtomicStore" || w.Kind == "AtomicCAS") && normAddr(w.Addr) == normAddr(base.Args[0]) &&
							anyTerm(w.Val, func(t *Term) bool { return t == ev.Res }) {
							back = true
						}
					}
					if !back {
						c.FailPath(ev.Pos(), rule, st, "%s extends the slice kept in %s and keeps the result elsewhere; both may share memory", fnName(ev.Fn), classKey(base.Args[0]))
					}
				}
			})
		}
	}
}
