package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C20", spec: true, rule: "contract drivers over Observe and Errors from the initial state of the package: every entry of the built-in table, self-naming errors that claim or decline, and up to three handlers that claim or decline, with arbitrary names; the handler list is only ever replaced by one computed from its current value under one lock", run: runC20})
}

func runC20(c *Ctx) {
	o := c.specOpts()
	o.Fresh = true
	m := c.specModels()
	o.Model = func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if isErrNamer(fn) {
			return false
		}
		return m(e, s, instr, fn, args, cont)
	}
	c.SpecAll("name", o)
	c.Floor("name", 40)
	// the handlers: whatever AddErrorNameHandler changes
	add := c.Func("", "AddErrorNameHandler")
	if add == nil {
		return
	}
	cells := map[string]bool{}
	for _, s := range c.Run(add, Opts{}, RunOpt{}) {
		c.P.eachEvents(s, func(evs []*Event) {
			for _, ev := range evs {
				if ev.Addr != nil && !ev.Local && (ev.Kind == "Write" || ev.Kind == "AtomicStore" || ev.Kind == "AtomicSwap" || ev.Kind == "AtomicCAS") {
					cells[classKey(ev.Addr)] = true
				}
			}
		})
	}
	if len(cells) == 0 {
		c.Fail(add.Pos(), "lost-update", "adding a handler changes nothing")
	}
	c.lostUpdates("lost-update", func(k string) bool { return cells[k] })
	c.Floor("lost-update", 1)
	_ = token.NoPos
	_ = strings.HasPrefix
}
