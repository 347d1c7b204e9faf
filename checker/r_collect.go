package main

import "golang.org/x/tools/go/ssa"

func init() {
	register(&checkDef{id: "C27", spec: true, rule: "contract drivers over the collect package, with the other goroutine's starts, finishes, stops and cancellation considered before every synchronising operation and while waiting: the functions end, nothing of the package stays reachable from the registry or the traces, completion is signalled once and the listed spans are those of the matched trace with their own outcome", run: runC27})
}

func runC27(c *Ctx) {
	o := c.specOpts()
	o.Intr = func(fn *ssa.Function) bool { return extPkg(fn) == modPath+"/collect" }
	o.Model = distinctIds(o.Model)
	c.SpecAll("collect", o)
	c.Floor("collect", 60)
}

// distinctIds takes every new id to be different from all others (C07).
func distinctIds(m specModel) specModel {
	n := int64(1000)
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if extPkg(fn) == modPath && fn.Name() == "NewId" && fn.Signature.Recv() == nil && len(args) == 0 {
			n++
			e.finishCall(s, instr, mkInt(n), cont)
			return true
		}
		return m(e, s, instr, fn, args, cont)
	}
}
