package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C16", spec: true, rule: "contract drivers for every built-in metric with arbitrary keys and observations: exactly the documented fields, each once, under the metric's own key, with the value the accessor of that quantity gives", run: runC16})
}

func runC16(c *Ctx) {
	o := c.specOpts()
	o.Sort = true
	o.Model = func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if isErrNamer(fn) {
			e.finishCall(s, instr, mk("pure", "errname", types.Typ[types.String], nil, args[0]), cont)
			return true
		}
		return false
	}
	c.SpecAll("field", o)
	c.Floor("field", 60)
	c.snapshots("snapshot")
	c.Floor("snapshot", 6)
}

// snapshots: an emission of a metric reads what a lock protects in one
// critical section of it.
func (c *Ctx) snapshots(rule string) {
	n := 0
	for _, fn := range c.P.Funcs {
		r := fn.Signature.Recv()
		if fn.Name() != "Stats" || fn.Parent() != nil || fn.Synthetic != "" || r == nil || extPkg(fn) != modPath || isSpecFn(fn) {
			continue
		}
		switch nm := namedOf(r.Type()); {
		case nm == nil, nm.Obj().Name() == "Registry", nm.Obj().Name() == "Scope":
			continue
		}
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachEvents(s, func(evs []*Event) {
				first := map[*Term]*Event{}
				sec := map[*Term]int{}
				told := map[*Term]bool{}
				for _, ev := range evs {
					switch ev.Kind {
					case "Read", "MapRead", "CopyDist", "RangeNext":
					default:
						continue
					}
					if ev.Local || ev.Addr == nil || len(ev.Held) == 0 || ev.Kind != "CopyDist" && !s.isMutable(ev.Addr) {
						continue
					}
					for _, h := range ev.Held {
						if h.Mode == "once" {
							continue
						}
						n++
						if first[h.Lock] == nil {
							first[h.Lock], sec[h.Lock] = ev, h.Sec
						} else if sec[h.Lock] != h.Sec && !told[h.Lock] {
							told[h.Lock] = true
							c.FailPath(ev.Pos(), rule, s, "%s reads %s in another critical section than %s: its values need not belong together", fnName(fn), ev.Addr, first[h.Lock].Addr)
						}
					}
				}
			})
		}
	}
	c.Count(rule, n)
}
