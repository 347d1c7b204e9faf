package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// closure escape classes
const (
	escNone = iota // only called by the function that makes it, or by helpers it is passed to
	escPass        // handed to code outside the repository for the duration of a call
	escOut         // outlives the call: returned, stored, sent or run as a goroutine
)

type escKey struct {
	fn *ssa.Function
	i  int
}

// escapeOf classifies what happens to a function value.
func (p *Program) escapeOf(v ssa.Value, seen map[any]bool) int {
	if seen[v] {
		return escNone
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return escOut
	}
	best := escNone
	up := func(n int) {
		if n > best {
			best = n
		}
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			up(p.escapeOf(r, seen))
		case *ssa.ChangeType:
			up(p.escapeOf(r, seen))
		case *ssa.Convert:
			up(p.escapeOf(r, seen))
		case *ssa.Store:
			if r.Val != v {
				continue
			}
			if a, ok := r.Addr.(*ssa.Alloc); ok {
				up(p.cellEscape(a, seen))
			} else if fv, ok := r.Addr.(*ssa.FreeVar); ok {
				up(p.cellEscape(fv, seen))
			} else {
				up(escOut)
			}
		case *ssa.MakeClosure:
			// captured by value
			up(p.escapeOf(r, seen))
		case *ssa.Go:
			up(escOut)
		case ssa.CallInstruction:
			com := r.Common()
			for i, a := range com.Args {
				if a != v {
					continue
				}
				f := com.StaticCallee()
				switch {
				case f == nil:
					up(escPass)
				case extName(f) == "(*sync.Once).Do":
				case f.Blocks == nil || !p.inRepo(f):
					if n := extName(f); n == "time.AfterFunc" || extPkg(f) == "net/http" {
						up(escOut)
					} else {
						up(escPass)
					}
				default:
					if i < len(f.Params) && !seen[escKey{f, i}] {
						seen[escKey{f, i}] = true
						up(p.escapeOf(f.Params[i], seen))
					}
				}
			}
		default:
			up(escOut)
		}
	}
	return best
}

// cellEscape follows a variable holding a function value.
func (p *Program) cellEscape(cell ssa.Value, seen map[any]bool) int {
	if seen[cell] {
		return escNone
	}
	seen[cell] = true
	best := escNone
	up := func(n int) {
		if n > best {
			best = n
		}
	}
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Store:
			if st, ok := r.(*ssa.Store); ok && st.Val == cell {
				up(escOut)
			}
		case *ssa.UnOp:
			up(p.escapeOf(r, seen))
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == cell {
					up(p.cellEscape(f.FreeVars[i], seen))
				}
			}
		default:
			up(escOut)
		}
	}
	return best
}

// analysis roots: functions entered from outside the analysed call chains.
func (p *Program) roots() []*ssa.Function {
	if p.rootList != nil {
		return p.rootList
	}
	taken := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	p.closEsc = map[*ssa.Function]int{}
	ifaceTypes := map[string]types.Type{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					ifaceTypes[typeKey(mi.X.Type())] = mi.X.Type()
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					n := p.escapeOf(mc, map[any]bool{})
					if n > p.closEsc[f] {
						p.closEsc[f] = n
					}
					if n > escNone {
						taken[f] = true
					} else {
						called[f] = true
					}
				}
				var ops [16]*ssa.Value
				rands := in.Operands(ops[:0])
				ci, isCall := in.(ssa.CallInstruction)
				for _, r := range rands {
					f, ok := (*r).(*ssa.Function)
					if !ok {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					if isCall && ci.Common().Value == *r && ci.Common().StaticCallee() == f {
						if _, isGo := in.(*ssa.Go); isGo {
							taken[f] = true
						} else {
							called[f] = true
						}
						continue
					}
					if isCall {
						// passed as an argument
						esc := escNone
						com := ci.Common()
						for i, a := range com.Args {
							if a != ssa.Value(f) {
								continue
							}
							g := com.StaticCallee()
							if g == nil || g.Blocks == nil || !p.inRepo(g) {
								if g == nil || extName(g) != "(*sync.Once).Do" {
									esc = escPass
								}
							} else if i < len(g.Params) {
								if n := p.escapeOf(g.Params[i], map[any]bool{}); n > esc {
									esc = n
								}
							}
						}
						if esc > escNone {
							taken[f] = true
						} else {
							called[f] = true
						}
						continue
					}
					taken[f] = true
				}
			}
		}
	}
	for _, t := range ifaceTypes {
		if !isRepoType(t) {
			continue
		}
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if f, ok := ms.At(i).Obj().(*types.Func); ok && f.Exported() {
				if fn := p.SSA.FuncValue(f); fn != nil {
					taken[fn] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Synthetic != "" || fn.Name() == "init" && fn.Signature.Recv() == nil {
			continue
		}
		if p.exportedAPI(fn) || taken[fn] || !called[fn] {
			out = append(out, fn)
		}
	}
	p.rootList = out
	return out
}

// computeMutable finds the memory classes written after an object is visible to
// other goroutines; everything else is fixed at construction.
func (p *Program) computeMutable() error {
	m := map[string]bool{}
	p.mutKnown = false
	for _, fn := range p.roots() {
		e := newEngine(p, Opts{NoReads: true, Join: true})
		paths, err := e.Run(fn, RunOpt{})
		if err != nil {
			return err
		}
		for _, s := range paths {
			note := func(evs []*Event) {
				for _, ev := range evs {
					if ev.Local {
						continue
					}
					switch ev.Kind {
					case "Write", "MapWrite", "MapDelete", "AtomicStore", "AtomicAdd", "AtomicCAS", "AtomicSwap", "AtomicRMW":
						m[classKey(ev.Addr)] = true
					case "Copy", "Clear":
						m[containerKey(ev.Addr)+"[]"] = true
						m[containerKey(ev.Addr)+"{}"] = true
					case "Ext", "Rec":
						for _, a := range ev.Args {
							if a.Op == "fa" || a.Op == "global" || a.Op == "ea" {
								m[classKey(a)] = true
							}
						}
					}
				}
			}
			p.eachEvents(s, note)
		}
	}
	p.mutable = m
	p.mutKnown = true
	return nil
}

// eachEvents visits the events of a path and of the loop bodies on it.
func (p *Program) eachEvents(s *State, f func(evs []*Event)) {
	f(s.events)
	seen := map[*LoopInfo]bool{}
	var walk func(evs []*Event)
	walk = func(evs []*Event) {
		for _, ev := range evs {
			if ev.Kind == "LoopEnter" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, it := range ev.Loop.Iters {
					var sub []*Event
					if len(it.events) > ev.Loop.Base {
						sub = it.events[ev.Loop.Base:]
					}
					f(sub)
					walk(sub)
				}
			}
		}
	}
	walk(s.events)
}

// eachIter is eachEvents with the state (facts) the events belong to.
func (p *Program) eachIter(s *State, f func(st *State, evs []*Event)) {
	f(s, s.events)
	seen := map[*LoopInfo]bool{}
	var walk func(evs []*Event)
	walk = func(evs []*Event) {
		for _, ev := range evs {
			if ev.Kind == "LoopEnter" && !seen[ev.Loop] {
				seen[ev.Loop] = true
				for _, it := range ev.Loop.Iters {
					if len(it.events) > ev.Loop.Base {
						f(it, it.events[ev.Loop.Base:])
						walk(it.events[ev.Loop.Base:])
					}
				}
			}
		}
	}
	walk(s.events)
}
