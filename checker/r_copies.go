package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C14", spec: true, rule: "every slice, map or distribution an exported function returns is made by that call (or is a constant, an argument or empty) and kept nowhere else; no function extends a slice it keeps into another owner's memory or writes through a slice or map argument of the application; contract drivers over error maps, distribution copies, trace values, tag sets, series keys and caller-supplied maps and tags", run: runC14})
}

func runC14(c *Ctx) {
	c.SpecAll("isolated", c.specOpts())
	c.Floor("isolated", 50)
	c.freshResults("fresh")
	c.Floor("fresh", 10)
	c.ownAppend("append", func(string) bool { return true })
	c.Floor("append", 3)
	c.argWrites("argument")
}

// api lists the exported functions and methods of the library.
func (c *Ctx) api() (out []*ssa.Function) {
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || isSpecFn(fn) || strings.Contains(extPkg(fn), "/examples/") || fn.Synthetic != "" {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			n := namedOf(r.Type())
			if n == nil || !n.Obj().Exported() {
				continue
			}
		}
		out = append(out, fn)
	}
	return
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// documentedShared: results that are documented to be the library's own.
func (c *Ctx) documentedShared(fn *ssa.Function) bool {
	return fnName(fn) == "(*monkit.TagSet).All"
}

func (c *Ctx) freshResults(rule string) {
	dist := map[string]bool{}
	for _, d := range distTypes {
		dist["monkit."+d] = true
	}
	snapshot := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Slice, *types.Map:
			return true
		case *types.Pointer:
			return dist[typeName(u.Elem())]
		}
		return false
	}
	for _, fn := range c.api() {
		res := fn.Signature.Results()
		any := false
		for i := 0; i < res.Len(); i++ {
			any = any || snapshot(res.At(i).Type())
		}
		if !any || c.documentedShared(fn) {
			continue
		}
		for _, s := range c.Run(fn, Opts{NoReads: true, Join: true, Model: c.specModels()}, RunOpt{}) {
			if s.how != "return" {
				continue
			}
			for i := 0; i < res.Len(); i++ {
				if !snapshot(res.At(i).Type()) {
					continue
				}
				c.Count(rule, 1)
				if bad := notFresh(s.ret[i]); bad != nil {
					c.FailPath(fn.Pos(), rule, s, "%s returns %v, which is not made by the call", fnName(fn), bad)
					continue
				}
				// kept anywhere?
				o := s.ret[i]
				c.P.eachEvents(s, func(evs []*Event) {
					for _, ev := range evs {
						if (ev.Kind == "Write" || ev.Kind == "MapWrite" || strings.HasPrefix(ev.Kind, "Atomic")) && !ev.Local && ev.Val == o && o.Op != "nil" && o.Op != "param" {
							c.FailPath(ev.Pos(), rule, s, "%s also keeps what it returns", fnName(fn))
						}
					}
				})
			}
		}
	}
}

// notFresh finds the part of a result that is memory of someone else.
func notFresh(t *Term) *Term {
	switch t.Op {
	case "nil", "map", "mkslice", "alloc", "const", "param", "pure", "extres", "chanrecv", "appres", "zero":
		return nil
	case "append", "appendall":
		return notFresh(t.Args[0])
	case "conv":
		return notFresh(t.Args[0])
	case "slice":
		return notFresh(t.Args[0])
	case "loopvar":
		li, _ := t.Obj.(*LoopInfo)
		if li == nil {
			return t
		}
		if i := li.Init[t]; i != nil && i != t {
			if bad := notFresh(i); bad != nil {
				return bad
			}
		}
		for _, b := range li.Back[t] {
			if b == nil || b == t {
				continue
			}
			x := b
			for x.Op == "append" || x.Op == "appendall" || x.Op == "conv" {
				x = x.Args[0]
			}
			if x == t {
				continue
			}
			if bad := notFresh(b); bad != nil {
				return bad
			}
		}
		return nil
	case "load":
		// a local the function's closures fill
		if r := addrRoot(t.Args[0]); isFreshObj(r) {
			return nil
		}
	case "join":
		alts, _ := t.Obj.(joinAlts)
		if len(alts) == 0 {
			return t
		}
		for _, a := range alts {
			if a == nil {
				return t
			}
			if bad := notFresh(a); bad != nil {
				return bad
			}
		}
		return nil
	case "extract", "field":
		return notFresh(t.Args[0])
	}
	return t
}

// argWrites: no exported function stores into the memory of a slice or map the
// application passed to it.
func (c *Ctx) argWrites(rule string) {
	for _, fn := range c.api() {
		idx := map[*Term]bool{}
		for i, p := range fn.Params {
			if fn.Signature.Recv() != nil && i == 0 {
				continue
			}
			switch p.Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				idx[paramTerm(fn, i)] = true
			}
		}
		if len(idx) == 0 {
			continue
		}
		for _, s := range c.Run(fn, Opts{NoReads: true, Model: c.specModels()}, RunOpt{}) {
			c.Count(rule, 1)
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for _, ev := range evs {
					switch ev.Kind {
					case "Write", "MapWrite", "MapDelete":
						if ev.Addr != nil && (ev.Addr.Op == "ea" || ev.Addr.Op == "mv" || ev.Addr.Op == "mh") && idx[ev.Addr.Args[0]] {
							c.FailPath(ev.Pos(), rule, st, "%s changes its caller's %v", fnName(fn), ev.Addr.Args[0])
						}
						if ev.Val != nil && idx[ev.Val] && !ev.Local {
							if _, isMap := ev.Val.Typ.Underlying().(*types.Map); isMap {
								c.FailPath(ev.Pos(), rule, st, "%s keeps its caller's map %v", fnName(fn), ev.Val)
							}
						}
					case "Append":
						base := ev.Addr
						for base.Op == "append" || base.Op == "appendall" || base.Op == "conv" || base.Op == "slice" && len(base.Args) == 3 {
							base = base.Args[0]
						}
						if idx[base] {
							c.FailPath(ev.Pos(), rule, st, "%s extends its caller's %v in place", fnName(fn), base)
						}
					}
				}
			})
			// kept in an object it returns
			for _, r := range s.ret {
				if r == nil {
					continue
				}
				if idx[r] {
					continue
				}
				root := r
				if root.Op == "iface" {
					root = root.Args[0]
				}
				for a, v := range s.mem {
					if idx[v] && addrRoot(a) == root {
						if _, isMap := v.Typ.Underlying().(*types.Map); isMap {
							c.FailPath(fn.Pos(), rule, s, "%s keeps its caller's map %v", fnName(fn), v)
						}
					}
				}
			}
		}
	}
}
