package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C15", spec: true, rule: "contract drivers with arbitrary names, keys and values: which scopes, functions, sources and spans each enumeration hands to its callback, how often and in which order (map iteration in every order, sorting analysed as its comparisons and exchanges); loops of the enumerations end only when their container is exhausted and skip an element only by its kind or for being a duplicate", run: runC15})
}

func runC15(c *Ctx) {
	o := c.specOpts()
	o.Sort, o.Fresh = true, true
	c.SpecAll("visit", o)
	c.Floor("visit", 30)
	en := c.enumerators()
	c.Count("enumerators", len(en))
	c.Floor("enumerators", 10)
	for _, fn := range en {
		c.exhausts("exhaust", fn)
	}
	c.Floor("exhaust", 20)
}

// enumerators are the exported functions of the core package that hand all of
// something to a callback.
func (c *Ctx) enumerators() (out []*ssa.Function) {
	for _, fn := range c.api() {
		if extPkg(fn) != modPath || fn.Signature.Results().Len() != 0 {
			continue
		}
		ps := fn.Signature.Params()
		if ps.Len() != 1 {
			continue
		}
		cb, ok := ps.At(0).Type().Underlying().(*types.Signature)
		if !ok || cb.Results().Len() != 0 {
			continue
		}
		over := ""
		if r := fn.Signature.Recv(); r != nil {
			over = namedOf(r.Type()).Obj().Name()
		}
		switch over {
		case "", "Registry", "Scope", "Span", "Func":
			if cb.Params().Len() == 1 && namedOf(cb.Params().At(0).Type()) != nil || cb.Params().Len() == 3 && over != "Func" {
				out = append(out, fn)
			}
		}
	}
	return
}

// exhausts: the loops of an enumeration go through all of their container.
func (c *Ctx) exhausts(rule string, fn *ssa.Function) {
	for _, s := range c.Run(fn, Opts{NoReads: true}, RunOpt{}) {
		if s.how != "return" {
			continue
		}
		c.Count(rule, 1)
		seen := map[*LoopInfo]bool{}
		loops := 0
		var walk func(evs []*Event) (useful bool)
		walk = func(evs []*Event) (useful bool) {
			for _, ev := range evs {
				switch ev.Kind {
				case "App", "Append", "Rec":
					useful = true
				case "MapWrite":
					if ev.Local {
						useful = true
					}
				}
				li := ev.Loop
				if li == nil || seen[li] {
					continue
				}
				seen[li] = true
				c.Count(rule, 1)
				for _, l := range li.Leaves {
					if l.how == "panic" || len(l.panics) > 0 {
						continue
					}
					if n := len(l.events); n > 0 {
						if x := lastLeave(l, li); x != nil && x.Name != "header" {
							c.FailPath(posOfBlock(li.Header), rule, s, "%s: the loop in %s can end before its container is exhausted", fnName(fn), fnName(li.Fn))
						}
					}
				}
				if msg := bounds(li); msg != "" {
					c.FailPath(posOfBlock(li.Header), rule, s, "%s: the loop in %s does not go through all of its container: it runs while %s", fnName(fn), fnName(li.Fn), msg)
				}
				any := false
				var skipped []*State
				for _, it := range li.Iters {
					if walk(it.events[min(li.Base, len(it.events)):]) {
						any = true
					} else {
						skipped = append(skipped, it)
					}
				}
				if !any {
					continue
				}
				loops++
				useful = true
				for _, it := range skipped {
					if !allowedSkip(li, it) {
						c.FailPath(posOfBlock(li.Header), rule, it, "%s: the loop in %s skips an element for another reason than its kind or being a duplicate", fnName(fn), fnName(li.Fn))
					}
				}
			}
			return useful
		}
		walk(s.events)
		if loops == 0 {
			c.FailPath(fn.Pos(), rule, s, "%s returns without having visited anything", fnName(fn))
		}
	}
}

func lastLeave(l *State, li *LoopInfo) *Event {
	for i := len(l.events) - 1; i >= 0; i-- {
		if ev := l.events[i]; ev.Kind == "LoopLeave" && ev.Loop == li {
			return ev
		}
	}
	return nil
}

// bounds: a counting loop runs up to the length of something.
func bounds(li *LoopInfo) string {
	c := li.Cond
	if c == nil || li.Range != nil {
		return ""
	}
	for c.Op == "not" {
		c = c.Args[0]
	}
	if c.Op != "hle" && c.Op != "heq" {
		return ""
	}
	I := types.Typ[types.Int]
	var lens []*Term
	anyTerm(c, func(t *Term) bool {
		if t.Op == "len" || t.Op == "maplen" {
			lens = append(lens, t)
		}
		return false
	})
	if len(lens) > 1 {
		sum := lens[0]
		for _, n := range lens[1:] {
			sum = mkAdd(sum, n, I)
		}
		lens = append(lens, sum)
	}
	for v := range li.Init {
		if !isIntType(v.Typ) {
			continue
		}
		for _, n := range lens {
			for _, w := range []*Term{mkLt(v, n, I), mkLt(mkAdd(v, mkInt(1), I), n, I)} {
				if c == w || mkNot(c) == w || c == mkNot(w) {
					return ""
				}
			}
			if mkEq(v, n, I) == c {
				return ""
			}
		}
		for _, w := range []*Term{mkLt(v, mkInt(0), I), mkLt(mkInt(0), v, I)} {
			if init := li.Init[v]; (c == w || c == mkNot(w)) && anyTerm(init, func(t *Term) bool { return t.Op == "len" }) {
				return ""
			}
		}
	}
	return li.Cond.String()
}

// allowedSkip: what the iteration found out about the element is that it is of
// another kind, missing, or already there.
func allowedSkip(li *LoopInfo, it *State) bool {
	ok := false
	for t, v := range it.facts.b {
		if !anyTerm(t, func(x *Term) bool { _, ok := li.Init[x]; return ok || x.Op == "rangekey" }) {
			continue // not about the element
		}
		for t.Op == "not" {
			t = t.Args[0]
			v = !v
		}
		switch t.Op {
		case "assertok":
			ok = ok || !v
		case "eq":
			ok = ok || v && (t.Args[0].isNil() || t.Args[1].isNil())
		case "hle", "heq", "slt", "flt", "fle":
		default:
			if v && t.Op == "load" && (t.Args[0].Op == "mv" || t.Args[0].Op == "mh") {
				ok = true
			}
		}
	}
	return ok
}
