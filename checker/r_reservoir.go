package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C17", rule: "object-history fixpoint of each distribution with interval and linear facts: every index, slice and division in Insert, Query, ReservoirAverage, FullAverage is shown in range from the path's facts (fractional indices through the lemma on truncated products), every sample read lies below the count, each insertion writes the slot of its ordinal while the sample is filling and at most one slot afterwards, and after any write of the sample every query path sorts the sample's whole used range before reading it", run: runC17})
}

func runC17(c *Ctx) {
	c.Assume("64-bit counts do not overflow")
	for _, t := range distTypes {
		c17Dist(c, t)
	}
	c.Floor("index", 12)
	c.Floor("read", 12)
	c.Floor("insert", 9)
	c.Floor("sorted", 9)
	c.Floor("comparator", 1)
}

// sampleArray finds the array (or slice) of samples: the memory Query reads.
func isElemOf(a, obj *Term) bool {
	return a != nil && a.Op == "ea" && addrRoot(a) == obj && isFloatType(pointee(a))
}

func sortArg(ev *Event) *Term {
	if ev.Kind != "Ext" && ev.Kind != "Pure" || !strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "slices.Sort") {
		return nil
	}
	if len(ev.Args) == 0 {
		return nil
	}
	t := ev.Args[0]
	for t.Op == "iface" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func c17Dist(c *Ctx, tname string) {
	typ := c.P.Type("", tname)
	ins, reset, query := c.Method("", tname, "Insert"), c.Method("", tname, "Reset"), c.Method("", tname, "Query")
	ravg, favg := c.Method("", tname, "ReservoirAverage"), c.Method("", tname, "FullAverage")
	if typ == nil || ins == nil || reset == nil || query == nil || ravg == nil || favg == nil {
		return
	}
	i64 := types.Typ[types.Int64]
	o := Opts{Seq: true, NoReads: true}
	inits := c.construct("index", o, c.Func("", "New"+tname))
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	v := argOf(ins, 1)
	q := argOf(query, 1)
	with := func(in []*State, obj *Term) []*State {
		for _, s := range in {
			setObj(s, obj)
		}
		return in
	}
	g := c.history(inits, func(s *State) (out []*State) {
		obj := objOf(s)
		out = append(out, with(c.callR("index", s, ins, obj, argTag(ins, 1, "'")), obj)...)
		out = append(out, with(c.callR("index", s, query, obj, argTag(query, 1, "'")), obj)...)
		out = append(out, with(c.callR("index", s, ravg, obj), obj)...)
		out = append(out, with(c.callR("index", s, favg, obj), obj)...)
		out = append(out, with(c.callR("index", s, reset, obj), obj)...)
		return
	})
	if g == nil {
		return
	}
	obj := objOf(g)
	count := func(s *State) *Term { return c.readField(s, obj, typ, "Count") }
	// every access in range, from every reachable state
	mode := ""
	size := int64(-1)
	hook := func(s *State, ev *Event) {
		if ev.Kind != "Read" || mode != "used" || !isElemOf(ev.Addr, obj) {
			return
		}
		i := ev.Addr.Args[1]
		n := count(s)
		if at, ok := arrayLen(ev.Addr); ok {
			size = at
		}
		lo, k1 := s.facts.truth(mkLeInt(mkInt(0), i))
		hi, k2 := s.facts.truth(mkLeInt(mkAdd(i, mkInt(1), i64), n))
		s.events = append(s.events, &Event{Kind: "Sample", Instr: ev.Instr, Fn: ev.Fn, Args: []*Term{i, n}, OK: k1 && lo && k2 && hi})
	}
	inspect := func(cur string, r *State) {
		c.P.eachEvents(r, func(evs []*Event) {
			for _, ev := range evs {
				switch ev.Kind {
				case "Index", "SliceOp", "Div", "FDiv":
					c.Count("index", 1)
					if !ev.OK {
						what := map[string]string{"Index": "index out of range", "SliceOp": "slice bounds out of range", "Div": "division by zero", "FDiv": "division by zero"}[ev.Kind]
						c.FailPath(ev.Pos(), "index", r, "%s: %s cannot be excluded for %v", cur, what, ev.Args)
					}
				case "Sample":
					c.Count("read", 1)
					if !ev.OK {
						c.FailPath(ev.Pos(), "read", r, "%s reads sample slot %v, which is not shown to be below the number %v of values inserted", cur, ev.Args[0], ev.Args[1])
					}
				}
			}
		})
	}
	ho := o
	ho.Hook = hook
	hcall := func(m, name string, s *State, fn *ssa.Function, args ...*Term) []*State {
		mode = m
		n := s.clone()
		n.e = newEngine(c.P, ho)
		out := with(c.returns("index", fn, c.Cont(n, funcTerm(fn), args, RunOpt{})), obj)
		for _, r := range out {
			inspect(name, r)
		}
		return out
	}
	empty, used := g.clone(), g.clone()
	if !used.facts.assume(mkLe(mkInt(1), count(g), i64), true) {
		c.FailAt("-", "index", "", "no used state")
		return
	}
	if v, k := g.facts.truth(mkLe(mkInt(0), count(g), i64)); !k || !v {
		c.FailPath(ins.Pos(), "index", g, "the count of %s can become negative", tname)
	}
	empty.facts.assume(mkEqInt(count(g), mkInt(0)), true)
	inserted := hcall("", fnName(ins), g, ins, obj, v)
	queried := hcall("used", fnName(query), used, query, obj, q)
	hcall("used", fnName(ravg), used, ravg, obj)
	hcall("", fnName(query), empty, query, obj, q)
	hcall("", fnName(ravg), empty, ravg, obj)
	hcall("", fnName(favg), g, favg, obj)
	if size < 0 {
		size = 64
	}
	// nothing inserted: the answer is zero
	for _, s := range append(append([]*State{}, inits...), with(c.callR("index", g, reset, obj), obj)...) {
		for _, f := range []*ssa.Function{query, ravg, favg} {
			args := []*Term{obj}
			if f == query {
				args = append(args, q)
			}
			for _, r := range c.callR("read", s, f, args...) {
				c.Count("read", 1)
				if x := unwrap(r.ret[0]); !eqv(r.facts, x, mkInt(0)) {
					c.FailPath(f.Pos(), "read", r, "%s of a distribution nothing was inserted into since construction or reset is %v, not zero", fnName(f), r.ret[0])
				}
			}
		}
	}
	// slots
	for _, r := range inserted {
		c.Count("insert", 1)
		n0 := count(g)
		full, fk := r.facts.truth(mkLe(mkInt(size), n0, i64))
		var ws []*Event
		for _, ev := range r.events {
			if ev.Kind == "Write" && isElemOf(ev.Addr, obj) {
				ws = append(ws, ev)
			}
		}
		for _, w := range ws {
			if x := unsample(w.Val); x != v && !isPureOf(x, v) {
				c.FailPath(w.Pos(), "insert", r, "%s stores %v in the sample, not the inserted value", fnName(ins), w.Val)
			}
		}
		switch {
		case fk && full:
			if len(ws) > 1 {
				c.FailPath(ins.Pos(), "insert", r, "%s replaces %d slots of a full sample", fnName(ins), len(ws))
			}
			for _, w := range ws {
				i := w.Addr.Args[1]
				for i.Op == "conv" {
					i = i.Args[0]
				}
				if i.Op != "rem" {
					continue
				}
				d := i.Args[1]
				for d.Op == "conv" {
					d = d.Args[0]
				}
				n1 := mkAdd(n0, mkInt(1), i64)
				ok := eqv(r.facts, d, n1)
				if !ok && d.Op == "load" && d.Args[0].Op == "global" && strings.HasSuffix(d.Args[0].Aux, "Window") {
					v1, k1 := r.facts.truth(mkLe(d, n1, i64))
					v2, k2 := r.facts.truth(mkLe(mkInt(1), d, i64))
					ok = k1 && v1 && k2 && v2
				}
				if !ok {
					c.FailPath(w.Pos(), "insert", r, "%s picks the slot to replace among %v, neither the number of values nor the smaller configured window", fnName(ins), d)
				}
			}
		case len(ws) == 1 && eqv(r.facts, ws[0].Addr.Args[1], n0):
		default:
			c.FailPath(ins.Pos(), "insert", r, "%s of value number %v into a sample not yet full does not store it in its own slot", fnName(ins), n0)
		}
	}
	// sorting
	qsort := func(r *State) *Event {
		for _, ev := range r.events {
			if a := sortArg(ev); a != nil {
				return ev
			}
		}
		return nil
	}
	many := func(r *State) bool { // more than one sample may be there
		v, k := r.facts.truth(mkLe(count(r), mkInt(1), i64))
		return !(k && v)
	}
	full := func(r *State, ev *Event) bool { // the sorted range is the used range
		a := sortArg(ev)
		n := count(r)
		if a.Op == "appendall" && len(a.Args) >= 2 && a.Args[0].isNil() {
			a = a.Args[1] // a copy
		}
		for a.Op == "slice" && len(a.Args) >= 3 {
			lo, hi := a.Args[1], a.Args[2]
			base := a.Args[0]
			if !eqv(r.facts, lo, mkInt(0)) {
				return false
			}
			if eqv(r.facts, hi, n) {
				return true
			}
			if eqv(r.facts, hi, mkInt(size)) {
				v, k := r.facts.truth(mkLe(mkInt(size), n, i64))
				return k && v
			}
			a = base
			if a.Op != "slice" {
				return false
			}
		}
		// a whole array: only right when full
		v, k := r.facts.truth(mkLe(mkInt(size), n, i64))
		return k && v
	}
	// the comparison used by the sort
	for _, r := range queried {
		ev := qsort(r)
		if ev == nil {
			continue
		}
		c.Count("sorted", 1)
		if !full(r, ev) {
			c.FailPath(ev.Pos(), "sorted", r, "%s sorts %v, which is not the used part of the sample", fnName(query), sortArg(ev))
		}
		if own := addrRootOfSlice(sortArg(ev)); own != obj {
			for _, r2 := range hcall("", fnName(query), r, query, obj, q) {
				if many(r2) && qsort(r2) == nil {
					c.FailPath(ev.Pos(), "sorted", r, "%s sorts a copy and then takes the sample for sorted", fnName(query))
				}
			}
		}
		c.comparator(ev)
	}
	for _, r := range inserted {
		wrote := false
		for _, ev := range r.events {
			if ev.Kind == "Write" && isElemOf(ev.Addr, obj) {
				wrote = true
			}
		}
		for _, r2 := range hcall("", fnName(query), r, query, obj, q) {
			if !many(r2) || qsort(r2) != nil {
				continue
			}
			c.Count("sorted", 1)
			if wrote {
				c.FailPath(query.Pos(), "sorted", r2, "a query right after %s changed the sample does not sort it", fnName(ins))
				continue
			}
			// nothing written: not sorting must already have been right before
			g2 := g.clone()
			if !mergeFacts(g2, r2) {
				continue
			}
			for _, r3 := range hcall("", fnName(query), g2, query, obj, q) {
				if many(r3) && qsort(r3) != nil {
					c.FailPath(ins.Pos(), "sorted", r3, "%s marks the sample as sorted without sorting it", fnName(ins))
				}
			}
		}
	}
	// a sample that never was sorted must be sorted: two values, one query
	for _, s := range inits {
		for _, s1 := range with(c.callR("sorted", s, ins, obj, v), obj) {
			for _, s2 := range with(c.callR("sorted", s1, ins, obj, argTag(ins, 1, "''")), obj) {
				for _, r := range hcall("", fnName(query), s2, query, obj, q) {
					c.Count("sorted", 1)
					if qsort(r) == nil {
						c.FailPath(query.Pos(), "sorted", r, "a query of two values does not sort them")
					}
				}
			}
		}
	}
}

func isPureOf(x, v *Term) bool {
	return (x.Op == "pure" || x.Op == "ext") && len(x.Args) == 1 && unsample(x.Args[0]) == v
}

func arrayLen(a *Term) (int64, bool) {
	p := a.Args[0]
	if at, ok := pointee(p).Underlying().(*types.Array); ok {
		return at.Len(), true
	}
	return 0, false
}

func addrRootOfSlice(a *Term) *Term {
	for a.Op == "slice" {
		a = a.Args[0]
	}
	return addrRoot(a)
}

// comparator checks the ordering given to sort.Sort: Less(i, j) is x[i] < x[j].
func (c *Ctx) comparator(ev *Event) {
	if len(ev.Args) == 0 || ev.Args[0].Op != "iface" && ev.Args[0].Op != "conv" {
		// sort.Slice and friends: the function argument
		return
	}
	ct, _ := ev.Args[0].Obj.(types.Type)
	if ct == nil {
		ct = ev.Args[0].Typ
	}
	less := c.P.SSA.LookupMethod(ct, nil, "Less")
	swap := c.P.SSA.LookupMethod(ct, nil, "Swap")
	ln := c.P.SSA.LookupMethod(ct, nil, "Len")
	if less == nil || swap == nil || ln == nil {
		return
	}
	c.Count("comparator", 1)
	x, i, j := paramTerm(less, 0), paramTerm(less, 1), paramTerm(less, 2)
	et := x.Typ.Underlying().(*types.Slice).Elem()
	for _, s := range c.Run(less, Opts{Seq: true, NoReads: true}, RunOpt{}) {
		at := func(k *Term) *Term { return s.clone().read(mkElemAddr(x, k, et), et) }
		want := mkLt(at(i), at(j), et)
		want2 := mkLe(at(i), at(j), et)
		r := s.ret[0]
		if r == want || r == want2 {
			continue
		}
		a, k := s.facts.truth(r)
		b, k2 := s.facts.truth(want)
		if k && k2 && a == b {
			continue
		}
		c.FailPath(less.Pos(), "comparator", s, "%s orders by %v, not by ascending value", fnName(less), r)
	}
	for _, s := range c.Run(ln, Opts{Seq: true, NoReads: true}, RunOpt{}) {
		if s.ret[0] != mkLen(paramTerm(ln, 0)) {
			c.FailPath(ln.Pos(), "comparator", s, "%s is %v", fnName(ln), s.ret[0])
		}
	}
	xs, is, js := paramTerm(swap, 0), paramTerm(swap, 1), paramTerm(swap, 2)
	for _, s := range c.Run(swap, Opts{Seq: true, NoReads: true}, RunOpt{}) {
		l := func(k *Term) *Term { return mkLoad(mkElemAddr(xs, k, et), 0, et) }
		ok := false
		var ws []*Event
		for _, e := range s.events {
			if e.Kind == "Write" {
				ws = append(ws, e)
			}
		}
		if len(ws) == 2 {
			a, b := ws[0], ws[1]
			if a.Addr == mkElemAddr(xs, js, et) {
				a, b = b, a
			}
			ok = a.Addr == mkElemAddr(xs, is, et) && b.Addr == mkElemAddr(xs, js, et) && a.Val == l(js) && b.Val == l(is)
		}
		if !ok {
			c.FailPath(swap.Pos(), "comparator", s, "%s does not exchange the two elements", fnName(swap))
		}
	}
}

// unsample also undoes the rounding to the precision of the sample.
func unsample(t *Term) *Term {
	for {
		t = unwrap(t)
		if t == nil || t.Op != "conv" || len(t.Args) != 1 || t.Typ == nil {
			return t
		}
		if b, ok := t.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsFloat == 0 {
			return t
		}
		t = t.Args[0]
	}
}
