package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// summPure are the calls replaced by the cells they change in the history
// analyses: the readers of the reservoir have many paths and none matter here.
func (c *Ctx) summDistReaders() func(fn *ssa.Function) bool {
	m := map[*ssa.Function]bool{}
	for _, t := range distTypes {
		for _, n := range []string{"Query", "ReservoirAverage", "FullAverage"} {
			if f := c.P.Method("", t, n); f != nil {
				m[f] = true
			}
		}
	}
	return func(fn *ssa.Function) bool { return m[fn] }
}

var distTypes = []string{"IntDist", "FloatDist", "DurationDist"}

// ends keeps the states that returned and fails on the others.
func (c *Ctx) returns(rule string, fn *ssa.Function, in []*State) []*State {
	var out []*State
	for _, s := range in {
		if s.how == "return" {
			out = append(out, s)
		} else {
			c.FailPath(fn.Pos(), rule, s, "%s does not return normally (%s)", fnName(fn), s.how)
		}
	}
	return out
}

// call continues a state with a call of fn.
func (c *Ctx) call(s *State, fn *ssa.Function, args ...*Term) []*State {
	if fn == nil {
		return nil
	}
	return c.Cont(s, funcTerm(fn), args, RunOpt{})
}

func (c *Ctx) callR(rule string, s *State, fn *ssa.Function, args ...*Term) []*State {
	if fn == nil {
		return nil
	}
	return c.returns(rule, fn, c.call(s, fn, args...))
}

// obs is what the observers of an object say in a state.
type obs struct {
	s *State
	v map[string]*Term
}

// observe runs accessors (no-argument methods returning one value) in a state.
func (c *Ctx) observe(rule string, s *State, obj *Term, acc map[string]*ssa.Function) []obs {
	out := []obs{{s, map[string]*Term{}}}
	for _, n := range sortedKeys(acc) {
		var next []obs
		for _, o := range out {
			for _, r := range c.callR(rule, o.s, acc[n], obj) {
				v := map[string]*Term{}
				for k, x := range o.v {
					v[k] = x
				}
				if len(r.ret) == 1 {
					v[n] = r.ret[0]
				}
				next = append(next, obs{r, v})
			}
		}
		out = next
	}
	return out
}

// emitted runs Stats on an object with a symbolic callback and returns what
// each field was emitted with.
type emission struct {
	field string
	key   *Term
	val   *Term
	ev    *Event
}

var cbTerm = func() *Term { return mk("param", "verif-cb", nil, nil) }

func (c *Ctx) statsOf(rule string, s *State, obj *Term, fn *ssa.Function) []obs {
	var out []obs
	if fn == nil {
		return nil
	}
	cb := statsCB(fn)
	for _, r := range c.callR(rule, s, fn, obj, cb) {
		v := map[string]*Term{}
		for _, e := range emissions(c, r, cb) {
			if _, dup := v[e.field]; dup {
				c.FailPath(e.ev.Pos(), rule, r, "field %q is emitted twice by %s", e.field, fnName(fn))
			}
			v[e.field] = e.val
		}
		out = append(out, obs{r, v})
	}
	return out
}

func statsCB(fn *ssa.Function) *Term {
	p := fn.Params[len(fn.Params)-1]
	return mk("param", "cb!:"+typeKey(p.Type()), p.Type(), nil)
}

// emissions lists the calls of cb on a path.
func emissions(c *Ctx, s *State, cb *Term) []emission {
	var out []emission
	for _, ev := range s.events {
		if ev.Kind != "App" || ev.Callee != cb {
			continue
		}
		e := emission{ev: ev}
		if len(ev.Args) == 3 {
			e.key, e.val = ev.Args[0], ev.Args[2]
			if f, ok := ev.Args[1].strVal(); ok {
				e.field = f
			} else {
				e.field = "?" + ev.Args[1].String()
			}
		}
		out = append(out, e)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

// unwrap strips numeric conversions and Duration.Seconds from a reported value.
func unwrap(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "conv" && len(t.Args) == 1 && lossless(t):
			t = t.Args[0]
		case t.Op == "pure" && strings.HasPrefix(t.Aux, "(time.Duration).Seconds") && len(t.Args) == 1:
			t = t.Args[0]
		default:
			if v, ok := t.floatVal(); ok && v == math.Trunc(v) && math.Abs(v) < 1e15 {
				return mkInt(int64(v))
			}
			return t
		}
	}
	return t
}

// isExtreme reports whether r is the larger (or smaller) of a and b on the path.
func isExtreme(f *Facts, r, a, b *Term, typ types.Type, larger bool) bool {
	if a == b {
		return r == a
	}
	le := func(x, y *Term) bool { // x is at least as extreme as y, given NaN-free reasoning
		lo, hi := y, x
		if !larger {
			lo, hi = x, y
		}
		// lo <= hi
		if v, k := f.truth(mkLe(lo, hi, typ)); k && v {
			return true
		}
		if v, k := f.truth(mkLt(lo, hi, typ)); k && v {
			return true
		}
		if v, k := f.truth(mkLe(hi, lo, typ)); k && !v {
			return true
		}
		// not (hi < lo)
		if v, k := f.truth(mkLt(hi, lo, typ)); k && !v {
			return true
		}
		return false
	}
	same := func(x, y *Term) bool {
		if x == y {
			return true
		}
		v, k := f.eqTruth(x, y)
		if k && v {
			return true
		}
		if isIntType(typ) {
			v, k = f.truth(mkEqInt(x, y))
			return k && v
		}
		return false
	}
	if r.Op == "pure" && len(r.Args) == 2 && (r.Args[0] == a && r.Args[1] == b || r.Args[0] == b && r.Args[1] == a) {
		if larger && strings.HasPrefix(r.Aux, "math.Max") || !larger && strings.HasPrefix(r.Aux, "math.Min") {
			return true
		}
	}
	return same(r, a) && le(a, b) || same(r, b) && le(b, a)
}

func eqv(f *Facts, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a == b {
		return true
	}
	if v, k := f.eqTruth(a, b); k && v {
		return true
	}
	if isIntType(a.Typ) || isIntType(b.Typ) {
		v, k := f.truth(mkEqInt(a, b))
		return k && v
	}
	return false
}

// ---- C11 ----

func init() {
	register(&checkDef{id: "C11", rule: "object-history fixpoint: the states a Counter, distribution, value or BoolVal can be in after any sequence of operations are over-approximated by widening from its constructor; from every such state each operation's path partitions must transform the observable quantities exactly as specified (running value, max/min decided by the path's own comparisons, sums and counts as linear terms), each operation touching its object in one critical section", run: runC11})
}

func runC11(c *Ctx) {
	c.Assume("64-bit counters and sums do not overflow")
	c11Counter(c)
	for _, t := range distTypes {
		c11Dist(c, t)
	}
	for _, t := range []string{"IntVal", "FloatVal", "DurationVal"} {
		c11Val(c, t)
	}
	c11Bool(c)
	for _, m := range [][2]string{{"Counter", "Set"}, {"Counter", "Inc"}, {"Counter", "Dec"}, {"Counter", "Reset"}, {"IntVal", "Observe"}, {"FloatVal", "Observe"}, {"DurationVal", "Observe"}} {
		c.oneSection("one-section", c.Method("", m[0], m[1]))
	}
	c.Floor("counter", 12)
	c.Floor("dist", 20)
	c.Floor("val", 6)
	c.Floor("bool", 2)
}

// argOf makes a fresh argument for a parameter.
func argOf(fn *ssa.Function, i int) *Term { return argTag(fn, i, "") }

// argTag makes distinct arguments for distinct calls of a history:
func argTag(fn *ssa.Function, i int, tag string) *Term {
	p := fn.Params[i]
	return mk("param", p.Name()+tag+":"+strconv.Itoa(i)+":"+typeKey(p.Type())+"!", p.Type(), p)
}

// construct runs a constructor and returns its states with the object.
func (c *Ctx) construct(rule string, o Opts, fn *ssa.Function, args ...*Term) []*State {
	if fn == nil {
		return nil
	}
	var ro RunOpt
	if args != nil {
		ro.Args = args
	}
	return c.returns(rule, fn, c.Run(fn, o, ro))
}

func c11Counter(c *Ctx) {
	const rule = "counter"
	set, inc, dec, reset := c.Method("", "Counter", "Set"), c.Method("", "Counter", "Inc"), c.Method("", "Counter", "Dec"), c.Method("", "Counter", "Reset")
	acc := map[string]*ssa.Function{"low": c.Method("", "Counter", "Low"), "high": c.Method("", "Counter", "High"), "cur": c.Method("", "Counter", "Current")}
	for _, f := range []*ssa.Function{set, inc, dec, reset, acc["low"], acc["high"], acc["cur"]} {
		if f == nil {
			return
		}
	}
	o := Opts{Seq: true, NoReads: true}
	inits := c.construct(rule, o, c.Func("", "NewCounter"))
	i64 := types.Typ[types.Int64]
	v := argOf(set, 1)
	w := argTag(set, 1, "'")
	// newval gives what the counter holds after an operation
	ops := []struct {
		fn   *ssa.Function
		want func(cur *Term) *Term
		ret  func(cur, now *Term) *Term
	}{
		{set, func(cur *Term) *Term { return v }, func(cur, now *Term) *Term { return cur }},
		{inc, func(cur *Term) *Term { return mkAdd(cur, v, i64) }, func(cur, now *Term) *Term { return now }},
		{dec, func(cur *Term) *Term { return mkSub(cur, v, i64) }, func(cur, now *Term) *Term { return now }},
	}
	check := func(from []*State, first bool) (after []*State) {
		for _, s := range from {
			obj := objOf(s)
			for _, before := range c.observe(rule, s, obj, acc) {
				for _, op := range ops {
					for _, r := range c.callR(rule, before.s, op.fn, obj, v) {
						setObj(r, obj)
						now := op.want(before.v["cur"])
						if len(r.ret) != 1 || !eqv(r.facts, r.ret[0], op.ret(before.v["cur"], now)) {
							c.FailPath(op.fn.Pos(), rule, r, "%s returns %v, not %v", fnName(op.fn), r.ret, op.ret(before.v["cur"], now))
						}
						for _, a := range c.observe(rule, r, obj, acc) {
							c.Count(rule, 1)
							if !eqv(a.s.facts, a.v["cur"], now) {
								c.FailPath(op.fn.Pos(), rule, a.s, "after %s the counter holds %v, not %v", fnName(op.fn), a.v["cur"], now)
							}
							for _, side := range []string{"low", "high"} {
								var ok bool
								if first {
									ok = eqv(a.s.facts, a.v[side], now)
								} else {
									ok = isExtreme(a.s.facts, a.v[side], before.v[side], now, i64, side == "high")
								}
								if !ok {
									c.FailPath(op.fn.Pos(), rule, a.s, "after %s with new value %v the %s value %v is reported (it was %v, first=%v)", fnName(op.fn), now, side, a.v[side], before.v[side], first)
								}
							}
						}
						after = append(after, r)
					}
				}
			}
		}
		return
	}
	zero := func(from []*State) {
		for _, s := range from {
			for _, b := range c.observe(rule, s, objOf(s), acc) {
				for _, n := range sortedKeys(b.v) {
					if !eqv(b.s.facts, b.v[n], mkInt(0)) {
						c.FailPath(reset.Pos(), rule, b.s, "a new or reset counter reports %s=%v", n, b.v[n])
					}
				}
			}
		}
	}
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	zero(inits)
	first := check(inits, true)
	step := func(s *State) (out []*State) {
		obj := objOf(s)
		for _, op := range ops {
			for _, r := range c.callR(rule, s, op.fn, obj, w) {
				setObj(r, obj)
				out = append(out, r)
			}
		}
		return
	}
	g := c.history(first, step)
	if g == nil {
		return
	}
	check([]*State{g}, false)
	// reset: from the used state and from the new one
	var cleared []*State
	for _, s := range append([]*State{g}, inits...) {
		obj := objOf(s)
		for _, b := range c.observe(rule, s, obj, acc) {
			for _, r := range c.callR(rule, b.s, reset, obj) {
				setObj(r, obj)
				if len(r.ret) != 3 || !eqv(r.facts, r.ret[0], b.v["cur"]) || !eqv(r.facts, r.ret[1], b.v["low"]) || !eqv(r.facts, r.ret[2], b.v["high"]) {
					c.FailPath(reset.Pos(), rule, r, "Reset returns %v", r.ret)
				}
				cleared = append(cleared, r)
			}
		}
	}
	zero(cleared)
	check(cleared, true)
}

func objOf(s *State) *Term     { return s.obj }
func setObj(s *State, o *Term) { s.obj = o }

func (c *Ctx) fieldAddr(obj *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(obj, i, typ)
		}
	}
	return nil
}

func (c *Ctx) readField(s *State, obj *Term, typ types.Type, name string) *Term {
	a := c.fieldAddr(obj, typ, name)
	if a == nil {
		return nil
	}
	return s.clone().read(a, pointee(a))
}

func c11Dist(c *Ctx, tname string) {
	const rule = "dist"
	typ := c.P.Type("", tname)
	if typ == nil {
		c.FailAt("-", "anchor", "", "type %s is not there any more", tname)
		return
	}
	ins, reset, cpy := c.Method("", tname, "Insert"), c.Method("", tname, "Reset"), c.Method("", tname, "Copy")
	query, ravg, favg := c.Method("", tname, "Query"), c.Method("", tname, "ReservoirAverage"), c.Method("", tname, "FullAverage")
	if ins == nil || reset == nil || cpy == nil || query == nil || ravg == nil || favg == nil {
		return
	}
	o := Opts{Seq: true, NoReads: true}
	inits := c.construct(rule, o, c.Func("", "New"+tname))
	names := []string{"Low", "High", "Recent", "Count", "Sum"}
	read := func(s *State, obj *Term) map[string]*Term {
		m := map[string]*Term{}
		for _, n := range names {
			m[n] = c.readField(s, obj, typ, n)
			if m[n] == nil {
				c.FailAt("-", "anchor", "", "%s.%s is not there any more", tname, n)
				return nil
			}
		}
		return m
	}
	v := argOf(ins, 1)
	vt := ins.Params[1].Type()
	var val0 *Term = v
	check := func(from []*State, first bool) (after []*State) {
		for _, s := range from {
			obj := objOf(s)
			before := read(s, obj)
			if before == nil {
				return nil
			}
			for _, r := range c.callR(rule, s, ins, obj, val0) {
				setObj(r, obj)
				a := read(r, obj)
				c.Count(rule, 1)
				bad := func(n string, want any) {
					c.FailPath(ins.Pos(), rule, r, "after %s of %v, %s is %v, not %v (it was %v)", fnName(ins), val0, n, a[n], want, before[n])
				}
				if !eqv(r.facts, a["Count"], mkAdd(before["Count"], mkInt(1), types.Typ[types.Int64])) {
					bad("Count", "one more")
				}
				if !eqv(r.facts, a["Recent"], val0) {
					bad("Recent", val0)
				}
				e := s.e
				want := e.binop(r, addTok, before["Sum"], val0, vt, vt)
				want2 := e.binop(r, addTok, val0, before["Sum"], vt, vt)
				if !eqv(r.facts, a["Sum"], want) && !eqv(r.facts, a["Sum"], want2) {
					bad("Sum", want)
				}
				for _, n := range []string{"Low", "High"} {
					ok := false
					if first {
						ok = eqv(r.facts, a[n], val0)
					} else {
						ok = isExtreme(r.facts, a[n], before[n], val0, vt, n == "High")
					}
					if !ok {
						bad(n, "the extreme")
					}
				}
				after = append(after, r)
			}
		}
		return
	}
	zero := func(from []*State) {
		for _, s := range from {
			for n, x := range read(s, objOf(s)) {
				if !eqv(s.facts, x, zeroOf(x.Typ)) && !eqv(s.facts, x, mkInt(0)) {
					c.FailPath(reset.Pos(), rule, s, "a new or reset %s has %s=%v", tname, n, x)
				}
			}
		}
	}
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	zero(inits)
	first := check(inits, true)
	// queries before the first value must not disturb
	readers := func(s *State) (out []*State) {
		obj := objOf(s)
		before := read(s, obj)
		for _, f := range []*ssa.Function{query, ravg, favg} {
			args := []*Term{obj}
			if f == query {
				args = append(args, argOf(query, 1))
			}
			for _, r := range c.callR(rule, s, f, args...) {
				setObj(r, obj)
				a := read(r, obj)
				for _, n := range names {
					if !eqv(r.facts, a[n], before[n]) {
						c.FailPath(f.Pos(), rule, r, "%s changes %s from %v to %v", fnName(f), n, before[n], a[n])
					}
				}
				out = append(out, r)
			}
		}
		return
	}
	for _, s := range inits {
		check(readers(s), true)
	}
	step := func(s *State) (out []*State) {
		obj := objOf(s)
		for _, r := range c.callR(rule, s, ins, obj, argTag(ins, 1, "'")) {
			setObj(r, obj)
			out = append(out, r)
		}
		return append(out, readers(s)...)
	}
	g := c.history(first, step)
	if g == nil {
		return
	}
	if n := read(g, objOf(g)); n != nil {
		if k, ok := g.facts.truth(mkLe(mkInt(1), n["Count"], types.Typ[types.Int64])); !ok || !k {
			c.FailPath(ins.Pos(), rule, g, "the count is not always positive after an insertion")
		}
	}
	check([]*State{g}, false)
	var cleared []*State
	for _, s := range append([]*State{g}, inits...) {
		obj := objOf(s)
		for _, r := range c.callR(rule, s, reset, obj) {
			setObj(r, obj)
			cleared = append(cleared, r)
		}
		// a copy reports the same
		before := read(s, obj)
		for _, r := range c.callR(rule, s, cpy, obj) {
			c.Count("copy", 1)
			a := read(r, r.ret[0])
			for _, n := range names {
				if !eqv(r.facts, a[n], before[n]) {
					c.FailPath(cpy.Pos(), rule, r, "a copy has %s=%v, the original %v", n, a[n], before[n])
				}
			}
		}
	}
	zero(cleared)
	check(cleared, true)
	_ = fmt.Sprint
}

// c11Val checks that observing a value reaches the distribution it reports.
func c11Val(c *Ctx, tname string) {
	const rule = "val"
	obsv, stats := c.Method("", tname, "Observe"), c.Method("", tname, "Stats")
	if obsv == nil || stats == nil {
		return
	}
	o := Opts{Seq: true, NoReads: true, Summ: c.summDistReaders()}
	inits := c.construct(rule, o, c.Func("", "New"+tname))
	v := argOf(obsv, 1)
	vt := obsv.Params[1].Type()
	check := func(from []*State, first bool) (after []*State) {
		for _, s := range from {
			obj := objOf(s)
			for _, b := range c.statsOf(rule, s, obj, stats) {
				for _, r := range c.callR(rule, s, obsv, obj, v) {
					if !mergeFacts(r, b.s) {
						continue
					}
					setObj(r, obj)
					after = append(after, r)
					for _, a := range c.statsOf(rule, r, obj, stats) {
						c.Count(rule, 1)
						get := func(o obs, n string) *Term { return unwrap(o.v[n]) }
						f := a.s.facts
						bad := func(n string) {
							c.FailPath(obsv.Pos(), rule, a.s, "after %s(%v), %s is reported as %v (before: %v)", fnName(obsv), v, n, a.v[n], b.v[n])
						}
						if get(a, "count") == nil || get(b, "count") == nil {
							bad("count")
							continue
						}
						if !eqv(f, get(a, "count"), mkAdd(get(b, "count"), mkInt(1), types.Typ[types.Int64])) {
							bad("count")
						}
						if get(a, "recent") == nil || !eqv(f, get(a, "recent"), v) {
							bad("recent")
						}
						for _, n := range []string{"min", "max", "sum"} {
							x := get(a, n)
							switch {
							case x == nil:
								bad(n)
							case first:
								w := s.e.binop(r, addTok, zeroOf(vt), v, vt, vt)
								if !eqv(f, x, v) && !eqv(f, x, w) {
									bad(n)
								}
							case get(b, n) == nil:
								bad(n)
							case n == "sum":
								w, w2 := s.e.binop(r, addTok, get(b, n), v, vt, vt), s.e.binop(r, addTok, v, get(b, n), vt, vt)
								if !eqv(f, x, w) && !eqv(f, x, w2) {
									bad(n)
								}
							default:
								if !isExtreme(f, x, get(b, n), v, vt, n == "max") {
									bad(n)
								}
							}
						}
					}
				}
			}
		}
		return
	}
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	first := check(inits, true)
	g := c.history(first, func(s *State) (out []*State) {
		obj := objOf(s)
		for _, r := range c.callR(rule, s, obsv, obj, argTag(obsv, 1, "'")) {
			setObj(r, obj)
			out = append(out, r)
		}
		return
	})
	if g != nil {
		check([]*State{g}, false)
	}
}

func c11Bool(c *Ctx) {
	const rule = "bool"
	obsv, stats := c.Method("", "BoolVal", "Observe"), c.Method("", "BoolVal", "Stats")
	if obsv == nil || stats == nil {
		return
	}
	o := Opts{Seq: true, NoReads: true}
	inits := c.construct(rule, o, c.Func("", "NewBoolVal"))
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	step := func(s *State) (out []*State) {
		for _, b := range []bool{true, false} {
			for _, r := range c.callR(rule, s, obsv, objOf(s), mkBool(b)) {
				setObj(r, objOf(s))
				out = append(out, r)
			}
		}
		return
	}
	for _, s := range inits {
		for _, b := range c.statsOf(rule, s, objOf(s), stats) {
			for _, n := range []string{"true", "false", "recent"} {
				if x := unwrap(b.v[n]); !eqv(b.s.facts, x, mkInt(0)) {
					c.FailPath(stats.Pos(), rule, b.s, "a new BoolVal reports %s=%v", n, x)
				}
			}
		}
	}
	g := c.history(inits, step)
	if g == nil {
		return
	}
	for _, s := range append([]*State{g}, inits...) {
		for _, b := range c.statsOf(rule, s, objOf(s), stats) {
			for _, val := range []bool{true, false} {
				for _, r := range c.callR(rule, b.s, obsv, objOf(s), mkBool(val)) {
					for _, a := range c.statsOf(rule, r, objOf(s), stats) {
						c.Count(rule, 1)
						dt, df, rec := int64(0), int64(1), int64(0)
						if val {
							dt, df, rec = 1, 0, 1
						}
						f := a.s.facts
						ok := eqv(f, unwrap(a.v["true"]), mkAdd(unwrap(b.v["true"]), mkInt(dt), types.Typ[types.Int64])) &&
							eqv(f, unwrap(a.v["false"]), mkAdd(unwrap(b.v["false"]), mkInt(df), types.Typ[types.Int64])) &&
							eqv(f, unwrap(a.v["recent"]), mkInt(rec)) &&
							eqv(f, wholeNumber(a.v["disposition"]), mkSub(unwrap(a.v["true"]), unwrap(a.v["false"]), types.Typ[types.Int64]))
						if !ok {
							c.FailPath(obsv.Pos(), rule, a.s, "after Observe(%v) the BoolVal reports %v (before %v)", val, a.v, b.v)
						}
					}
				}
			}
		}
	}
	// concurrent observers: the tallies are changed by one atomic step
	for _, s := range c.Run(obsv, Opts{}, RunOpt{}) {
		for _, ev := range s.events {
			if (ev.Kind == "Write" || ev.Kind == "AtomicStore") && !ev.Local && anyTerm(ev.Val, func(t *Term) bool { return t.Op == "load" }) {
				c.FailPath(ev.Pos(), rule, s, "%s stores a value computed from an earlier read; a concurrent update between is lost", fnName(obsv))
			}
		}
	}
}

// wholeNumber undoes the conversion of integers to a float, also of a sum or
// difference of converted ones.
func wholeNumber(t *Term) *Term {
	if t != nil && (t.Op == "fsub" || t.Op == "fadd") && len(t.Args) == 2 {
		a, b := wholeNumber(t.Args[0]), wholeNumber(t.Args[1])
		if t.Op == "fsub" {
			return mkSub(a, b, types.Typ[types.Int64])
		}
		return mkAdd(a, b, types.Typ[types.Int64])
	}
	return unwrap(t)
}

// lossless: the conversion keeps the value (up to the precision of a float64).
func lossless(t *Term) bool {
	if t.Typ == nil || t.Args[0].Typ == nil {
		return true
	}
	to, ok1 := t.Typ.Underlying().(*types.Basic)
	from, ok2 := t.Args[0].Typ.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return true
	}
	switch fi, ti := from.Info(), to.Info(); {
	case ti&types.IsFloat != 0:
		return to.Kind() != types.Float32 || from.Kind() == types.Float32
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		fu, tu := fi&types.IsUnsigned != 0, ti&types.IsUnsigned != 0
		if fu == tu {
			return sizeOf(to) >= sizeOf(from)
		}
		return fu && sizeOf(to) > sizeOf(from)
	}
	return true
}

// mergeFacts adds the facts of another continuation of the same state.
func mergeFacts(s, o *State) bool {
	for k, v := range o.facts.b {
		if !s.facts.assume(k, v) {
			return false
		}
	}
	for k, v := range o.facts.iv {
		if w, ok := s.facts.iv[k]; ok {
			if v.lo > w.lo {
				w.lo = v.lo
			}
			if v.hi < w.hi {
				w.hi = v.hi
			}
			if w.lo > w.hi {
				return false
			}
			v = w
		}
		s.facts.iv[k] = v
	}
	for k, v := range o.facts.eqc {
		s.facts.eqc[k] = v
	}
	return true
}

// oneSection demands that an operation touches the state its lock guards in
// one critical section: an update split over two is lost when another goroutine
// comes between.
func (c *Ctx) oneSection(rule string, fn *ssa.Function) {
	if fn == nil || len(fn.Params) == 0 {
		return
	}
	recv := paramTerm(fn, 0)
	for _, s := range c.Run(fn, Opts{}, RunOpt{}) {
		secs := map[int]bool{}
		c.Count(rule, 1)
		for _, ev := range s.events {
			if ev.Kind != "Read" && ev.Kind != "Write" && ev.Kind != "MapRead" && ev.Kind != "MapWrite" {
				continue
			}
			if ev.Local || addrRoot(ev.Addr) != recv || !s.isMutable(ev.Addr) {
				continue
			}
			sec := -1
			for _, h := range ev.Held {
				if h.Mode == "W" && addrRoot(h.Lock) == recv {
					sec = h.Sec
				}
			}
			secs[sec] = true
			if len(secs) > 1 {
				c.FailPath(ev.Pos(), rule, s, "%s touches the state of its object in more than one critical section", fnName(fn))
				break
			}
		}
	}
}

const addTok = token.ADD
