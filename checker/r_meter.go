package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C12", rule: "object-history fixpoint of Meter: the reported total as a linear form over the meter's memory must change by exactly the marked amount, be unchanged by every function the background goroutine applies to a meter, and be replaced by Reset; the rate is the marks since the reported window start over the monotonic duration from it, with a divisor shown positive; every meter constructor adds its meter to the list the single background goroutine walks completely", run: runC12})
}

// calleesFrom lists repository functions reachable by static calls.
func (c *Ctx) calleesFrom(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !c.P.inRepo(f) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					walk(ci.Common().StaticCallee())
					if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
						walk(mc.Fn.(*ssa.Function))
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(fn)
	return out
}

func isPtrTo(t types.Type, named types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), named)
}

func runC12(c *Ctx) {
	c.Assume("64-bit totals do not overflow")
	typ := c.P.Type("", "Meter")
	newM := c.Func("", "NewMeter")
	mark, mark64, reset, setTotal := c.Method("", "Meter", "Mark"), c.Method("", "Meter", "Mark64"), c.Method("", "Meter", "Reset"), c.Method("", "Meter", "SetTotal")
	rate, total, stats := c.Method("", "Meter", "Rate"), c.Method("", "Meter", "Total"), c.Method("", "Meter", "Stats")
	for _, f := range []*ssa.Function{newM, mark, mark64, reset, setTotal, rate, total, stats} {
		if f == nil {
			return
		}
	}
	// the background goroutine
	var gos []*Event
	var body *ssa.Function
	var listAddr *Term
	conc := c.Run(newM, Opts{}, RunOpt{})
	// what keeps the goroutine from being started twice
	guards := map[string]map[*Term]bool{"flag": {}, "cas": {}, "once": {}, "list": {}}
	var plain []*State
	for _, s := range conc {
		start := false
		for _, ev := range s.events {
			if ev.Kind == "Go" {
				start = true
				for kind, addrs := range startGuards(s, ev) {
					for _, a := range addrs {
						guards[kind][a] = true
					}
				}
			}
		}
		if !start && s.how == "return" {
			plain = append(plain, s)
		}
	}
	for _, s := range plain {
		// the meter is rolled only if the goroutine has been started before
		running := false
		for _, ev := range s.events {
			switch ev.Kind {
			case "Read":
				if v, k := s.facts.truth(ev.Val); guards["flag"][ev.Addr] && k && v {
					running = true
				}
			case "AtomicCAS":
				running = running || guards["cas"][ev.Addr] && !ev.OK
			case "OnceSkip":
				running = running || guards["once"][ev.Addr]
			case "Write":
				if guards["list"][ev.Addr] && ev.Old != nil {
					if v, k := s.facts.truth(mkEqInt(mkLen(ev.Old), mkInt(0))); k && !v {
						running = true
					}
				}
			}
		}
		c.Count("ticker", 1)
		if !running {
			c.FailPath(newM.Pos(), "ticker", s, "a meter is constructed on a path where the background goroutine is neither started nor known to be running")
		}
	}
	for _, s := range conc {
		if s.how != "return" {
			c.FailPath(newM.Pos(), "ticker", s, "NewMeter does not return normally")
			continue
		}
		c.Count("ticker", 1)
		obj := s.ret[0]
		registered := false
		nGo := 0
		for _, ev := range s.events {
			switch ev.Kind {
			case "Write":
				if !ev.Local && ev.Val != nil && ev.Val.Op == "append" && len(ev.Val.Args) >= 2 {
					for _, a := range ev.Val.Args[1:] {
						if a == obj {
							registered = true
							listAddr = ev.Addr
							if ev.Val.Args[0] != ev.Old {
								c.FailPath(ev.Pos(), "ticker", s, "registering a meter drops meters registered meanwhile: the list becomes %v", ev.Val)
							}
						}
					}
				}
			case "MapWrite":
				for _, a := range append(append([]*Term{}, ev.Args...), ev.Val) {
					if a == obj {
						registered = true
						listAddr = ev.Addr
					}
				}
			case "Go":
				nGo++
				gos = append(gos, ev)
				if ev.Callee != nil {
					body, _ = ev.Callee.Obj.(*ssa.Function)
				}
				ok := len(startGuards(s, ev)) > 0
				if !ok {
					c.FailPath(ev.Pos(), "ticker", s, "the background goroutine may be started more than once")
				}
			}
		}
		if !registered {
			c.FailPath(newM.Pos(), "ticker", s, "a new meter is not added to the list the background goroutine rolls")
		}
	}
	if body == nil {
		c.FailAt(c.P.Pos(newM.Pos()), "ticker", "", "no meter constructor starts the background goroutine")
		return
	}
	c.meterWalk(body, listAddr, typ)
	var rollers []*ssa.Function
	for _, f := range c.calleesFrom(body) {
		if len(f.Params) > 0 && isPtrTo(f.Params[0].Type(), typ) && f.Signature.Recv() != nil {
			rollers = append(rollers, f)
		}
	}
	if len(rollers) == 0 {
		c.FailAt(c.P.Pos(body.Pos()), "roll", "", "the background goroutine applies no method to its meters")
		return
	}
	// only the outermost: a method applied by the goroutine itself
	rollers = outermost(c, body, rollers)

	o := Opts{Seq: true, NoReads: true}
	inits := c.construct("total", o, newM)
	with := func(in []*State, obj *Term) []*State {
		for _, s := range in {
			setObj(s, obj)
		}
		return in
	}
	for _, s := range inits {
		setObj(s, s.ret[0])
	}
	i64 := types.Typ[types.Int64]
	rollArgs := func(f *ssa.Function, obj *Term, tag string) []*Term {
		a := []*Term{obj}
		for i := 1; i < len(f.Params); i++ {
			a = append(a, argTag(f, i, tag))
		}
		return a
	}
	tot := func(s *State, obj *Term) []obs {
		var out []obs
		for _, r := range c.callR("total", s, total, obj) {
			out = append(out, obs{r, map[string]*Term{"total": unwrap(r.ret[0])}})
		}
		return out
	}
	g := c.history(inits, func(s *State) (out []*State) {
		obj := objOf(s)
		out = append(out, with(c.callR("total", s, mark, obj, argTag(mark, 1, "'")), obj)...)
		out = append(out, with(c.callR("total", s, mark64, obj, argTag(mark64, 1, "'")), obj)...)
		out = append(out, with(c.callR("total", s, reset, obj, argTag(reset, 1, "'")), obj)...)
		out = append(out, with(c.callR("total", s, setTotal, obj, argTag(setTotal, 1, "'")), obj)...)
		for _, f := range rollers {
			out = append(out, with(c.callR("total", s, f, rollArgs(f, obj, "'")...), obj)...)
		}
		return
	})
	if g == nil {
		return
	}
	obj := objOf(g)
	transition := func(from *State, fn *ssa.Function, args []*Term, want func(before *Term) *Term, what string) {
		for _, b := range tot(from, obj) {
			for _, r := range c.callR("total", from, fn, args...) {
				if !mergeFacts(r, b.s) {
					continue
				}
				for _, a := range tot(r, obj) {
					c.Count("total", 1)
					if w := want(b.v["total"]); !eqv(a.s.facts, a.v["total"], w) {
						d := mkSub(a.v["total"], w, i64)
						c.FailPath(fn.Pos(), "total", a.s, "%s: the total is off by %v", what, d)
					}
				}
			}
		}
	}
	for _, s := range append([]*State{g}, inits...) {
		m, m64 := argOf(mark, 1), argOf(mark64, 1)
		transition(s, mark, []*Term{obj, m}, func(b *Term) *Term { return mkAdd(b, m, i64) }, "after Mark")
		transition(s, mark64, []*Term{obj, m64}, func(b *Term) *Term { return mkAdd(b, m64, i64) }, "after Mark64")
		n := argOf(reset, 1)
		transition(s, reset, []*Term{obj, n}, func(b *Term) *Term { return n }, "after Reset")
		for _, f := range rollers {
			transition(s, f, rollArgs(f, obj, ""), func(b *Term) *Term { return b }, "after rolling with "+fnName(f))
		}
		for _, f := range []*ssa.Function{rate, total} {
			transition(s, f, []*Term{obj}, func(b *Term) *Term { return b }, "after reading "+fnName(f))
		}
	}
	// SetTotal replaces what was counted before the window
	st := argOf(setTotal, 1)
	m := argTag(mark64, 1, "0")
	for _, s := range inits {
		for _, s1 := range c.callR("total", s, mark64, obj, m) {
			transition(s1, setTotal, []*Term{obj, st}, func(b *Term) *Term { return mkAdd(st, m, i64) }, "after Mark64 and SetTotal")
		}
		transition(s, setTotal, []*Term{obj, st}, func(b *Term) *Term { return st }, "after SetTotal")
	}
	for _, s := range inits {
		for _, a := range tot(s, obj) {
			if !eqv(a.s.facts, a.v["total"], mkInt(0)) {
				c.FailPath(newM.Pos(), "total", a.s, "a new meter has the total %v", a.v["total"])
			}
		}
	}
	// a rolled window: marks m0..mk between rollings at t1..tk
	for _, f := range rollers {
		c12Window(c, inits[0], f, mark64, rate, reset)
	}
	// Stats emits what the accessors say
	for _, a := range c.statsOf("total", g, obj, stats) {
		c.Count("total", 1)
		for _, b := range tot(g, obj) {
			if len(a.v) != 2 || !eqv(a.s.facts, unwrap(a.v["total"]), b.v["total"]) {
				c.FailPath(stats.Pos(), "total", a.s, "Stats emits %v", a.v)
			}
		}
	}
	c12Diff(c, inits)
	for _, f := range append([]*ssa.Function{mark, mark64, reset, setTotal, rate, total, stats}, rollers...) {
		c.oneSection("one-section", f)
	}
	c.Floor("total", 15)
	c.Floor("rate", 20)
	c.Floor("diff", 1)
	c.Floor("ticker", 2)
	c.Floor("walk", 1)
}

// startGuards lists what shows that the goroutine is started only once on a
// path: a flag that was false is set under a lock, a compare-and-swap succeeded,
// it is the body of a once, or the list was empty when the meter was added.
func startGuards(s *State, start *Event) map[string][]*Term {
	g := map[string][]*Term{}
	for _, h := range start.Held {
		if h.Mode == "oncerun" {
			g["once"] = append(g["once"], h.Lock)
		}
	}
	for _, w := range s.events {
		switch {
		case w.Kind == "AtomicCAS" && w.OK && !w.Local:
			x, ok1 := w.Old.intVal()
			y, ok2 := w.Val.intVal()
			if ok1 && ok2 && x != y {
				g["cas"] = append(g["cas"], w.Addr)
			}
		case w.Kind == "Write" && !w.Local && len(w.Held) > 0 && w.Old != nil && w.Val != nil:
			if w.Val.isTrue() && w.Old.Op == "load" {
				if v, k := s.facts.truth(w.Old); k && !v {
					g["flag"] = append(g["flag"], w.Addr)
				}
			}
			if w.Val.Op == "append" && len(w.Val.Args) >= 2 && w.Val.Args[0] == w.Old {
				if v, k := s.facts.truth(mkEqInt(mkLen(w.Old), mkInt(0))); k && v {
					g["list"] = append(g["list"], w.Addr)
				}
			}
		}
	}
	return g
}

func sameSec(a, b *Event) bool {
	for _, h := range a.Held {
		for _, k := range b.Held {
			if h.Sec == k.Sec && h.Lock == k.Lock {
				return true
			}
		}
	}
	return false
}

func outermost(c *Ctx, body *ssa.Function, fs []*ssa.Function) []*ssa.Function {
	in := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, g := range c.calleesFrom(f) {
			if g != f {
				in[g] = true
			}
		}
	}
	var out []*ssa.Function
	for _, f := range fs {
		if !in[f] {
			out = append(out, f)
		}
	}
	return out
}

// rateParts splits a rate into count and window start and end.
func rateParts(r *Term) (cnt, now, start *Term, ok bool) {
	if r.Op != "fquo" {
		return
	}
	cnt = unwrap(r.Args[0])
	d := r.Args[1]
	if d.Op != "pure" || !strings.HasPrefix(d.Aux, "(time.Duration).Seconds") {
		return
	}
	d = d.Args[0]
	if d.Op != "tsub" {
		return
	}
	return cnt, d.Args[0], d.Args[1], true
}

func c12Window(c *Ctx, init *State, roll, mark, rate, reset *ssa.Function) {
	obj := objOf(init)
	i64 := types.Typ[types.Int64]
	type mk1 struct{ amount, after *Term } // mark made after that time stamp
	// the start of the first window
	check := func(s *State, marks []mk1, stamps []*Term, what string) {
		for _, r := range c.callR("rate", s, rate, obj) {
			c.Count("rate", 1)
			for _, ev := range r.events {
				if ev.Kind == "FDiv" && !ev.OK {
					c.FailPath(ev.Pos(), "rate", r, "the rate divides by %v, which may be zero", ev.Args[1])
				}
			}
			cnt, now, start, ok := rateParts(r.ret[0])
			if !ok {
				if eqv(r.facts, unwrap(r.ret[0]), mkInt(0)) && hasFalsePositive(r) {
					continue // no time has passed
				}
				c.FailPath(rate.Pos(), "rate", r, "%s: the rate is %v, not a count over the duration of the window in seconds", what, r.ret[0])
				continue
			}
			clock := false
			for _, ev := range r.events {
				if ev.Kind == "Clock" && ev.Res == now {
					clock = true
				}
			}
			if !clock {
				c.FailPath(rate.Pos(), "rate", r, "%s: the window does not end now (%v)", what, now)
			}
			i := -1
			for j, t := range stamps {
				if t == start {
					i = j
					break
				}
			}
			if i < 0 {
				c.FailPath(rate.Pos(), "rate", r, "%s: the window starts at %v, which is not when the meter was made, reset or rolled", what, start)
				continue
			}
			want := mkInt(0)
			in := false
			for _, t := range stamps[i:] {
				for _, m := range marks {
					if m.after == t {
						want = mkAdd(want, m.amount, i64)
						in = true
					}
				}
			}
			_ = in
			if !eqv(r.facts, cnt, want) {
				c.FailPath(rate.Pos(), "rate", r, "%s: the rate over the window since %v counts %v, but %v was marked since", what, start, cnt, want)
			}
		}
	}
	// time stamps of the constructor
	var t0 *Term
	for _, ev := range init.events {
		if ev.Kind == "Clock" {
			t0 = ev.Res
		}
	}
	if t0 == nil {
		c.FailAt(c.P.Pos(rate.Pos()), "rate", "", "the meter constructor takes no time stamp")
		return
	}
	stamps := []*Term{t0}
	var marks []mk1
	cur := init
	check(cur, marks, stamps, "a new meter")
	for n := 0; n < 52; n++ {
		m := mk("param", "m"+string(rune('A'+n%26))+string(rune('a'+n/26))+"!", i64, nil)
		var next *State
		for _, r := range c.callR("rate", cur, mark, obj, m) {
			r.facts.assume(mkLe(mkInt(1), m, i64), true)
			next = r
		}
		if next == nil {
			return
		}
		cur = next
		marks = append(marks, mk1{m, stamps[len(stamps)-1]})
		check(cur, marks, stamps, "after marking")
		now := argTag(roll, len(roll.Params)-1, "@"+string(rune('A'+n%26))+string(rune('a'+n/26)))
		args := []*Term{obj}
		for i := 1; i < len(roll.Params); i++ {
			args = append(args, now)
		}
		rs := c.callR("rate", cur, roll, args...)
		if len(rs) != 1 {
			// decide which path is the one taken after a positive mark
			c.FailAt(c.P.Pos(roll.Pos()), "rate", "", "whether a meter with marks is rolled is not decided by its state (%d cases)", len(rs))
			return
		}
		cur = rs[0]
		if len(roll.Params) == 1 {
			for _, ev := range cur.events {
				if ev.Kind == "Clock" {
					now = ev.Res
				}
			}
		}
		stamps = append(stamps, now)
		check(cur, marks, stamps, "after rolling")
	}
	// reset starts a new window
	for _, r := range c.callR("rate", cur, reset, obj, argOf(reset, 1)) {
		var ts []*Term
		for _, ev := range r.events {
			if ev.Kind == "Clock" {
				ts = append(ts, ev.Res)
			}
		}
		if len(ts) == 0 {
			c.FailPath(reset.Pos(), "rate", r, "Reset takes no time stamp")
			continue
		}
		check(r, nil, ts, "after Reset")
	}
}

// hasFalsePositive: the path learned that the duration is not positive.
func hasFalsePositive(r *State) bool {
	for k, v := range r.facts.b {
		if (k.Op == "flt" || k.Op == "fle") && anyTerm(k, func(t *Term) bool { return t.Op == "tsub" }) {
			_ = v
			return true
		}
	}
	for k := range r.facts.iv {
		if anyTerm(k, func(t *Term) bool { return t.Op == "tsub" }) {
			return true
		}
	}
	for k := range r.facts.eqc {
		if anyTerm(k, func(t *Term) bool { return t.Op == "tsub" }) {
			return true
		}
	}
	return false
}

// meterWalk checks that the goroutine walks the whole registered list.
func (c *Ctx) meterWalk(body *ssa.Function, listAddr *Term, typ types.Type) {
	if listAddr == nil {
		return
	}
	found := false
	for _, s := range c.Run(body, Opts{NoInline: func(fn *ssa.Function) bool {
		return fn.Signature.Recv() != nil && len(fn.Params) > 0 && isPtrTo(fn.Params[0].Type(), typ)
	}}, RunOpt{}) {
		if s.how != "forever" {
			c.FailPath(body.Pos(), "walk", s, "the background goroutine can end (%s)", s.how)
		}
		var loops []*Event
		c.P.eachEvents(s, func(evs []*Event) {
			for _, ev := range evs {
				if ev.Kind == "LoopEnter" {
					loops = append(loops, ev)
				}
			}
		})
		for _, le := range loops {
			li := le.Loop
			// an inner loop whose every iteration applies a method to the element of the list at its index
			applied := len(li.Iters) > 0
			var list *Term
			for _, it := range li.Iters {
				ok := false
				for _, ev := range it.events[min(li.Base, len(it.events)):] {
					if ev.Kind != "Rec" || len(ev.Args) == 0 {
						continue
					}
					e := ev.Args[0]
					if e.Op == "load" && e.Args[0].Op == "ea" {
						list = e.Args[0].Args[0]
						ok = true
					} else if li.Elem != nil && e == li.Elem || li.Key != nil && e == li.Key {
						list = li.Range
						ok = true
					}
				}
				applied = applied && ok
			}
			if !applied || list == nil {
				continue
			}
			if sameClass(list, listAddr) {
				c.Count("walk", 1)
				found = true
				if msg := c.fullWalk(li, list); msg != "" {
					c.FailPath(posOfBlock(li.Header), "walk", s, "the background goroutine does not roll every registered meter: %s", msg)
				}
			}
		}
	}
	if !found {
		c.FailAt(c.P.Pos(body.Pos()), "walk", "", "the background goroutine does not roll every registered meter: no loop over the registered meters applies a method to each")
	}
}

// sameClass: the list value was loaded from memory of the same class as addr.
func sameClass(list, addr *Term) bool {
	for list != nil {
		switch list.Op {
		case "load":
			return classKey(list.Args[0]) == classKey(addr)
		case "slice", "appendall":
			for _, a := range list.Args {
				if a.Op == "load" || a.Op == "slice" {
					if sameClass(a, addr) {
						return true
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// fullWalk checks that a counting loop visits every index of a container
// exactly once, or that it is a range over a map.
func (c *Ctx) fullWalk(li *LoopInfo, list *Term) string {
	if len(li.Leaves) > 0 {
		for _, l := range li.Leaves {
			_ = l
		}
	}
	if li.Range != nil {
		return ""
	}
	n := mkLen(list)
	for v, init := range li.Init {
		if !isIntType(v.Typ) || li.Where[v] != nil {
			continue
		}
		step := int64(0)
		ok := true
		for _, b := range li.Back[v] {
			d, isC := mkSub(b, v, types.Typ[types.Int]).intVal()
			if !isC || step != 0 && d != step {
				ok = false
				break
			}
			step = d
		}
		if !ok || step == 0 {
			continue
		}
		i0, isC := init.intVal()
		switch {
		case step == 1 && isC && (i0 == 0 || i0 == -1):
			// index used: v (0-based) or v+1 (range lowering)
			want := mkLt(v, n, types.Typ[types.Int])
			if i0 == -1 {
				want = mkLt(mkAdd(v, mkInt(1), types.Typ[types.Int]), n, types.Typ[types.Int])
			}
			if li.Cond == nil || li.Cond == want || mkNot(li.Cond) == want {
				return ""
			}
			return "it runs while " + li.Cond.String()
		case step == -1:
			if init == mkSub(n, mkInt(1), types.Typ[types.Int]) {
				return ""
			}
		}
		return "it starts at " + init.String()
	}
	return "the iteration is not recognised as a walk over all elements"
}

func c12Diff(c *Ctx, inits []*State) {
	nd := c.Func("", "NewDiffMeter")
	newM := c.Func("", "NewMeter")
	mark := c.Method("", "Meter", "Mark64")
	stats := c.Method("", "DiffMeter", "Stats")
	if nd == nil || newM == nil || mark == nil || stats == nil {
		return
	}
	i64 := types.Typ[types.Int64]
	a, b := argTag(mark, 1, "1"), argTag(mark, 1, "2")
	s0 := inits[0]
	m1 := objOf(s0)
	for _, s1 := range c.callR("diff", s0, mark, m1, a) {
		for _, s2 := range c.callR("diff", s1, newM, argTag(newM, 0, "2")) {
			m2 := s2.ret[0]
			for _, s3 := range c.callR("diff", s2, mark, m2, b) {
				for _, s4 := range c.callR("diff", s3, nd, argOf(nd, 0), m1, m2) {
					for _, r := range c.statsOf("diff", s4, s4.ret[0], stats) {
						c.Count("diff", 1)
						if len(r.v) != 2 || r.v["rate"] == nil || !eqv(r.s.facts, unwrap(r.v["total"]), mkSub(a, b, i64)) {
							c.FailPath(stats.Pos(), "diff", r.s, "a DiffMeter of a meter marked %v and one marked %v emits %v", a, b, r.v)
							continue
						}
						var nows []*Term
						anyTerm(r.v["rate"], func(t *Term) bool {
							if t.Op == "tsub" {
								nows = append(nows, t.Args[0])
							}
							return false
						})
						for _, n := range nows {
							if n != nows[0] {
								c.FailPath(stats.Pos(), "diff", r.s, "the rates of the two meters are taken at different times")
							}
						}
						// the difference, in this order
						x := r.v["rate"]
						ok := x.Op == "fsub" && len(x.Args) == 2
						if ok {
							for i, want := range []*Term{a, b} {
								if cnt, _, _, isRate := rateParts(x.Args[i]); isRate && !eqv(r.s.facts, cnt, want) {
									ok = false
								}
							}
						}
						if !ok && (x.Op == "fquo" || x.Op == "fneg") {
							cnt, _, _, isRate := rateParts(x)
							ok = isRate && eqv(r.s.facts, cnt, a)
						}
						if !ok && !eqv(r.s.facts, unwrap(x), mkInt(0)) {
							c.FailPath(stats.Pos(), "diff", r.s, "the rate of a DiffMeter is %v", x)
						}
					}
				}
			}
		}
	}
}
