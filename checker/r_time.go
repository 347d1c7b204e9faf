package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C18", spec: true, quick: []string{"default", "windows"}, deep: []string{"default", "windows", "darwin"},
		rule: "contract drivers: each recorded, returned or reported elapsed time is the difference of two clock readings, the first taken while the operation started and the second while it finished, and a running timer records one observation; recording happens only after winning a once-only claim (flag tested and raised in one critical section, successful swap, or sync.Once); monotime.Now is a fixed instant plus the monotonic time since that instant, no reading loses its monotonic part, and the arithmetic on performance counters stays within 64 bits (intervals)", run: runC18})
}

func runC18(c *Ctx) {
	c.monotime("clock")
	c.Floor("clock", 1)
	c.noOverflow("ticks")
	if c.P.Cfg.Name == "windows" {
		c.Floor("ticks", 1)
	}
	if c.P.Cfg.Name != "default" {
		return
	}
	c.SpecAll("elapsed", c.specOpts())
	c.Floor("elapsed", 30)
	c.stopOnce("once")
	c.Floor("once", 1)
}

// monotime: the library's clock.
func (c *Ctx) monotime(rule string) {
	fn := c.Func("monotime", "Now")
	if fn == nil {
		return
	}
	for _, s := range c.Run(fn, Opts{NoReads: true}, RunOpt{}) {
		if s.how != "return" {
			c.FailPath(fn.Pos(), rule, s, "monotime.Now does not return")
			continue
		}
		c.Count(rule, 1)
		r := s.ret[0]
		clock := func(t *Term) bool { return t.Op == "wallnow" }
		if clock(r) {
			continue
		}
		if r.Op != "pure" || r.Aux != "(time.Time).Add" {
			c.FailPath(fn.Pos(), rule, s, "monotime.Now is %v, neither a reading of the clock nor a fixed instant plus the time since", r)
			continue
		}
		base, d := r.Args[0], r.Args[1]
		if !c.fixedInstant(s, base) {
			c.FailPath(fn.Pos(), rule, s, "monotime.Now counts from %v, which is not an instant read once when the program started", base)
		}
		if c.P.Cfg.Name == "windows" {
			// the performance counter
			if anyTerm(d, func(t *Term) bool { return t.Op == "wallnow" }) {
				c.FailPath(fn.Pos(), rule, s, "monotime.Now depends on the wall clock")
			}
			continue
		}
		if d.Op != "tsub" || !clock(d.Args[0]) || d.Args[1] != base {
			c.FailPath(fn.Pos(), rule, s, "monotime.Now adds %v, which is not the time since that instant", d)
		}
	}
}

// fixedInstant: a variable that only package initialisation writes, with a
// reading of the clock that keeps its monotonic part.
func (c *Ctx) fixedInstant(s *State, t *Term) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	g := addrRoot(t)
	if g.Op != "global" {
		return false
	}
	if s.isMutable(t) {
		return false
	}
	ok := false
	for _, p := range c.P.SSAPkgs {
		init := p.Func("init")
		if init == nil || !strings.HasSuffix(p.Pkg.Path(), "/monotime") {
			continue
		}
		for _, st := range c.Run(init, Opts{Seq: true, NoReads: true}, RunOpt{Init: func(s *State) {
			if g := p.Var("init$guard"); g != nil {
				s.mem[globalTerm(g)] = mkBool(false)
			}
		}}) {
			v, has := st.mem[t]
			if !has || v.Op != "wallnow" {
				return false
			}
			ok = true
		}
	}
	return ok
}

// stopOnce: in whatever way concurrent stops interleave, one of them records.
func (c *Ctx) stopOnce(rule string) {
	fn := c.Method("", "RunningTimer", "Stop")
	if fn == nil {
		return
	}
	n := 0
	for _, s := range c.Run(fn, Opts{Model: c.specModels()}, RunOpt{}) {
		c.P.eachIter(s, func(st *State, evs []*Event) {
			for _, ev := range evs {
				if ev.Kind != "Insert" {
					continue
				}
				n++
				c.Count(rule, 1)
				if !claimed(st, ev) {
					c.FailPath(ev.Pos(), rule, st, "%s records an observation without having claimed it: concurrent stops can record it twice", fnName(ev.Fn))
				}
			}
		})
	}
	if n == 0 {
		c.Fail(fn.Pos(), rule, "stopping a timer records nothing")
	}
}

// claimed: before ev the path won a race for some cell: a flag found down and
// raised in one critical section, a successful compare-and-swap or swap of a
// flag, or the body of a sync.Once.
func claimed(st *State, at *Event) bool {
	down := func(v *Term) bool {
		if v == nil {
			return false
		}
		if isBoolType(v.Typ) {
			t, known := st.facts.truth(v)
			return known && !t
		}
		t, known := st.facts.truth(mkEq(v, mkInt(0), v.Typ))
		return known && t
	}
	up := func(v *Term) bool {
		if v == nil {
			return false
		}
		if v.isTrue() {
			return true
		}
		n, ok := v.intVal()
		return ok && n != 0
	}
	for _, ev := range st.events {
		if ev == at {
			// raising the flag may follow in the same section
			break
		}
		switch ev.Kind {
		case "AtomicCAS":
			if ev.OK && up(ev.Val) && ev.Old != nil && !ev.Local && (down(ev.Old) || ev.Old.isFalse()) {
				return true
			}
		case "AtomicSwap":
			if up(ev.Val) && down(evVal(ev)) {
				return true
			}
		case "OnceRun":
			return true
		}
	}
	secs := sections(at)
	if len(secs) == 0 {
		return false
	}
	for _, ev := range st.events {
		if ev.Kind != "Write" || !up(ev.Val) {
			continue
		}
		// the write in a section of the action
		in := false
		for k := range sections(ev) {
			if secs[k] {
				in = true
			}
		}
		if !in {
			continue
		}
		for _, r := range st.events {
			if r == ev {
				break
			}
			if r.Kind != "Read" || r.Addr != ev.Addr || !down(evVal(r)) {
				continue
			}
			for k := range sections(r) {
				if secs[k] {
					return true
				}
			}
		}
	}
	return false
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var _ *ssa.Function
