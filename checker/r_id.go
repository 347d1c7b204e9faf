package main

import (
	"go/types"
	"math/big"
)

func init() {
	register(&checkDef{id: "C22", rule: "dataflow over NewId, package initialisation and all entry points: an id is the value of one atomic addition (or winning compare-and-swap) with one bit dropped so that it cannot be negative, the added amount is a variable only initialisation writes, with bit 0 and some higher bit set on every path of initialisation, and nothing else ever changes the counter", run: runC22})
}

// ones is the set of bits known to be set in an unsigned value.
func ones(t *Term) *big.Int {
	if t.C != nil {
		if n, ok := constInt(t); ok {
			return n
		}
	}
	arg := func(i int) *big.Int { return ones(t.Args[i]) }
	switch t.Op {
	case "or":
		return new(big.Int).Or(arg(0), arg(1))
	case "and":
		return new(big.Int).And(arg(0), arg(1))
	case "shl":
		if n, ok := t.Args[1].intVal(); ok && n >= 0 && n < 64 {
			m := new(big.Int).Lsh(arg(0), uint(n))
			return m.And(m, new(big.Int).SetUint64(^uint64(0)))
		}
	case "shr":
		if n, ok := t.Args[1].intVal(); ok && n >= 0 && n < 64 {
			return new(big.Int).Rsh(arg(0), uint(n))
		}
	case "conv":
		if from, to := intBits(t.Args[0].Typ), intBits(t.Typ); from > 0 && to > 0 {
			m := arg(0)
			return m.And(m, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(min(from, to))), big.NewInt(1)))
		}
	}
	return new(big.Int)
}

func constInt(t *Term) (*big.Int, bool) {
	if n, ok := t.intVal(); ok {
		return new(big.Int).SetUint64(uint64(n)), true
	}
	n, ok := new(big.Int).SetString(t.C.ExactString(), 10)
	return n, ok
}

func intBits(t types.Type) int {
	if t == nil {
		return 0
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

// dropsOne: t is x without one bit, as a number that cannot be negative.
func dropsOne(t, x *Term) bool {
	for t.Op == "conv" && intBits(t.Typ) == 64 {
		t = t.Args[0]
	}
	switch t.Op {
	case "shr":
		n, ok := t.Args[1].intVal()
		return ok && n == 1 && t.Args[0] == x
	case "quo":
		n, ok := t.Args[1].intVal()
		return ok && n == 2 && t.Args[0] == x
	case "and":
		for i := 0; i < 2; i++ {
			if t.Args[i] == x && t.Args[1-i].C != nil {
				n, ok := constInt(t.Args[1-i])
				return ok && n.Cmp(new(big.Int).SetUint64(1<<63-1)) == 0
			}
		}
	}
	return false
}

func runC22(c *Ctx) {
	fn := c.Func("", "NewId")
	if fn == nil {
		return
	}
	counters := map[*Term]bool{}
	incs := map[*Term]bool{}
	// draw recognises the one step that takes an id from the counter
	draw := func(ev *Event) (val, inc *Term) {
		switch {
		case ev.Kind == "AtomicAdd":
			return ev.Res, ev.Val
		case ev.Kind == "Write" && ev.Old != nil && exclusive(ev.Held):
			if d := mkSub(ev.Val, ev.Old, ev.Val.Typ); d.Op == "load" && isIntType(ev.Val.Typ) {
				return ev.Val, d
			}
		case ev.Kind == "AtomicCAS" && ev.OK:
			if d := mkSub(ev.Val, ev.Old, ev.Val.Typ); d.Op == "load" {
				return ev.Val, d
			}
		}
		return nil, nil
	}
	for _, s := range c.Run(fn, Opts{}, RunOpt{}) {
		if s.how != "return" {
			c.FailPath(fn.Pos(), "id", s, "NewId does not return")
			continue
		}
		n := 0
		for _, ev := range s.events {
			v, inc := draw(ev)
			if v == nil {
				if (ev.Kind == "Write" || ev.Kind == "AtomicStore" || ev.Kind == "AtomicSwap") && !ev.Local {
					c.FailPath(ev.Pos(), "id", s, "NewId changes %s other than by one atomic step", classKey(ev.Addr))
				}
				continue
			}
			n++
			counters[ev.Addr] = true
			if inc.Op != "load" || inc.Args[0].Op != "global" {
				c.FailPath(ev.Pos(), "id", s, "the counter is advanced by %v, not by a variable chosen once", inc)
			} else {
				incs[inc.Args[0]] = true
			}
			c.Count("id", 1)
			if intBits(v.Typ) != 64 || !isUnsigned(v.Typ) || !dropsOne(s.ret[0], v) {
				c.FailPath(ev.Pos(), "id", s, "the id is %v, not the drawn value %v without one bit (and never negative)", s.ret[0], v)
			}
		}
		if n != 1 {
			c.FailPath(fn.Pos(), "id", s, "NewId draws %d values from the counter", n)
		}
	}
	c.Floor("id", 1)
	// nothing else changes the counter or the increment
	for _, f := range c.P.roots() {
		for _, s := range c.Run(f, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					if ev.Addr == nil {
						continue
					}
					r := addrRoot(ev.Addr)
					if !counters[r] && !incs[r] {
						continue
					}
					switch ev.Kind {
					case "Read", "AtomicLoad":
						continue
					}
					if ev.Kind == "AtomicCAS" && !ev.OK {
						continue
					}
					c.Count("counter", 1)
					v, inc := draw(ev)
					if incs[r] || v == nil || inc.Op != "load" || !incs[inc.Args[0]] {
						c.FailPath(ev.Pos(), "counter", s, "%s changes %s other than by drawing an id", fnName(ev.Fn), classKey(ev.Addr))
					}
				}
			})
		}
	}
	c.Floor("counter", 1)
	// the increment
	for g := range incs {
		for _, p := range c.P.SSAPkgs {
			init := p.Func("init")
			if init == nil || p.Pkg.Path() != modPath {
				continue
			}
			for _, s := range c.Run(init, Opts{Seq: true, NoReads: true}, RunOpt{Init: func(s *State) {
				if v := p.Var("init$guard"); v != nil {
					s.mem[globalTerm(v)] = mkBool(false)
				}
			}}) {
				if s.how != "return" {
					continue
				}
				c.Count("increment", 1)
				v, ok := s.mem[g]
				if !ok {
					v = mkInt(0)
				}
				m := ones(v)
				if m.Bit(0) == 0 || m.BitLen() < 2 {
					c.FailPath(init.Pos(), "increment", s, "initialisation may leave %s = %v, which is not known to be odd and above one; ids repeat", g, v)
				}
			}
		}
	}
	c.Floor("increment", 1)
}
