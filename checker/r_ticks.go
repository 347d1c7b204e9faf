package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// noOverflow: no 64-bit arithmetic of package monotime leaves its range, by an
// interval analysis of its functions. Anything divided by is a frequency, taken
// to be between 1 MHz and 1 GHz, any other number read from outside is a count
// of ticks below 2^53 (the elapsed count of 28 years at 10 MHz, and more than a
// clock has reason to count).
func (c *Ctx) noOverflow(rule string) {
	const pkg = modPath + "/monotime"
	in := func(fn *ssa.Function) bool {
		return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == pkg && fn.Blocks != nil
	}
	var fns []*ssa.Function
	for _, fn := range c.P.Funcs {
		if in(fn) && fn.Synthetic == "" {
			fns = append(fns, fn)
		}
	}
	type iv struct{ lo, hi *big.Int }
	i64 := func(n int64) *big.Int { return big.NewInt(n) }
	unknown := iv{i64(-1 << 53), i64(1 << 53)}
	freq := iv{i64(1e6), i64(1e9)}
	full := iv{i64(-1 << 63), i64(1<<63 - 1)}
	isNum := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	wide := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Int64 || b.Kind() == types.Int)
	}
	args := map[*ssa.Parameter][]ssa.Value{}
	rets := map[*ssa.Function][]ssa.Value{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case ssa.CallInstruction:
					if g := i.Common().StaticCallee(); in(g) {
						for k, a := range i.Common().Args {
							if k < len(g.Params) {
								args[g.Params[k]] = append(args[g.Params[k]], a)
							}
						}
					}
				case *ssa.Return:
					if len(i.Results) == 1 {
						rets[fn] = append(rets[fn], i.Results[0])
					}
				}
			}
		}
	}
	// what is divided by
	divides := map[ssa.Value]bool{}
	var root func(v ssa.Value, d int)
	root = func(v ssa.Value, d int) {
		if d > 20 || divides[v] {
			return
		}
		divides[v] = true
		switch v := v.(type) {
		case *ssa.Convert:
			root(v.X, d+1)
		case *ssa.ChangeType:
			root(v.X, d+1)
		case *ssa.UnOp:
			root(v.X, d+1)
		case *ssa.Phi:
			for _, x := range v.Edges {
				root(x, d+1)
			}
		case *ssa.Parameter:
			for _, x := range args[v] {
				root(x, d+1)
			}
		case *ssa.Extract:
			root(v.Tuple, d+1)
		case *ssa.BinOp:
			if k, ok := v.Y.(*ssa.Const); ok && k.Value != nil {
				root(v.X, d+1)
			} else if k, ok := v.X.(*ssa.Const); ok && k.Value != nil {
				root(v.Y, d+1)
			}
		}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if bo, ok := i.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) && isNum(bo.Type()) {
					if _, k := bo.Y.(*ssa.Const); !k {
						root(bo.Y, 0)
					}
				}
			}
		}
	}
	hull := func(a iv, bs ...*big.Int) iv {
		for _, x := range bs {
			if a.lo == nil || x.Cmp(a.lo) < 0 {
				a.lo = x
			}
			if a.hi == nil || x.Cmp(a.hi) > 0 {
				a.hi = x
			}
		}
		return a
	}
	busy := map[ssa.Value]bool{}
	memo := map[ssa.Value]iv{}
	var val func(v ssa.Value) iv
	eval := func(v ssa.Value) iv {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value != nil && isNum(v.Type()) {
				if n, ok := new(big.Int).SetString(v.Value.ExactString(), 10); ok {
					return iv{n, n}
				}
			}
		case *ssa.Convert:
			if isNum(v.X.Type()) && isNum(v.Type()) {
				return val(v.X)
			}
		case *ssa.ChangeType:
			return val(v.X)
		case *ssa.Phi:
			var r iv
			for _, x := range v.Edges {
				a := val(x)
				r = hull(r, a.lo, a.hi)
			}
			return r
		case *ssa.Parameter:
			var r iv
			for _, x := range args[v] {
				a := val(x)
				r = hull(r, a.lo, a.hi)
			}
			if r.lo != nil {
				return r
			}
		case *ssa.Call:
			if g := v.Call.StaticCallee(); in(g) {
				var r iv
				for _, x := range rets[g] {
					a := val(x)
					r = hull(r, a.lo, a.hi)
				}
				if r.lo != nil {
					return r
				}
			}
		case *ssa.BinOp:
			if !isNum(v.Type()) {
				break
			}
			a, b := val(v.X), val(v.Y)
			var r iv
			switch v.Op {
			case token.ADD:
				r = iv{new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)}
			case token.SUB:
				r = iv{new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)}
				if fromOutside(v.X) && fromOutside(v.Y) {
					// a difference of two counts is a count
					r = unknown
				}
			case token.MUL:
				for _, x := range []*big.Int{a.lo, a.hi} {
					for _, y := range []*big.Int{b.lo, b.hi} {
						r = hull(r, new(big.Int).Mul(x, y))
					}
				}
			case token.QUO:
				if b.lo.Sign() <= 0 {
					return a
				}
				for _, x := range []*big.Int{a.lo, a.hi} {
					for _, y := range []*big.Int{b.lo, b.hi} {
						r = hull(r, new(big.Int).Quo(x, y))
					}
				}
				return r
			case token.REM:
				if b.lo.Sign() <= 0 {
					return a
				}
				m := new(big.Int).Sub(b.hi, i64(1))
				r = iv{new(big.Int).Neg(m), m}
				if a.lo.Sign() >= 0 {
					r.lo = i64(0)
				}
				return r
			default:
				return unknown
			}
			if wide(v.Type()) {
				c.Count(rule, 1)
				if r.lo.Cmp(full.lo) < 0 || r.hi.Cmp(full.hi) > 0 {
					c.Fail(v.Pos(), rule, "%s can leave the range of 64 bits: the operands are between %v and %v, and between %v and %v", v.Op, a.lo, a.hi, b.lo, b.hi)
					return unknown
				}
			}
			return r
		}
		return unknown
	}
	val = func(v ssa.Value) iv {
		if r, ok := memo[v]; ok {
			return r
		}
		if busy[v] {
			return unknown
		}
		busy[v] = true
		r := eval(v)
		delete(busy, v)
		if _, isC := v.(*ssa.Const); divides[v] && !isC {
			if _, bin := v.(*ssa.BinOp); !bin {
				r = freq
			}
		}
		memo[v] = r
		return r
	}
	for _, fn := range fns {
		c.funcs[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(*ssa.BinOp); ok && isNum(v.Type()) {
					val(v)
				}
			}
		}
	}
}

// fromOutside: a reading or a remembered one.
func fromOutside(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call, *ssa.Parameter, *ssa.Extract:
		return true
	case *ssa.UnOp:
		return v.Op == token.MUL
	case *ssa.Convert:
		return fromOutside(v.X)
	case *ssa.ChangeType:
		return fromOutside(v.X)
	}
	return false
}
