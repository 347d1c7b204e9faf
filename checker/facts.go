package main

import (
	"go/types"
	"math"
)

// Facts is the relational part of an abstract state: predicates known to hold
// on the partition, and intervals for linear integer forms.
type Facts struct {
	b   map[*Term]bool
	iv  map[*Term]ival
	eqc map[*Term]*Term // term known equal to a constant or nil
}

type ival struct{ lo, hi int64 }

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

func newFacts() *Facts {
	return &Facts{b: map[*Term]bool{}, iv: map[*Term]ival{}, eqc: map[*Term]*Term{}}
}

func (f *Facts) clone() *Facts {
	n := &Facts{b: make(map[*Term]bool, len(f.b)+4), iv: make(map[*Term]ival, len(f.iv)+2), eqc: make(map[*Term]*Term, len(f.eqc)+1)}
	for k, v := range f.b {
		n.b[k] = v
	}
	for k, v := range f.iv {
		n.iv[k] = v
	}
	for k, v := range f.eqc {
		n.eqc[k] = v
	}
	return n
}

func satAdd(a, b int64) int64 {
	if a == negInf || b == negInf {
		return negInf
	}
	if a == posInf || b == posInf {
		return posInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return posInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return negInf
	}
	return s
}

func satMul(k, a int64) int64 {
	if a == negInf || a == posInf {
		if k == 0 {
			return 0
		}
		if (k > 0) == (a > 0) {
			return posInf
		}
		return negInf
	}
	if a != 0 && k != 0 {
		p := k * a
		if p/a != k {
			if (k > 0) == (a > 0) {
				return posInf
			}
			return negInf
		}
		return p
	}
	return 0
}

// atomBounds gives what is known about an atom from its own shape.
func (f *Facts) atomBounds(a *Term, depth int) ival {
	r := ival{negInf, posInf}
	if b, ok := basicOf(a.Typ); ok {
		switch b.Kind() {
		case types.Uint8:
			r = ival{0, 255}
		case types.Uint16:
			r = ival{0, 65535}
		case types.Uint32:
			r = ival{0, math.MaxUint32}
		case types.Int32:
			r = ival{math.MinInt32, math.MaxInt32}
		case types.Int8:
			r = ival{-128, 127}
		case types.Int16:
			r = ival{-32768, 32767}
		case types.Uint, types.Uint64, types.Uintptr:
			r.lo = 0
		}
	}
	switch a.Op {
	case "len", "cap":
		r.lo = max(r.lo, 0)
	case "rem":
		if depth < 4 {
			d := f.bounds(a.Args[1], depth+1)
			if d.hi != posInf && d.hi > 0 {
				r.hi = min(r.hi, d.hi-1)
				if isUnsigned(a.Typ) {
					r.lo = max(r.lo, 0)
				} else {
					n := f.bounds(a.Args[0], depth+1)
					if n.lo >= 0 {
						r.lo = max(r.lo, 0)
					} else {
						r.lo = max(r.lo, -(d.hi - 1))
					}
				}
			}
		}
	case "and":
		for _, x := range a.Args {
			if n, ok := x.intVal(); ok && n >= 0 {
				r.lo = max(r.lo, 0)
				r.hi = min(r.hi, n)
			}
		}
	case "shr":
		if n, ok := a.Args[1].intVal(); ok && n > 0 && isUnsigned(a.Typ) {
			r.lo = max(r.lo, 0)
		}
	case "indexbyte":
		r.lo = max(r.lo, -1)
	}
	return r
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// bounds is the interval of an integer term.
func (f *Facts) bounds(t *Term, depth int) ival {
	if n, ok := t.intVal(); ok {
		return ival{n, n}
	}
	l := toLin(t)
	if len(l.t) == 0 {
		return ival{l.c, l.c}
	}
	// sum of atom intervals
	r := ival{l.c, l.c}
	for _, x := range l.t {
		ab := f.atomBounds(x.a, depth)
		if iv, ok := f.iv[x.a]; ok {
			ab.lo, ab.hi = max(ab.lo, iv.lo), min(ab.hi, iv.hi)
		}
		lo, hi := satMul(x.k, ab.lo), satMul(x.k, ab.hi)
		if x.k < 0 {
			lo, hi = hi, lo
		}
		r.lo, r.hi = satAdd(r.lo, lo), satAdd(r.hi, hi)
	}
	h, s, c := homogeneous(l)
	if iv, ok := f.iv[h]; ok {
		lo, hi := iv.lo, iv.hi
		if s < 0 {
			lo, hi = satMul(-1, iv.hi), satMul(-1, iv.lo)
		}
		r.lo, r.hi = max(r.lo, satAdd(lo, c)), min(r.hi, satAdd(hi, c))
	}
	// one step of transitivity through known difference facts
	if depth < 1 && len(l.t) <= 3 {
		for g, iv := range f.iv {
			if g.Lin == nil || g == h {
				continue
			}
			for _, sg := range []int64{1, -1} {
				rest := linAdd(l, g.Lin, -sg)
				if len(rest.t) > len(l.t) || len(rest.t) == len(l.t) && len(l.t) == 3 {
					continue
				}
				rb := f.bounds(fromLin(rest, types.Typ[types.Int]), depth+1)
				lo, hi := iv.lo, iv.hi
				if sg < 0 {
					lo, hi = satMul(-1, iv.hi), satMul(-1, iv.lo)
				}
				r.lo = max(r.lo, satAdd(rb.lo, lo))
				r.hi = min(r.hi, satAdd(rb.hi, hi))
			}
		}
	}
	return r
}

// truth decides a condition from the facts.
func (f *Facts) truth(c *Term) (val, known bool) {
	switch c.Op {
	case "const":
		return c.isTrue(), true
	case "not":
		v, k := f.truth(c.Args[0])
		return !v, k
	case "hle":
		k := c.Obj.(int64)
		b := f.bounds(c.Args[0], 0)
		if b.hi != posInf && b.hi <= k {
			return true, true
		}
		if b.lo != negInf && b.lo > k {
			return false, true
		}
		return false, false
	case "heq":
		k := c.Obj.(int64)
		if v, ok := f.b[c]; ok {
			return v, true
		}
		b := f.bounds(c.Args[0], 0)
		if b.lo == k && b.hi == k {
			return true, true
		}
		if b.lo != negInf && b.lo > k || b.hi != posInf && b.hi < k {
			return false, true
		}
		return false, false
	}
	if v, ok := f.b[c]; ok {
		return v, true
	}
	switch c.Op {
	case "eq":
		return f.eqTruth(c.Args[0], c.Args[1])
	case "flt":
		a, b := c.Args[0], c.Args[1]
		typ, _ := c.Obj.(types.Type)
		if a == b {
			return false, true
		}
		if v, ok := f.b[mkLt(b, a, typ)]; ok && v {
			return false, true
		}
		if v, ok := f.b[mkLe(b, a, typ)]; ok && v {
			return false, true
		} else if ok && f.number(a) && f.number(b) {
			return true, true
		}
	case "fle":
		a, b := c.Args[0], c.Args[1]
		typ, _ := c.Obj.(types.Type)
		if v, ok := f.b[mkLt(a, b, typ)]; ok && v {
			return true, true
		}
		if v, ok := f.b[mkLt(b, a, typ)]; ok && v {
			return false, true
		} else if ok && f.number(a) && f.number(b) {
			return true, true
		}
	case "pure":
		if c.Aux == "math.IsNaN" && len(c.Args) == 1 {
			// compared with success: a number
			for g, v := range f.b {
				if v && (g.Op == "flt" || g.Op == "fle") && (g.Args[0] == c.Args[0] || g.Args[1] == c.Args[0]) {
					return false, true
				}
			}
		}
	case "slt":
		a, b := c.Args[0], c.Args[1]
		typ, _ := c.Obj.(types.Type)
		if v, ok := f.b[mkLt(b, a, typ)]; ok && v {
			return false, true
		}
		if e, k := f.eqTruth(a, b); k {
			if e {
				return false, true
			}
			if v, ok := f.b[mkLt(b, a, typ)]; ok && !v {
				return true, true
			}
		}
	case "assertok":
		x := c.Args[0]
		if x.isNil() {
			return false, true
		}
		if e, ok := f.eqc[x]; ok && e.isNil() {
			return false, true
		}
		want, _ := c.Obj.(types.Type)
		if want != nil && !types.IsInterface(want) {
			for g, v := range f.b {
				if v && g.Op == "assertok" && g.Args[0] == x && g != c {
					if o, _ := g.Obj.(types.Type); o != nil && !types.IsInterface(o) {
						return false, true
					}
				}
			}
		}
	}
	return false, false
}

// number: not a NaN.
func (f *Facts) number(t *Term) bool {
	if t.Op == "const" || t.Op == "conv" && len(t.Args) == 1 && t.Args[0].Typ != nil && isIntType(t.Args[0].Typ) {
		return true
	}
	v, k := f.truth(isNaN(t))
	return k && !v
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "closure", "func", "fa", "ea", "iface", "map", "chan", "mkslice", "global", "struct", "list":
		return true
	case "append":
		return len(t.Args) > 1
	case "const":
		return true
	case "ext":
		return false
	}
	return false
}

// root identity of an address-like term for distinctness
func isFreshObj(t *Term) bool {
	return t.Op == "alloc" || t.Op == "map" || t.Op == "chan" || t.Op == "mkslice"
}

func (f *Facts) eqTruth(a, b *Term) (val, known bool) {
	if a == b {
		return true, true
	}
	if ea, ok := f.eqc[a]; ok {
		if eb, ok := f.eqc[b]; ok {
			if ea.Op == "const" && eb.Op == "const" || ea.isNil() && eb.isNil() {
				return ea == eb, true
			}
		}
		if b.Op == "const" || b.isNil() {
			if ea == b {
				return true, true
			}
			return false, true
		}
		if ea.isNil() && nonNil(b) {
			return false, true
		}
	}
	if eb, ok := f.eqc[b]; ok {
		if a.Op == "const" || a.isNil() {
			return eb == a, true
		}
		if eb.isNil() && nonNil(a) {
			return false, true
		}
	}
	if a.Op == "const" && b.Op == "const" {
		return false, true
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return false, true
	}
	if isFreshObj(a) && isFreshObj(b) {
		return false, true
	}
	if a.Op == "global" && (b.Op == "global" || b.Op == "alloc") || b.Op == "global" && a.Op == "alloc" {
		return false, true
	}
	if (a.Op == "func" || a.Op == "closure") && (b.Op == "func" || b.Op == "closure") && a.Obj != b.Obj {
		return false, true
	}
	if a.Op == "iface" && b.Op == "iface" {
		if !types.Identical(a.Typ, b.Typ) {
			return false, true
		}
		return f.eqTruth(a.Args[0], b.Args[0])
	}
	if v, ok := f.b[mkEq(a, b, types.Typ[types.UnsafePointer])]; ok {
		return v, true
	}
	if v, k := f.strEqTruth(a, b); k {
		return v, k
	}
	return f.sameClass(a, b)
}

// sameClass decides the equality of two strings from others that are known.
func (f *Facts) sameClass(a, b *Term) (val, known bool) {
	if !isStringType(a.Typ) && !isStringType(b.Typ) {
		return false, false
	}
	var eqs, neqs []*Term
	for g, v := range f.b {
		if g.Op == "eq" && (isStringType(g.Args[0].Typ) || isStringType(g.Args[1].Typ)) {
			if v {
				eqs = append(eqs, g)
			} else {
				neqs = append(neqs, g)
			}
		}
	}
	if len(eqs) == 0 {
		return false, false
	}
	class := func(x *Term) map[*Term]bool {
		m := map[*Term]bool{x: true}
		for n := 0; n != len(m); {
			n = len(m)
			for _, g := range eqs {
				if m[g.Args[0]] || m[g.Args[1]] {
					m[g.Args[0]], m[g.Args[1]] = true, true
				}
			}
		}
		return m
	}
	x := class(a)
	if x[b] {
		return true, true
	}
	y := class(b)
	for _, g := range neqs {
		if x[g.Args[0]] && y[g.Args[1]] || x[g.Args[1]] && y[g.Args[0]] {
			return false, true
		}
	}
	for p := range x {
		if p.Op == "const" {
			for q := range y {
				if q.Op == "const" && p != q {
					return false, true
				}
			}
		}
	}
	return false, false
}

// assume adds a fact; it reports false when the fact contradicts the state.
func (f *Facts) assume(c *Term, v bool) bool {
	for c.Op == "not" {
		c = c.Args[0]
		v = !v
	}
	if t, k := f.truth(c); k {
		if t != v {
			return false
		}
	}
	switch c.Op {
	case "const":
		return c.isTrue() == v
	case "hle":
		k := c.Obj.(int64)
		h := c.Args[0]
		iv, ok := f.iv[h]
		if !ok {
			iv = ival{negInf, posInf}
		}
		if v {
			iv.hi = min(iv.hi, k)
		} else {
			iv.lo = max(iv.lo, satAdd(k, 1))
		}
		f.iv[h] = iv
		return iv.lo <= iv.hi
	case "heq":
		k := c.Obj.(int64)
		h := c.Args[0]
		f.b[c] = v
		iv, ok := f.iv[h]
		if !ok {
			iv = ival{negInf, posInf}
		}
		if v {
			iv.lo, iv.hi = max(iv.lo, k), min(iv.hi, k)
		} else {
			// sharpen using everything known about h
			b := f.bounds(h, 0)
			if b.lo == k {
				iv.lo = max(iv.lo, k+1)
			}
			if b.hi == k {
				iv.hi = min(iv.hi, k-1)
			}
		}
		f.iv[h] = iv
		return iv.lo <= iv.hi
	case "eq":
		a, b := c.Args[0], c.Args[1]
		f.b[c] = v
		if v {
			if b.Op == "const" || b.isNil() {
				f.eqc[a] = b
			}
			if a.Op == "const" || a.isNil() {
				f.eqc[b] = a
			}
		}
		if !f.assumeStrEq(a, b, v) {
			return false
		}
		if v {
			// no difference of composed strings may be left without a cause
			for g, w := range f.b {
				if !w && g.Op == "eq" && (g.Args[0].Op == "cat" || g.Args[1].Op == "cat") {
					if t, k := f.strEqTruth(g.Args[0], g.Args[1]); k && t {
						return false
					}
				}
			}
		}
		return true
	}
	f.b[c] = v
	return true
}
