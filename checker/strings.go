package main

import (
	"go/types"
	"sort"
	"strconv"
)

// Equality of composed strings. A string is a sequence of parts; some of them
// say where they end: a text preceded by its decimal length and a separator
// that is no digit, and a quoted text. Two such sequences are equal exactly
// when they are equal part by part.

type strTok struct {
	kind string // "c" constant, "n" length-prefixed, "q" quoted, "x" anything
	c    string // constant, or separator of "n"
	x    *Term
}

func strToks(t *Term) []strTok {
	args := []*Term{t}
	if t.Op == "cat" {
		args = t.Args
	}
	var out []strTok
	for i := 0; i < len(args); i++ {
		a := args[i]
		if s, ok := a.strVal(); ok {
			if s != "" {
				out = append(out, strTok{kind: "c", c: s})
			}
			continue
		}
		if a.Op == "dec" && i+2 < len(args) {
			if sep, ok := args[i+1].strVal(); ok && sep != "" && (sep[0] < '0' || sep[0] > '9') && mkLen(args[i+2]) == a.Args[0] {
				out = append(out, strTok{kind: "n", c: sep, x: args[i+2]})
				i += 2
				continue
			}
		}
		if a.Op == "pure" && a.Aux == "strconv.Quote" && len(a.Args) == 1 {
			out = append(out, strTok{kind: "q", x: a.Args[0]})
			continue
		}
		if a.Op == "fmtverb" && a.Aux == "q" && a.Args[0].Op == "iface" && isStringType(a.Args[0].Typ) {
			out = append(out, strTok{kind: "q", x: a.Args[0].Args[0]})
			continue
		}
		out = append(out, strTok{kind: "x", x: a})
	}
	return out
}

// strEq compares two strings part by part. When decided, they are equal
// exactly when all the pairs are, or never (never true).
func strEq(a, b *Term) (pairs [][2]*Term, never, decided bool) {
	x, y := strToks(a), strToks(b)
	for {
		if len(x) == 0 && len(y) == 0 {
			return pairs, false, true
		}
		if len(x) == 0 || len(y) == 0 {
			r := append(append([]strTok(nil), x...), y...)
			for _, t := range r {
				if t.kind != "x" {
					return nil, true, true
				}
			}
			return nil, false, false
		}
		p, q := x[0], y[0]
		if p.kind > q.kind {
			p, q = q, p
			x, y = y, x
		}
		switch {
		case p.kind == "c" && q.kind == "c":
			n := 0
			for n < len(p.c) && n < len(q.c) && p.c[n] == q.c[n] {
				n++
			}
			if n < len(p.c) && n < len(q.c) {
				return nil, true, true
			}
			x, y = chopTok(x, n), chopTok(y, n)
		case p.kind == q.kind && p.kind != "x":
			if p.kind == "n" && p.c != q.c {
				return nil, false, false
			}
			pairs = append(pairs, [2]*Term{p.x, q.x})
			x, y = x[1:], y[1:]
		case p.kind == "c" && q.kind == "n":
			i := 0
			for i < len(p.c) && p.c[i] >= '0' && p.c[i] <= '9' {
				i++
			}
			if i == 0 {
				return nil, true, true
			}
			n, err := strconv.Atoi(p.c[:i])
			end := i + len(q.c) + n
			if err != nil || end > len(p.c) || p.c[i:i+len(q.c)] != q.c {
				return nil, false, false
			}
			if strconv.Itoa(n) != p.c[:i] {
				return nil, true, true
			}
			pairs = append(pairs, [2]*Term{mkStr(p.c[i+len(q.c) : end]), q.x})
			x, y = chopTok(x, end), y[1:]
		case p.kind == "c" && q.kind == "q":
			if p.c[0] != '"' && p.c[0] != '`' {
				return nil, true, true
			}
			return nil, false, false
		case p.kind == "x" && q.kind == "x" && (p.x == q.x || len(x) == 1 && len(y) == 1):
			if p.x != q.x {
				if len(pairs) == 0 && len(strToks(a)) == 1 && len(strToks(b)) == 1 {
					return nil, false, false // nothing gained
				}
				pairs = append(pairs, [2]*Term{p.x, q.x})
			}
			x, y = x[1:], y[1:]
		case p.kind == "c" && q.kind == "x" && len(x) == 1 && len(y) == 1:
			if len(pairs) == 0 && len(strToks(a)) == 1 && len(strToks(b)) == 1 {
				return nil, false, false
			}
			pairs = append(pairs, [2]*Term{mkStr(p.c), q.x})
			x, y = nil, nil
		default:
			return nil, false, false
		}
	}
}

func chopTok(x []strTok, n int) []strTok {
	if n == len(x[0].c) {
		return x[1:]
	}
	out := append([]strTok(nil), x...)
	out[0].c = out[0].c[n:]
	return out
}

// mkEqStr simplifies an equality of strings; nil when nothing is gained.
func mkEqStr(a, b *Term) *Term {
	if a.Op != "cat" && b.Op != "cat" && a.Op != "pure" && b.Op != "pure" {
		return nil
	}
	pairs, never, decided := strEq(a, b)
	if !decided {
		return nil
	}
	if never {
		return mkBool(false)
	}
	S := types.Typ[types.String]
	var open []*Term
	for _, p := range pairs {
		e := mkEq(p[0], p[1], S)
		if e.isFalse() {
			return e
		}
		if !e.isTrue() {
			open = append(open, e)
		}
	}
	switch len(open) {
	case 0:
		return mkBool(true)
	case 1:
		return open[0]
	}
	return nil
}

// strEqTruth decides the equality of two composed strings from the facts.
func (f *Facts) strEqTruth(a, b *Term) (val, known bool) {
	if a.Op != "cat" && b.Op != "cat" {
		return false, false
	}
	pairs, never, decided := strEq(a, b)
	if !decided {
		return false, false
	}
	if never {
		return false, true
	}
	all := true
	for _, p := range pairs {
		v, k := f.truth(mkEq(p[0], p[1], types.Typ[types.String]))
		if k && !v {
			return false, true
		}
		all = all && k
	}
	return true, all
}

// assumeStrEq spreads an equality of composed strings over their parts.
func (f *Facts) assumeStrEq(a, b *Term, v bool) bool {
	if a.Op != "cat" && b.Op != "cat" {
		return true
	}
	pairs, never, decided := strEq(a, b)
	if !decided {
		return true
	}
	if never {
		return !v
	}
	var open []*Term
	for _, p := range pairs {
		e := mkEq(p[0], p[1], types.Typ[types.String])
		if v {
			if !f.assume(e, true) {
				return false
			}
			continue
		}
		if t, k := f.truth(e); !k {
			open = append(open, e)
		} else if !t {
			return true
		}
	}
	if v {
		return true
	}
	if len(open) == 0 {
		return false
	}
	if len(open) == 1 {
		return f.assume(open[0], false)
	}
	return true
}

// knownKeys are the keys a map is known to have an entry for or not.
func (s *State) knownKeys(m *Term) []*Term {
	var out []*Term
	for a := range s.mem {
		if a.Op == "mh" && a.Args[0] == m {
			out = append(out, a.Args[1])
		}
	}
	sortTerms(out)
	return out
}

// splitKey decides, for a map all of whose entries are known, whether a key is
// one of theirs: the key to use, or the two states in which it is and is not.
func (e *Engine) splitKey(s *State, m, k *Term) (*Term, []*State) {
	if !e.Opts.Spec || !isFreshObj(m) || e.sharedAlloc[m] {
		return k, nil
	}
	kt := k.Typ
	if kt == nil || !isStringType(kt) {
		return k, nil
	}
	if _, ok := s.mem[mapHas(m, k)]; ok {
		return k, nil
	}
	for _, o := range s.knownKeys(m) {
		c := mkEq(k, o, kt)
		v, known := s.facts.truth(c)
		if known && v {
			return o, nil
		}
		if !known {
			n := s.clone()
			var out []*State
			if s.facts.assume(c, true) {
				out = append(out, s)
			}
			if n.facts.assume(c, false) {
				out = append(out, n)
			}
			return k, out
		}
	}
	return k, nil
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
}
