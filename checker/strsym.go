package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions of the standard library on composed strings: sequences of texts,
// formatted numbers and unknown strings.

func segs(t *Term) []*Term {
	if t.Op == "cat" {
		return t.Args
	}
	return []*Term{t}
}

// freeOf: a part that surely does not contain the character.
func (s *State) freeOf(x *Term, c byte) bool {
	if v, ok := x.strVal(); ok {
		return strings.IndexByte(v, c) < 0
	}
	switch x.Op {
	case "hex":
		return !('0' <= c && c <= '9' || 'a' <= c && c <= 'f')
	case "dec":
		return !('0' <= c && c <= '9' || c == '-')
	}
	v, known := s.facts.truth(mkContains(x, mkStr(string(c))))
	return known && !v
}

func mkContains(x, y *Term) *Term {
	return mk("pure", "strings.Contains", types.Typ[types.Bool], nil, x, y)
}

// cut finds the first occurrence of a character.
func (s *State) cut(t *Term, c byte) (before, after *Term, found, known bool) {
	ss := segs(t)
	for i, x := range ss {
		if v, ok := x.strVal(); ok {
			if j := strings.IndexByte(v, c); j >= 0 {
				b := append(append([]*Term(nil), ss[:i]...), mkStr(v[:j]))
				a := append([]*Term{mkStr(v[j+1:])}, ss[i+1:]...)
				return mkCat(b...), mkCat(a...), true, true
			}
			continue
		}
		if !s.freeOf(x, c) {
			return nil, nil, false, false
		}
	}
	return t, mkStr(""), false, true
}

// part is a section of a composed string between known places.
func strPart(t, lo, hi *Term) *Term {
	I := types.Typ[types.Int]
	ss := segs(t)
	place := func(at *Term) (i, off int, ok bool) {
		cum := mkInt(0)
		for i, x := range ss {
			if n, ok := mkSub(at, cum, I).intVal(); ok {
				if v, isC := x.strVal(); isC && n >= 0 && int(n) <= len(v) {
					return i, int(n), true
				}
				if n == 0 {
					return i, 0, true
				}
			}
			cum = mkAdd(cum, mkLen(x), I)
		}
		if n, ok := mkSub(at, cum, I).intVal(); ok && n == 0 {
			return len(ss), 0, true
		}
		return 0, 0, false
	}
	i, a, ok1 := place(lo)
	j, b, ok2 := place(hi)
	if !ok1 || !ok2 || i > j || i == j && a > b {
		return nil
	}
	var out []*Term
	for k := i; k <= j && k < len(ss); k++ {
		x := ss[k]
		v, isC := x.strVal()
		if k == j {
			if b == 0 && !isC {
				break
			}
			v = v[:b]
		}
		if k == i && isC {
			v = v[a:]
		}
		if isC {
			x = mkStr(v)
		}
		out = append(out, x)
	}
	return mkCat(out...)
}

// strOp computes what can be computed.
func (e *Engine) strOp(s *State, name string, args []*Term) *Term {
	S, I := types.Typ[types.String], types.Typ[types.Int]
	sep := func(i int) (byte, bool) {
		if i >= len(args) {
			return 0, false
		}
		if v, ok := args[i].strVal(); ok && len(v) == 1 {
			return v[0], true
		}
		if n, ok := args[i].intVal(); ok && n > 0 && n < 128 && !isStringType(args[i].Typ) {
			return byte(n), true
		}
		return 0, false
	}
	tuple := func(ts ...*Term) *Term { return mk("tuple", "", nil, nil, ts...) }
	list := func(ts []*Term) *Term {
		return mk("append", "", types.NewSlice(S), nil, append([]*Term{mkNil()}, ts...)...)
	}
	switch name {
	case "strings.Split", "strings.SplitN":
		c, ok := sep(1)
		if !ok {
			return nil
		}
		n := int64(-1)
		if name == "strings.SplitN" {
			if n, ok = args[2].intVal(); !ok || n == 0 {
				return nil
			}
		}
		var out []*Term
		t := args[0]
		for {
			if n > 0 && int64(len(out)) == n-1 {
				return list(append(out, t))
			}
			b, a, found, known := s.cut(t, c)
			if !known || len(out) > 16 {
				return nil
			}
			out = append(out, b)
			if !found {
				return list(out)
			}
			t = a
		}
	case "strings.Cut":
		if c, ok := sep(1); ok {
			if b, a, found, known := s.cut(args[0], c); known {
				return tuple(b, a, mkBool(found))
			}
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		if c, ok := sep(1); ok {
			if b, _, found, known := s.cut(args[0], c); known {
				if !found {
					return mkInt(-1)
				}
				return mkLen(b)
			}
		}
	case "strings.Contains", "strings.ContainsRune":
		if c, ok := sep(1); ok {
			if _, _, found, known := s.cut(args[0], c); known {
				return mkBool(found)
			}
			for _, x := range segs(args[0]) {
				if v, ok := x.strVal(); ok && strings.IndexByte(v, c) >= 0 {
					return mkBool(true)
				}
			}
			return mkContains(args[0], mkStr(string(c)))
		}
		if v, ok := args[1].strVal(); ok && name == "strings.Contains" {
			for _, x := range segs(args[0]) {
				if y, ok := x.strVal(); ok && strings.Contains(y, v) {
					return mkBool(true)
				}
			}
		}
	case "strings.Count":
		if c, ok := sep(1); ok {
			t, n := args[0], int64(0)
			for {
				_, a, found, known := s.cut(t, c)
				if !known {
					return nil
				}
				if !found {
					return mkInt(n)
				}
				n++
				t = a
			}
		}
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.CutPrefix":
		p, ok := args[1].strVal()
		v, ok2 := segs(args[0])[0].strVal()
		if x := segs(args[0])[0]; ok && !ok2 && p != "" && s.freeOf(x, p[0]) {
			// it begins otherwise, or is empty
			sure := x == args[0]
			if b, known := s.facts.truth(mkEq(x, mkStr(""), S)); known && !b {
				sure = true
			}
			if sure {
				switch name {
				case "strings.HasPrefix":
					return mkBool(false)
				case "strings.TrimPrefix":
					return args[0]
				}
				return tuple(args[0], mkBool(false))
			}
		}
		if !ok || !ok2 {
			return nil
		}
		if len(v) < len(p) && !(segs(args[0])[0] != args[0] && strings.HasPrefix(p, v)) && !strings.HasPrefix(v, p) || len(v) >= len(p) {
			has := strings.HasPrefix(v, p)
			rest := args[0]
			if has {
				rest = mkCat(append([]*Term{mkStr(v[len(p):])}, segs(args[0])[1:]...)...)
			}
			switch name {
			case "strings.HasPrefix":
				return mkBool(has)
			case "strings.TrimPrefix":
				return rest
			}
			return tuple(rest, mkBool(has))
		}
	case "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
		c, ok := sep(1)
		if !ok {
			return nil
		}
		ss := append([]*Term(nil), segs(args[0])...)
		// trim one end; false if it cannot be known where it ends
		end := func(left bool) bool {
			for len(ss) > 0 {
				i := 0
				if !left {
					i = len(ss) - 1
				}
				x := ss[i]
				if v, ok := x.strVal(); ok {
					w := strings.TrimLeft(v, string(c))
					if !left {
						w = strings.TrimRight(v, string(c))
					}
					if w != "" {
						ss[i] = mkStr(w)
						return true
					}
				} else {
					if !s.freeOf(x, c) {
						return false
					}
					if len(ss) == 1 {
						return true
					}
					b, known := s.facts.truth(mkEq(x, mkStr(""), S))
					if !known {
						return false
					}
					if !b {
						return true
					}
				}
				ss = append(ss[:i:i], ss[i+1:]...)
			}
			return true
		}
		if name != "strings.TrimRight" && !end(true) || name != "strings.TrimLeft" && !end(false) {
			return nil
		}
		return mkCat(ss...)
	case "strings.Join":
		es, ok := e.knownElems(s, args[0])
		if !ok {
			return nil
		}
		var out []*Term
		for i, x := range es {
			if i > 0 {
				out = append(out, args[1])
			}
			out = append(out, x)
		}
		return mkCat(out...)
	case "strconv.ParseBool":
		if v, ok := args[0].strVal(); ok {
			b, err := strconv.ParseBool(v)
			if err == nil {
				return tuple(mkBool(b), mkNil())
			}
			r := mk("pure", name+".1", types.Universe.Lookup("error").Type(), nil, args...)
			s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
			return tuple(mkBool(false), r)
		}
	case "strconv.ParseUint":
		base, ok := args[1].intVal()
		bits, ok2 := args[2].intVal()
		if !ok || !ok2 {
			return nil
		}
		if v, ok := args[0].strVal(); ok {
			n, err := strconv.ParseUint(v, int(base), int(bits))
			if err == nil && n < 1<<63 {
				return tuple(mkInt(int64(n)), mkNil())
			}
			if err != nil {
				r := mk("pure", name+".1", types.Universe.Lookup("error").Type(), nil, args...)
				s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
				return tuple(mk("pure", name+".0", types.Typ[types.Uint64], nil, args...), r)
			}
			return nil
		}
		if args[0].Op == "hex" && base == 16 && (bits == 64 || bits == 0) {
			return tuple(e.convert(s, args[0].Args[0], args[0].Args[0].Typ, types.Typ[types.Uint64]), mkNil())
		}
	case "strconv.FormatUint":
		if b, ok := args[1].intVal(); ok && b == 16 {
			return hexTerm("x", args[0])
		}
	case "strconv.FormatInt":
		if b, ok := args[1].intVal(); ok && b == 16 {
			if nonNegative(args[0]) {
				return hexTerm("x", args[0])
			}
		}
	}
	_ = I
	return nil
}

// hexTerm is an unsigned number in hexadecimal digits, possibly with leading
// zeros.
func hexTerm(verb string, x *Term) *Term {
	if n, ok := x.intVal(); ok && n >= 0 {
		return mkStr(fmt.Sprintf("%"+verb, n))
	}
	return mk("hex", verb, types.Typ[types.String], nil, x)
}

func nonNegative(x *Term) bool {
	if n, ok := x.intVal(); ok {
		return n >= 0
	}
	t := x.Typ
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	if x.Op == "conv" && len(x.Args) == 1 && x.Args[0].Typ != nil {
		if a, ok := x.Args[0].Typ.Underlying().(*types.Basic); ok && a.Info()&types.IsUnsigned != 0 && sizeOf(a) < sizeOf(b) {
			return true
		}
	}
	return false
}

func sizeOf(b *types.Basic) int64 {
	if b == nil {
		return 0
	}
	return types.SizesFor("gc", "amd64").Sizeof(b)
}

// hexVerb: a verb of fmt for hexadecimal digits padded with zeros.
func hexVerb(verb string) bool {
	if !strings.HasSuffix(verb, "x") {
		return false
	}
	w := strings.TrimSuffix(verb, "x")
	return w == "" || w[0] == '0' && strings.Trim(w, "0123456789") == ""
}

var _ ssa.Instruction
