package main

import (
	"go/types"
	"net/textproto"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// httpCall models the parts of net/http the contract drivers meet: headers as
// the maps they are, and requests as structs with a context.
func (e *Engine) httpCall(s *State, instr ssa.Instruction, name string, args []*Term, cont contKind) bool {
	if strings.HasPrefix(name, "(net/http.Header).") && len(args) > 1 && isStringType(args[1].Typ) {
		k, ok := args[1].strVal()
		if !ok {
			return false
		}
		a := append([]*Term(nil), args...)
		a[1] = mkStr(textproto.CanonicalMIMEHeaderKey(k))
		return e.redirect(s, instr, "header"+strings.TrimPrefix(name, "(net/http.Header)."), a, cont)
	}
	switch name {
	case "(*net/http.Request).Context":
		typ := args[0].Typ.Underlying().(*types.Pointer).Elem()
		if c := fieldByName(args[0], typ, "ctx"); c != nil {
			v := s.read(c, pointee(c))
			if v.isNil() {
				v = mk("pure", "context.Background", pointee(c), nil)
			}
			s.facts.assume(mkEq(v, mkNil(), types.Typ[types.UnsafePointer]), false)
			e.finishCall(s, instr, v, cont)
			return true
		}
	case "(*net/http.Request).WithContext", "(*net/http.Request).Clone":
		typ := args[0].Typ.Underlying().(*types.Pointer).Elem()
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		o := e.newObj("alloc", instr, types.NewPointer(typ))
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			v := s.read(mkFieldAddr(args[0], i, typ), ft)
			if st.Field(i).Name() == "ctx" {
				v = args[1]
			}
			s.write(mkFieldAddr(o, i, typ), v, ft)
		}
		e.finishCall(s, instr, o, cont)
		return true
	}
	return false
}

func fieldByName(base *Term, typ types.Type, name string) *Term {
	st, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(base, i, typ)
		}
	}
	return nil
}

// redirect analyses a call as one of a function of the drivers' package.
func (e *Engine) redirect(s *State, instr ssa.Instruction, fn string, args []*Term, cont contKind) bool {
	pkg := e.P.SSA.ImportedPackage(modPath + "/" + specPkg)
	if pkg == nil || pkg.Func(fn) == nil {
		return false
	}
	nf := e.push(s, pkg.Func(fn), args, nil, instr)
	nf.cont = cont
	if cont == contDefer {
		nf.isDefer = true
	}
	return true
}

// urlCall models query parameters as the map they are.
func (e *Engine) urlCall(s *State, instr ssa.Instruction, name string, args []*Term, cont contKind) bool {
	switch name {
	case "net/url.Parse":
		if v, ok := args[0].strVal(); ok {
			if _, err := url.Parse(v); err == nil {
				r := mk("pure", name, instr.(ssa.CallInstruction).Common().Signature().Results().At(0).Type(), nil, args...)
				s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
				e.finishCall(s, instr, mk("tuple", "", nil, nil, r, mkNil()), cont)
				return true
			}
		}
	case "(*net/url.URL).Query":
		return e.redirect(s, instr, "urlQuery", args, cont)
	case "net/http.Error":
		return e.redirect(s, instr, "httpError", args, cont)
	case "(net/url.Values).Get", "(net/url.Values).Add", "(net/url.Values).Set", "(net/url.Values).Del", "(net/url.Values).Has":
		return e.redirect(s, instr, "query"+strings.TrimPrefix(name, "(net/url.Values)."), args, cont)
	}
	return false
}
