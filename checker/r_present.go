package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{id: "C28", spec: true, rule: "contract drivers over the trace queries with the pinging goroutine considered pausing before every one of its synchronising operations and in the middle of a ping, and going on before every one of the query's: no ping is running or follows once the answer is begun, a failed or panicking ping is the error returned and never repeated, the goroutine ends", run: runC28})
}

func runC28(c *Ctx) {
	o := c.specOpts()
	o.Out = true
	o.Intr = func(fn *ssa.Function) bool { return extPkg(fn) == modPath+"/present" }
	o.Model = regexpModel(distinctIds(o.Model))
	c.SpecAll("ping", o)
	c.Floor("ping", 10)
}

// regexpModel takes every pattern for valid and matching.
func regexpModel(m specModel) specModel {
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		switch extName(fn) {
		case "regexp.Compile":
			r := mk("pure", "regexp.Compile", fn.Signature.Results().At(0).Type(), nil, args...)
			s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
			e.finishCall(s, instr, mk("tuple", "", nil, nil, r, mkNil()), cont)
			return true
		case "(*regexp.Regexp).MatchString":
			e.finishCall(s, instr, mkBool(true), cont)
			return true
		}
		return m(e, s, instr, fn, args, cont)
	}
}

func init() {
	register(&checkDef{id: "C25", spec: true, rule: "contract drivers over every output, any one write of which fails: the error is what the output function returns, and nothing is written after it; through the router, success is only reported when its buffer is written out", run: runC25})
}

func runC25(c *Ctx) {
	o := c.specOpts()
	o.Out = true
	o.Model = distinctIds(o.Model)
	o.Summ = noWriter
	o.Intr = func(fn *ssa.Function) bool { return extPkg(fn) == modPath+"/present" }
	c.SpecAll("write", o)
	c.Floor("write", 40)
}

// noWriter: a function of package present that has no way to the writer.
func noWriter(fn *ssa.Function) bool {
	if extPkg(fn) != modPath+"/present" || len(fn.FreeVars) > 0 || fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	for _, p := range fn.Params {
		if mayWrite(p.Type(), 0) {
			return false
		}
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if t := fn.Signature.Results().At(i).Type(); mayWrite(t, 0) || types.IsInterface(t) {
			return false
		}
	}
	return fn.Signature.Results().Len() > 0 && len(fn.Params) > 0 && loops(fn, 0)
}

// loops: a function, or one of its package it calls, repeats something.
func loops(fn *ssa.Function, depth int) bool {
	if depth > 4 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, x := range b.Succs {
			if x.Dominates(b) {
				return true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg == fn.Pkg && loops(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

func mayWrite(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != modPath+"/present" {
		_, isI := n.Underlying().(*types.Interface)
		_, isS := n.Underlying().(*types.Signature)
		return isI && n.Obj().Name() != "Context" || isS
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return !u.Empty()
	case *types.Signature:
		return true
	case *types.Pointer:
		return mayWrite(u.Elem(), depth+1)
	case *types.Slice:
		return mayWrite(u.Elem(), depth+1)
	case *types.Array:
		return mayWrite(u.Elem(), depth+1)
	case *types.Map:
		return mayWrite(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayWrite(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func init() {
	register(&checkDef{id: "C23", spec: true, rule: "contract drivers over the JSON outputs for none, one and several elements of any content: the text is one complete list of the encoded elements, no element can be refused by the encoder, and each has the attributes of its span, function or reading", run: runC23})
}

func runC23(c *Ctx) {
	o := c.specOpts()
	o.Out = true
	o.Model = c.pureReaders(distinctIds(o.Model))
	c.SpecAll("json", o)
	c.Floor("json", 80)
}

// pureReaders takes what is read from a distribution as a function of its
// content.
func (c *Ctx) pureReaders(m specModel) specModel {
	of := map[*ssa.Function]types.Type{}
	for _, t := range distTypes {
		for _, n := range []string{"Query", "ReservoirAverage", "FullAverage"} {
			if f := c.P.Method("", t, n); f != nil {
				of[f] = c.P.Type("", t)
			}
		}
	}
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if t, ok := of[fn]; ok {
			cnt, sum := c.fieldAddr(args[0], t, "Count"), c.fieldAddr(args[0], t, "Sum")
			if cnt != nil && sum != nil {
				a := append([]*Term{s.read(cnt, pointee(cnt)), s.read(sum, pointee(sum))}, args[1:]...)
				e.finishCall(s, instr, mk("pure", fn.String(), fn.Signature.Results().At(0).Type(), nil, a...), cont)
				return true
			}
		}
		return m(e, s, instr, fn, args, cont)
	}
}

func init() {
	register(&checkDef{id: "C26", spec: true, rule: "contract drivers over the router for every documented path, unknown paths of arbitrary names, good and bad query parameters, through FromRequest and the HTTP handler: the text written is that of the documented function, with the matching content type; bad parameters and unknown paths are answered with their status and no output; every link of the index page is served; trace queries answer with the first span matching function pattern and trace id", run: runC26})
}

func runC26(c *Ctx) {
	o := c.specOpts()
	o.Out = true
	o.Intr = func(fn *ssa.Function) bool { return extPkg(fn) == modPath+"/present" }
	o.Model = stillClock(patterns(c.pureReaders(distinctIds(o.Model))))
	c.SpecAll("route", o)
	c.Floor("route", 60)
}

// patterns leaves regular expressions to the drivers.
func patterns(m specModel) specModel {
	to := map[string]string{
		"regexp.Compile": "compilePattern", "(*regexp.Regexp).MatchString": "matchPattern",
		"regexp.MatchString": "matchText", "regexp.CompilePOSIX": "compilePattern",
		"(*regexp.Regexp).Match": "matchBytes",
	}
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if f := to[extName(fn)]; f != "" {
			return e.redirect(s, instr, f, args, cont)
		}
		return m(e, s, instr, fn, args, cont)
	}
}

// stillClock lets no time pass, so that texts can be compared.
func stillClock(m specModel) specModel {
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		switch extName(fn) {
		case "time.Now", modPath + "/monotime.Now":
			e.finishCall(s, instr, mk("pure", "now", fn.Signature.Results().At(0).Type(), nil), cont)
			return true
		case "time.Since":
			e.finishCall(s, instr, mk("pure", "since", fn.Signature.Results().At(0).Type(), nil, args...), cont)
			return true
		}
		return m(e, s, instr, fn, args, cont)
	}
}
