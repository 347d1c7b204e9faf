package main

import (
	"fmt"
	"go/types"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) builtin(s *State, instr ssa.Instruction, d deferred, cont contKind) []*State {
	a := d.args
	I := types.Typ[types.Int]
	switch d.builtin.Name() {
	case "len":
		e.finishCall(s, instr, e.lenOf(s, a[0]), cont)
	case "cap":
		x := a[0]
		var r *Term
		if x.isNil() {
			r = mkInt(0)
		} else {
			r = mk("cap", "", I, nil, x)
		}
		e.finishCall(s, instr, r, cont)
	case "append":
		e.finishCall(s, instr, e.appendTo(s, instr, a), cont)
	case "copy":
		s.emit(&Event{Kind: "Copy", Addr: a[0], Val: a[1], Local: s.isLocal(a[0])})
		if n := e.copyConst(s, a[0], a[1]); n != nil {
			e.finishCall(s, instr, n, cont)
			break
		}
		s.havocReach(a[0])
		if b := sliceBase(a[0]); b.Op == "fa" || b.Op == "ea" {
			s.havoc(b)
		}
		e.finishCall(s, instr, fresh("copyn", "", I, nil, a...), cont)
	case "delete":
		m, k := a[0], a[1]
		var mt *types.Map
		switch in := instr.(type) {
		case *ssa.Call:
			mt = in.Call.Args[0].Type().Underlying().(*types.Map)
		case *ssa.Defer:
			mt = in.Call.Args[0].Type().Underlying().(*types.Map)
		}
		if !m.isNil() {
			va, ha := mapVal(m, k, mt), mapHas(m, k)
			s.emit(&Event{Kind: "MapDelete", Addr: va, Local: s.isLocal(va)})
			s.invalidateAliases(ha)
			s.mem[ha] = mkBool(false)
			s.invalidateAliases(va)
			s.mem[va] = zeroOf(mt.Elem())
			s.mark[mk("maplen", "", nil, nil, m)] = s.nextVer()
		}
		e.finishCall(s, instr, nil, cont)
	case "close":
		if e.Opts.Spec {
			if st, ok := e.interleave(s, instr, func(s *State) {
				if cont == contDefer {
					s.top().defers = append(s.top().defers, d)
				}
			}); ok {
				return st
			}
		}
		s.emit(&Event{Kind: "Close", Addr: a[0], Defer: cont == contDefer})
		if e.Opts.Spec && isFreshObj(a[0]) {
			if r, ok := e.chanReady(s, a[0]); ok && r {
				e.startPanic(s, mkStr("close of closed channel"), instr)
				return nil
			}
			s.mem[chanClosed(a[0])] = mkBool(true)
		}
		e.finishCall(s, instr, nil, cont)
	case "recover":
		f := s.top()
		r := mkNil()
		if f.isDefer && f.pdepth > 0 && len(s.panics) >= f.pdepth && !s.panics[f.pdepth-1].recovered && !f.unwind {
			s.panics = append([]panicRec(nil), s.panics...)
			s.panics[f.pdepth-1].recovered = true
			r = s.panics[f.pdepth-1].val
			s.emit(&Event{Kind: "Recover", Val: r})
		} else {
			s.emit(&Event{Kind: "Recover", Val: r})
		}
		e.finishCall(s, instr, r, cont)
	case "clear":
		s.emit(&Event{Kind: "Clear", Addr: a[0], Local: s.isLocal(a[0])})
		s.havocReach(a[0])
		s.mark[a[0]] = s.nextVer()
		if _, ok := a[0].Typ.Underlying().(*types.Map); ok {
			s.setEmpty(a[0])
		}
		e.finishCall(s, instr, nil, cont)
	case "ssa:wrapnilchk":
		e.finishCall(s, instr, a[0], cont)
	case "panic":
		e.startPanic(s, a[0], instr)
	default:
		rt := callResultType(instr)
		var r *Term
		if rt != nil {
			r = mk("builtin:"+d.builtin.Name(), "", rt, nil, a...)
		}
		e.finishCall(s, instr, r, cont)
	}
	return nil
}

func (e *Engine) lenOf(s *State, x *Term) *Term {
	if x.Typ != nil {
		if _, ok := x.Typ.Underlying().(*types.Map); ok {
			if n, ok := e.knownLen(s, x); ok {
				return mkInt(int64(n))
			}
			ml := mk("maplen", "", nil, nil, x)
			if v, ok := s.mark[ml]; ok {
				return mk("len", strconv.Itoa(v), types.Typ[types.Int], nil, x)
			}
			if x.Op == "map" && !e.sharedAlloc[x] && !s.pub[x] {
				if _, ok := s.markOf(x); !ok {
					return mkInt(0)
				}
			}
			if !s.isLocal(x) && s.isMutable(mk("mv", "", nil, types.Typ[types.Int], x, mkInt(0))) {
				if len(s.held) > 0 {
					return mk("len", "v"+strconv.Itoa(s.ver), types.Typ[types.Int], nil, x)
				}
				return fresh("len", "", types.Typ[types.Int], nil, x)
			}
		}
	}
	return mkLen(x)
}

// appendTo models append as a pure operation on sequence values; the possible
// write to spare capacity is recorded as an event.
func (e *Engine) appendTo(s *State, instr ssa.Instruction, a []*Term) *Term {
	base, y := a[0], a[1]
	rt := callResultType(instr)
	elems, ok := e.knownElems(s, y)
	orig := base
	if base.Op == "slice" {
		// as a value, a part of a known sequence is a sequence
		if es, ok := e.knownElems(s, base); ok && base.Args[0].Op != "alloc" {
			base = mk("append", "", rt, nil, append([]*Term{mkNil()}, es...)...)
		}
	}
	var r *Term
	switch {
	case y.isNil():
		r = base
	case ok && len(elems) == 0:
		r = base
	case ok:
		if base.Op == "append" {
			r = mk("append", "", rt, nil, append(append([]*Term(nil), base.Args...), elems...)...)
		} else {
			r = mk("append", "", rt, nil, append([]*Term{base}, elems...)...)
		}
	default:
		r = mk("appendall", "", rt, nil, base, y)
		if m := e.seqVersion(s, y); m != nil {
			r = mk("appendall", "", rt, nil, base, y, m)
		}
	}
	s.emit(&Event{Kind: "Append", Addr: orig, Val: y, Res: r, Local: base.isNil() || s.isLocal(base), Args: elems, OK: ok})
	return r
}

// seqVersion distinguishes contents of the same backing array at different times.
func (e *Engine) seqVersion(s *State, y *Term) *Term {
	if v, ok := s.markOf(y); ok {
		return mkInt(int64(v))
	}
	return nil
}

// knownElems lists the elements of a slice whose contents are known.
func (e *Engine) knownElems(s *State, y *Term) ([]*Term, bool) {
	switch y.Op {
	case "nil":
		return nil, true
	case "append":
		head, ok := e.knownElems(s, y.Args[0])
		if !ok {
			return nil, false
		}
		out := append(append([]*Term(nil), head...), y.Args[1:]...)
		if st, ok := y.Typ.Underlying().(*types.Slice); ok {
			for i := range out {
				if v, ok := s.mem[mkElemAddr(y, mkInt(int64(i)), st.Elem())]; ok {
					out[i] = v // overwritten since
				}
			}
		}
		return out, true
	case "slice":
		lo, ok1 := y.Args[1].intVal()
		hi, ok2 := y.Args[2].intVal()
		if !ok1 || !ok2 || hi-lo > 64 {
			return nil, false
		}
		base := y.Args[0]
		if base.Op == "append" || base.Op == "slice" || base.Op == "mkslice" {
			es, ok := e.knownElems(s, base)
			if !ok || lo < 0 || lo > hi || int(hi) > len(es) {
				return nil, false
			}
			return es[lo:hi], true
		}
		if base.Op != "alloc" && !(e.Opts.Sort && base.Op == "fa") {
			return nil, false
		}
		if _, ok := s.markOf(base); ok {
			return nil, false
		}
		var et types.Type
		if base.Op == "fa" {
			if at, ok := pointee(base).Underlying().(*types.Array); ok {
				et = at.Elem()
			}
		} else if pt, ok := base.Typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				et = at.Elem()
			}
		}
		if et == nil {
			return nil, false
		}
		var out []*Term
		for i := lo; i < hi; i++ {
			out = append(out, s.read(mkElemAddr(base, mkInt(i), et), et))
		}
		return out, true
	case "mkslice":
		n, ok := y.Args[0].intVal()
		if ok && n == 0 {
			return nil, true
		}
		st, isSl := y.Typ.Underlying().(*types.Slice)
		if !ok || n > 64 || !isSl || !e.Opts.Out {
			return nil, false
		}
		if _, ok := s.markOf(y); ok {
			return nil, false
		}
		var out []*Term
		for i := int64(0); i < n; i++ {
			out = append(out, s.read(mkElemAddr(y, mkInt(i), st.Elem()), st.Elem()))
		}
		return out, true
	}
	return nil, false
}

func (e *Engine) origInfo(t *Term, instr ssa.Instruction) (app bool, internal []*ssa.Function) {
	if e.P.orig == nil {
		return true, nil
	}
	return e.P.orig.callTargets(instr)
}

// appCall is a call of a function value that is not resolved on this path.
func (e *Engine) appCall(s *State, instr ssa.Instruction, d deferred, cont contKind, res *Term) []*State {
	var rt *types.Tuple
	if sig, ok := d.callee.Typ.Underlying().(*types.Signature); ok {
		rt = sig.Results()
	} else {
		rt = types.NewTuple()
	}
	app, internal := e.origInfo(d.callee, instr)
	res = e.freshResult(s, rt, "appres", "")
	ev := &Event{Kind: "App", Callee: d.callee, Args: d.args, Res: res, App: app, Int: internal, Defer: cont == contDefer, Instr: instr}
	ev.Mem = s.copyMem()
	s.emit(ev)
	return e.afterApp(s, instr, d, cont, res, app)
}

func (e *Engine) afterApp(s *State, instr ssa.Instruction, d deferred, cont contKind, res *Term, app bool) []*State {
	for _, a := range d.args {
		s.publish(a)
	}
	s.publish(d.callee)
	if e.Opts.Seq {
		for _, a := range d.args {
			if e.Opts.Spec && isRepoType(unIface(a).typ()) {
				continue // its fields are the library's, and a callback's own calls are other calls
			}
			s.havocReach(a)
		}
	}
	if len(s.held) == 0 {
		s.release()
	}
	if e.Opts.AppPanics && app {
		p := s.clone()
		e.startPanic(p, fresh("apppanic", "", nil, nil), instr)
		e.finishCall(s, instr, res, cont)
		return []*State{p, s}
	}
	e.finishCall(s, instr, res, cont)
	return nil
}

func (e *Engine) invokeUnknown(s *State, instr ssa.Instruction, d deferred, cont contKind) []*State {
	name := d.invoke.FullName()
	sig := d.invoke.Type().(*types.Signature)
	recv := d.callee
	if e.Opts.Reflect && strings.HasPrefix(name, "(reflect.Type).") {
		if st, ok := e.reflCall(s, instr, name, sig, d.args, cont); ok {
			return st
		}
	}
	switch name {
	case "(context.Context).Value":
		for len(d.args) == 2 && d.args[0].Op == "withvalue" {
			w := d.args[0]
			eq, k := s.facts.truth(e.eqTerm(s, unIface(w.Args[1]), unIface(d.args[1]), types.Typ[types.UnsafePointer]))
			if w.Args[1].Op == "iface" && d.args[1].Op == "iface" && w.Args[1].Obj != nil && d.args[1].Obj != nil &&
				!types.Identical(w.Args[1].Obj.(types.Type), d.args[1].Obj.(types.Type)) {
				eq, k = false, true
			}
			if !k {
				break
			}
			if eq {
				e.finishCall(s, instr, w.Args[2], cont)
				return nil
			}
			d.args = []*Term{w.Args[0], d.args[1]}
			d.callee = w.Args[0]
			if d.callee.Op == "iface" {
				return e.call(s, instr, d, cont)
			}
		}
		if d.args[0].Op == "pure" && d.args[0].Aux == "context.Background" {
			e.finishCall(s, instr, mkNil(), cont)
			return nil
		}
		r := mk("pure", "ctx.Value", sig.Results().At(0).Type(), nil, d.args...)
		s.emit(&Event{Kind: "Ctx", Name: name, Callee: recv, Args: d.args, Res: r})
		e.finishCall(s, instr, r, cont)
		return nil
	case "(context.Context).Done":
		if e.Opts.Intr != nil && recv.Op == "pure" && (recv.Aux == "context.Background" || recv.Aux == "context.TODO") {
			e.finishCall(s, instr, mkNil(), cont)
			return nil
		}
		r := mk("pure", "ctx.Done", sig.Results().At(0).Type(), nil, recv)
		s.emit(&Event{Kind: "Ctx", Name: name, Callee: recv, Args: d.args, Res: r})
		e.finishCall(s, instr, r, cont)
		return nil
	case "(context.Context).Err", "(context.Context).Deadline":
		r := e.freshResult(s, sig.Results(), "ctxres", d.invoke.Name())
		s.emit(&Event{Kind: "Ctx", Name: name, Callee: recv, Args: d.args, Res: r})
		e.finishCall(s, instr, r, cont)
		return nil
	case "(reflect.Type).Kind", "(reflect.Type).NumField", "(reflect.Type).Field", "(reflect.Type).Name", "(reflect.Type).String", "(reflect.Type).Elem":
		r := e.pureResult(name, sig.Results(), d.args)
		e.finishCall(s, instr, r, cont)
		return nil
	}
	app, internal := e.origInfo(recv, instr)
	res := e.freshResult(s, sig.Results(), "appres", d.invoke.Name())
	ev := &Event{Kind: "App", Name: name, Callee: recv, Args: d.args, Res: res, App: app, Int: internal, Defer: cont == contDefer, Instr: instr}
	ev.Mem = s.copyMem()
	s.emit(ev)
	return e.afterApp(s, instr, d, cont, res, app)
}

func (e *Engine) pureResult(name string, res *types.Tuple, args []*Term) *Term {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		if name == "math.IsNaN" {
			return isNaN(args[0])
		}
		return mk("pure", name, res.At(0).Type(), nil, args...)
	}
	var a []*Term
	for i := 0; i < res.Len(); i++ {
		a = append(a, mk("pure", name+"."+strconv.Itoa(i), res.At(i).Type(), nil, args...))
	}
	return mk("tuple", "", res, nil, a...)
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true,
	"math/bits": true, "html": true, "html/template": true, "text/template": true, "net/url": true, "reflect": true, "encoding/hex": true,
	"encoding/binary": true, "errors": true, "time": true, "math/rand": false, "regexp": true, "sort": false, "bytes": true,
}

// externals in pure packages that are not pure
var impure = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "time.Sleep": true, "time.After": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true, "time.Tick": true,
	"(*time.Timer).Stop": true, "(*time.Timer).Reset": true, "(*time.Ticker).Stop": true, "(*time.Ticker).Reset": true,
	"errors.As": true, "errors.New": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.Abs": true,
	"encoding/binary.Read": true, "encoding/binary.Write": true, "strings.NewReader": true, "strings.NewReplacer": true, "bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true, "regexp.MustCompile": true, "regexp.Compile": true,
	"html/template.HTMLEscape": true, "text/template.HTMLEscape": true, "html/template.JSEscape": true, "text/template.JSEscape": true,
	"net/url.Parse": true,
}

// results never nil
var nonNilResult = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "context.Background": true, "context.TODO": true, "context.WithValue": true,
	"bufio.NewWriter": true, "bufio.NewReader": true, "encoding/json.NewEncoder": true, "time.NewTicker": true, "time.NewTimer": true,
	"regexp.MustCompile": true, "strings.NewReplacer": true, "(*net/http.Request).Context": true, "(*net/http.Request).WithContext": true,
}

func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func extPkg(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) extCall(s *State, instr ssa.Instruction, fn *ssa.Function, d deferred, args []*Term, cont contKind) []*State {
	name := extName(fn)
	pkg := extPkg(fn)
	res := fn.Signature.Results()
	pure := purePkgs[pkg] && !impure[name]
	if pkg == "fmt" && len(s.held) > 0 && fmtRunsMethods(e, s, args) {
		s.emit(&Event{Kind: "Fmt", Name: name, Args: args, Instr: instr})
	}
	if e.Opts.Reflect && pkg == "reflect" {
		if st, ok := e.reflCall(s, instr, name, fn.Signature, args, cont); ok {
			return st
		}
		if os.Getenv("MC_REFL") != "" {
			fmt.Fprintln(os.Stderr, "reflect:", name, args, e.P.Pos(instr.Pos()))
		}
	}
	switch {
	case name == "(time.Time).Sub":
		r := mk("tsub", "", res.At(0).Type(), nil, args...)
		e.finishCall(s, instr, r, cont)
		return nil
	case name == "time.Since":
		now := fresh("wallnow", "", nil, nil)
		s.emit(&Event{Kind: "Clock", Name: "time.Since", Res: now})
		e.finishCall(s, instr, mk("tsub", "", res.At(0).Type(), nil, now, args[0]), cont)
		return nil
	case name == "time.Now":
		now := fresh("wallnow", "", res.At(0).Type(), nil)
		s.emit(&Event{Kind: "Clock", Name: "time.Now", Res: now})
		e.finishCall(s, instr, now, cont)
		return nil
	case name == "fmt.Sprintf":
		e.finishCall(s, instr, e.sprintf(s, args[0], args[1]), cont)
		return nil
	case name == "fmt.Sprint":
		e.finishCall(s, instr, e.sprint(s, args[0]), cont)
		return nil
	case name == "fmt.Sprintln":
		e.finishCall(s, instr, mk("pure", name, res.At(0).Type(), nil, e.listOf(s, args[0])), cont)
		return nil
	case (pkg == "strings" || pkg == "strconv") && e.Opts.Spec && e.strOp(s, name, args) != nil:
		e.finishCall(s, instr, e.strOp(s, name, args), cont)
		return nil
	case foldPure(name, args) != nil:
		e.finishCall(s, instr, foldPure(name, args), cont)
		return nil
	case e.Opts.Spec && (name == "sort.Slice" || name == "sort.SliceStable" || name == "sort.Sort" || name == "sort.Stable" || name == "sort.Strings" || name == "slices.Sort") && e.short(s, args[0]):
		// nothing to reorder
		e.finishCall(s, instr, nil, cont)
		return nil
	case e.Opts.Intr != nil && e.waitCall(s, instr, name, args, cont):
		return nil
	case e.Opts.Out && e.urlCall(s, instr, name, args, cont):
		return nil
	case e.Opts.Spec && pkg == "net/http" && e.httpCall(s, instr, name, args, cont):
		return nil
	case e.Opts.Spec && e.Opts.Sort && e.sortCall(s, instr, name, args, cont):
		return nil
	case name == "strconv.Itoa":
		e.finishCall(s, instr, decTerm(args[0]), cont)
		return nil
	case name == "strconv.FormatInt":
		if n, ok := args[1].intVal(); ok && n == 10 {
			e.finishCall(s, instr, decTerm(args[0]), cont)
			return nil
		}
	case e.Opts.Out && e.outCall(s, instr, name, args, cont):
		return nil
	case name == "fmt.Fprintf" || name == "fmt.Fprint" || name == "fmt.Fprintln" || name == "io.WriteString":
		var text *Term
		switch name {
		case "fmt.Fprintf":
			text = e.sprintf(s, args[1], args[2])
		case "fmt.Fprint":
			text = e.sprint(s, args[1])
		case "fmt.Fprintln":
			text = e.sprintln(s, args[1])
		default:
			text = args[1]
		}
		w := args[0]
		if w.Op == "iface" && isBuilderPtr(w.Obj.(types.Type)) {
			c := contentAddr(w.Args[0])
			s.mem[c] = mkCat(s.read(c, types.Typ[types.String]), text)
			e.finishCall(s, instr, mk("tuple", "", nil, nil, mkLen(text), mkNil()), cont)
			return nil
		}
		r := e.freshResult(s, res, "extres", name)
		s.emit(&Event{Kind: "Out", Name: name, Addr: w, Args: []*Term{text}, Res: r, Defer: cont == contDefer, Instr: instr, App: true})
		e.finishCall(s, instr, r, cont)
		return nil
	case name == "context.WithValue":
		r := fresh("withvalue", "", res.At(0).Type(), nil, args...)
		s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
		e.finishCall(s, instr, r, cont)
		return nil
	case name == "context.Background" || name == "context.TODO":
		r := mk("pure", "context.Background", res.At(0).Type(), nil)
		s.facts.assume(mkEq(r, mkNil(), types.Typ[types.UnsafePointer]), false)
		e.finishCall(s, instr, r, cont)
		return nil
	case name == "strings.ReplaceAll":
		r := mk("pure", "strings.Replace", res.At(0).Type(), nil, append(append([]*Term(nil), args...), mkInt(-1))...)
		e.finishCall(s, instr, r, cont)
		return nil
	}
	if pkg == "reflect" || pkg == "time" {
		// reflect and time methods on values: pure, but recorded
		if pure {
			r := e.pureResult(name, res, args)
			s.emit(&Event{Kind: "Pure", Name: name, Args: args, Res: r, Instr: instr})
			e.finishCall(s, instr, r, cont)
			return nil
		}
	}
	if pure {
		r := e.pureResult(name, res, args)
		s.emit(&Event{Kind: "Pure", Name: name, Args: args, Res: r, Instr: instr})
		e.finishCall(s, instr, r, cont)
		return nil
	}
	// list arguments are part of what is observed
	obs := make([]*Term, len(args))
	for i, a := range args {
		obs[i] = a
		if a.Op == "slice" {
			obs[i] = e.listOf(s, a)
		}
	}
	r := e.freshResult(s, res, "extres", name)
	ev := &Event{Kind: "Ext", Name: name, Args: obs, Res: r, Defer: cont == contDefer, Instr: instr, Mem: nil}
	// function and interface arguments of the repository may be called back
	for _, a := range args {
		x := a
		if x.Op == "closure" || x.Op == "func" {
			ev.Int = append(ev.Int, x.Obj.(*ssa.Function))
		}
	}
	ev.Mem = s.copyMem()
	s.emit(ev)
	if nonNilResult[name] && r != nil {
		t := r
		if t.Op == "tuple" {
			t = t.Args[0]
		}
		s.facts.assume(mkEq(t, mkNil(), types.Typ[types.UnsafePointer]), false)
	}
	if !strings.HasPrefix(name, "fmt.") {
		for _, a := range args {
			if a.Op == "closure" {
				// a callback may write what it captured
				for _, x := range a.Args {
					if callbackWrites(a.Obj.(*ssa.Function)) {
						s.havocReach(x)
					}
				}
				continue
			}
			s.havocReach(a)
		}
	}
	if name == "time.AfterFunc" || pkg == "net/http" || name == "runtime.SetFinalizer" {
		for _, a := range args {
			s.publish(a)
		}
	}
	if (name == "os.Exit" || name == "runtime.Goexit") && false {
		s.ended = true
	}
	e.finishCall(s, instr, r, cont)
	return nil
}

// callbackWrites: does a closure store to anything but its own locals?
func callbackWrites(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); ok && !a.Heap {
					continue
				}
				return true
			case *ssa.MapUpdate, *ssa.Call, *ssa.Send:
				if c, ok := in.(*ssa.Call); ok {
					if _, isB := c.Call.Value.(*ssa.Builtin); isB {
						continue
					}
					if f, isF := c.Call.Value.(*ssa.Function); isF && f.Blocks == nil {
						continue
					}
				}
				return true
			}
		}
	}
	return false
}

// fmtRunsMethods: may formatting these arguments call methods of application values?
func fmtRunsMethods(e *Engine, s *State, args []*Term) bool {
	if len(args) == 0 {
		return false
	}
	el, ok := e.knownElems(s, args[len(args)-1])
	if !ok {
		return true
	}
	for _, x := range el {
		if x.Op != "iface" {
			if !x.isNil() && (x.Typ == nil || !isRepoType(x.Typ)) {
				return true
			}
			continue
		}
		if t, _ := x.Obj.(types.Type); t != nil {
			if _, isB := t.(*types.Basic); !isB && !isRepoType(t) {
				if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !types.IsInterface(t) {
					continue // a standard library type
				}
				return true
			}
		}
	}
	return false
}

func decTerm(x *Term) *Term {
	if n, ok := x.intVal(); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return mk("dec", "", types.Typ[types.String], nil, x)
}

// listOf turns a known slice into a list of its elements.
func (e *Engine) listOf(s *State, y *Term) *Term {
	if el, ok := e.knownElems(s, y); ok {
		return mk("list", "", y.Typ, nil, el...)
	}
	return y
}

func unIface(t *Term) *Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

func (e *Engine) sprint(s *State, lst *Term) *Term {
	el, ok := e.knownElems(s, lst)
	if ok && len(el) == 1 && el[0].Op == "iface" && isStringType(el[0].Typ) {
		return el[0].Args[0]
	}
	if ok && len(el) == 1 {
		if x := fmtArg("v", el[0]); x.Op != "fmtverb" {
			return x
		}
	}
	return mk("pure", "fmt.Sprint", types.Typ[types.String], nil, e.listOf(s, lst))
}

func (e *Engine) sprintln(s *State, lst *Term) *Term {
	el, ok := e.knownElems(s, lst)
	if !ok {
		return mkCat(mk("pure", "fmt.Sprintln", types.Typ[types.String], nil, lst), mkStr("\n"))
	}
	var parts []*Term
	for i, x := range el {
		if i > 0 {
			parts = append(parts, mkStr(" "))
		}
		parts = append(parts, fmtArg("v", x))
	}
	parts = append(parts, mkStr("\n"))
	return mkCat(parts...)
}

func fmtArg(verb string, x *Term) *Term {
	if x.Op == "iface" {
		t := x.Typ
		_, named := types.Unalias(t).(*types.Named)
		if (verb == "s" || verb == "v") && isStringType(t) && !named {
			return x.Args[0]
		}
		if c := x.Args[0]; verb == "s" && !named && c.Op == "conv" && c.Args[0].Typ != nil && isStringType(c.Args[0].Typ) {
			if sl, ok := t.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				return c.Args[0] // the bytes of a string
			}
		}
		if (verb == "d" || verb == "v") && isIntType(t) && !named {
			return decTerm(x.Args[0])
		}
		if hexVerb(verb) && isIntType(t) && !named {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 || nonNegative(x.Args[0]) {
				return hexTerm(verb, x.Args[0])
			}
		}
	}
	return mk("fmtverb", verb, types.Typ[types.String], nil, x)
}

// sprintf splits a constant format into its literal and value parts.
func (e *Engine) sprintf(s *State, format, lst *Term) *Term {
	f, ok := format.strVal()
	el, ok2 := e.knownElems(s, lst)
	if !ok || !ok2 {
		return mk("pure", "fmt.Sprintf", types.Typ[types.String], nil, format, e.listOf(s, lst))
	}
	var parts []*Term
	ai := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.*[]", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if strings.ContainsAny(f[i:j], "*[") {
			return mk("pure", "fmt.Sprintf", types.Typ[types.String], nil, format, e.listOf(s, lst))
		}
		if lit != "" {
			parts = append(parts, mkStr(lit))
			lit = ""
		}
		if ai < len(el) {
			parts = append(parts, fmtArg(f[i+1:j+1], el[ai]))
		} else {
			parts = append(parts, mkStr("%!"+string(f[j])+"(MISSING)"))
		}
		ai++
		i = j
	}
	if lit != "" {
		parts = append(parts, mkStr(lit))
	}
	if ai < len(el) {
		parts = append(parts, mkStr("%!(EXTRA)"))
	}
	return mkCat(parts...)
}

func contentAddr(a *Term) *Term { return mk("content", "", nil, types.Typ[types.String], a) }

func isBuilderPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	full := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return full == "strings.Builder" || full == "bytes.Buffer"
}

// isLockType: a type whose address is a lock.
func (p *Program) lockMethod(fn *ssa.Function) (mode, op string, ok bool) {
	if fn.Signature.Recv() == nil {
		return
	}
	rt := fn.Signature.Recv().Type()
	pt, isP := rt.(*types.Pointer)
	if !isP {
		return
	}
	n, isN := types.Unalias(pt.Elem()).(*types.Named)
	if !isN || n.Obj().Pkg() == nil {
		return
	}
	path := n.Obj().Pkg().Path()
	if path == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") || p.isSpinLock(n) {
		switch fn.Name() {
		case "Lock":
			return "W", "lock", true
		case "Unlock":
			return "W", "unlock", true
		case "RLock":
			return "R", "lock", true
		case "RUnlock":
			return "R", "unlock", true
		case "TryLock":
			return "W", "try", true
		case "TryRLock":
			return "R", "try", true
		}
	}
	return
}

// isSpinLock: a repository integer (or one-atomic-field struct) type with Lock
// and Unlock methods implemented with sync/atomic.
func (p *Program) isSpinLock(n *types.Named) bool {
	if !isRepoPkg(n.Obj().Pkg()) {
		return false
	}
	var lock, unlock *ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		switch n.Method(i).Name() {
		case "Lock":
			lock = p.SSA.FuncValue(n.Method(i))
		case "Unlock":
			unlock = p.SSA.FuncValue(n.Method(i))
		}
	}
	if lock == nil || unlock == nil {
		return false
	}
	return usesAtomic(lock) && usesAtomic(unlock)
}

func usesAtomic(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && extPkg(f) == "sync/atomic" {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) model(s *State, instr ssa.Instruction, fn *ssa.Function, d deferred, args []*Term, cont contKind) ([]*State, bool) {
	if fn.Synthetic == "package initializer" || fn.Name() == "init" && fn.Signature.Recv() == nil && !e.P.inRepo(fn) {
		e.finishCall(s, instr, nil, cont)
		return nil, true
	}
	if st, ok := e.intrinsic(s, instr, fn, args, cont); ok {
		return st, true
	}
	if mode, op, ok := e.P.lockMethod(fn); ok {
		switch op {
		case "lock":
			if e.busy(s, args[0], mode) {
				if cont == contDefer {
					s.top().defers = append(s.top().defers, d)
				}
				return e.blocked(s, instr), true
			}
			e.lock(s, instr, args[0], mode, cont)
		case "unlock":
			e.unlock(s, instr, args[0], mode, cont)
		case "try":
			n := s.clone()
			e.finishCall(n, instr, mkBool(false), cont)
			e.lock(s, instr, args[0], mode, contDiscard)
			e.finishCall(s, instr, mkBool(true), cont)
			return []*State{n, s}, true
		}
		e.finishCall(s, instr, nil, cont)
		return nil, true
	}
	if e.P.inRepo(fn) {
		if extPkg(fn) == modPath+"/monotime" && fn.Name() == "Now" && fn.Signature.Recv() == nil && len(s.stack) > 0 {
			now := fresh("now", "", fn.Signature.Results().At(0).Type(), nil)
			s.emit(&Event{Kind: "Clock", Name: "monotime.Now", Res: now})
			e.finishCall(s, instr, now, cont)
			return nil, true
		}
		return nil, false
	}
	name := extName(fn)
	pkg := extPkg(fn)
	switch pkg {
	case "sync":
		switch name {
		case "(*sync.Once).Do":
			return e.onceDo(s, instr, args[0], args[1], d, cont), true
		}
	case "sync/atomic":
		return e.atomic(s, instr, fn, args, cont), true
	}
	if fn.Signature.Recv() != nil && isBuilderPtr(fn.Signature.Recv().Type()) {
		if e.Opts.Out && e.outCall(s, instr, name, args, cont) {
			return nil, true
		}
		return e.builder(s, instr, fn, args, cont), true
	}
	return nil, false
}

func (e *Engine) lock(s *State, instr ssa.Instruction, l *Term, mode string, cont contKind) {
	e.secs++
	ev := &Event{Kind: "Lock", Addr: l, Name: mode, Sec: e.secs, Instr: instr, Defer: cont == contDefer, Local: s.isLocal(l)}
	s.emit(ev)
	if len(s.held) == 0 {
		s.release()
	} else {
		s.ver = s.nextVer()
	}
	pos := instr.Pos()
	s.held = append(s.held, Held{Lock: l, Mode: mode, Sec: e.secs, Pos: pos, T: s.top().t})
}

func (e *Engine) unlock(s *State, instr ssa.Instruction, l *Term, mode string, cont contKind) {
	idx := -1
	for i := len(s.held) - 1; i >= 0; i-- {
		if s.held[i].Lock == l && s.held[i].Mode == mode {
			idx = i
			break
		}
	}
	ev := &Event{Kind: "Unlock", Addr: l, Name: mode, Instr: instr, Defer: cont == contDefer, OK: idx >= 0}
	if idx >= 0 {
		ev.Sec = s.held[idx].Sec
	}
	ev.Mem = s.copyMem()
	s.emit(ev)
	if idx >= 0 {
		h := append([]Held(nil), s.held[:idx]...)
		s.held = append(h, s.held[idx+1:]...)
	}
	s.release()
}

func (e *Engine) onceDo(s *State, instr ssa.Instruction, once, f *Term, d deferred, cont contKind) []*State {
	if s.once[once] {
		e.finishCall(s, instr, nil, cont)
		return nil
	}
	for _, h := range s.held {
		if h.Lock == once && h.Mode == "oncerun" && h.T != s.top().t {
			if cont == contDefer {
				s.top().defers = append(s.top().defers, d)
			}
			return e.blocked(s, instr)
		}
	}
	s.emit(&Event{Kind: "OnceDo", Addr: once, Callee: f, Instr: instr, Defer: cont == contDefer})
	// one goroutine, and a Once this path made itself: it has not run yet
	_, mine := addrRoot(once).Obj.(*allocInfo)
	if root := addrRoot(once); e.Opts.Fresh && root.Op == "global" {
		mine = true
	}
	mine = mine && e.Opts.Seq
	done := s.clone()
	if mine {
		done.ended, done.how = true, "infeasible"
	}
	done.once[once] = true
	if len(done.held) == 0 {
		done.release()
	}
	done.emit(&Event{Kind: "OnceSkip", Addr: once, Instr: instr})
	e.finishCall(done, instr, nil, cont)
	// first caller
	s.held = append(s.held, Held{Lock: once, Mode: "oncerun", Pos: instr.Pos(), T: s.top().t})
	s.emit(&Event{Kind: "OnceRun", Addr: once, Instr: instr})
	var fn *ssa.Function
	var free []*Term
	switch f.Op {
	case "func":
		fn = f.Obj.(*ssa.Function)
	case "closure":
		fn = f.Obj.(*ssa.Function)
		free = f.Args
	}
	if fn == nil || fn.Blocks == nil {
		app, internal := e.origInfo(f, instr)
		ev := &Event{Kind: "App", Callee: f, App: app, Int: internal, Instr: instr}
		ev.Mem = s.copyMem()
		s.emit(ev)
		e.onceDone(s, &Frame{onceAddr: once})
		e.finishCall(s, instr, nil, cont)
		return []*State{done, s}
	}
	nf := e.push(s, fn, nil, free, instr)
	nf.cont = contOnce
	nf.onceAddr = once
	nf.isDefer = cont == contDefer
	return []*State{done, s}
}

func (e *Engine) onceDone(s *State, f *Frame) {
	for i := len(s.held) - 1; i >= 0; i-- {
		if s.held[i].Lock == f.onceAddr && s.held[i].Mode == "oncerun" {
			h := append([]Held(nil), s.held[:i]...)
			s.held = append(h, s.held[i+1:]...)
			break
		}
	}
	s.once[f.onceAddr] = true
	s.emit(&Event{Kind: "OnceDone", Addr: f.onceAddr})
}

func (e *Engine) atomic(s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) []*State {
	name := fn.Name()
	a := args[0]
	var typ types.Type
	res := fn.Signature.Results()
	base := name
	if fn.Signature.Recv() == nil {
		for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			if strings.HasPrefix(name, p) {
				base = p
				break
			}
		}
	}
	if i := strings.Index(base, "["); i >= 0 {
		base = base[:i]
	}
	// value type
	switch base {
	case "Load", "Swap", "Add", "And", "Or":
		typ = res.At(0).Type()
	default:
		ps := fn.Signature.Params()
		typ = ps.At(ps.Len() - 1).Type()
	}
	// raw pointers: use the pointed-to type of the address
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if pt, ok := a.Typ.Underlying().(*types.Pointer); ok {
			typ = pt.Elem()
		}
	}
	local := s.isLocal(a) && !e.sharedAlloc[addrRoot(a)]
	cur := func() *Term {
		if local {
			return s.read(a, typ)
		}
		return mkLoad(a, s.nextVer(), typ)
	}
	e.derefCheck(s, instr, a)
	switch base {
	case "Load":
		v := cur()
		s.emit(&Event{Kind: "AtomicLoad", Addr: a, Res: v, Instr: instr})
		e.finishCall(s, instr, v, cont)
	case "Store":
		s.emit(&Event{Kind: "AtomicStore", Addr: a, Val: args[1], Instr: instr, Local: local})
		if local {
			s.write(a, args[1], typ)
		} else {
			s.publish(args[1])
		}
		e.finishCall(s, instr, nil, cont)
	case "Add":
		old := cur()
		nw := mkAdd(old, args[1], typ)
		s.emit(&Event{Kind: "AtomicAdd", Addr: a, Old: old, Val: args[1], Res: nw, Instr: instr, Local: local})
		if local {
			s.write(a, nw, typ)
		}
		e.finishCall(s, instr, nw, cont)
	case "Swap":
		old := cur()
		s.emit(&Event{Kind: "AtomicSwap", Addr: a, Old: old, Val: args[1], Res: old, Instr: instr, Local: local})
		if local {
			s.write(a, args[1], typ)
		} else {
			s.publish(args[1])
		}
		e.finishCall(s, instr, old, cont)
	case "CompareAndSwap":
		old, nw := args[1], args[2]
		succ := func(s *State) {
			s.emit(&Event{Kind: "AtomicCAS", Addr: a, Old: old, Val: nw, OK: true, Instr: instr, Local: local})
			if local {
				s.write(a, nw, typ)
			} else {
				s.publish(nw)
			}
			e.finishCall(s, instr, mkBool(true), cont)
		}
		fail := func(s *State) {
			s.emit(&Event{Kind: "AtomicCAS", Addr: a, Old: old, Val: nw, OK: false, Instr: instr, Local: local})
			e.finishCall(s, instr, mkBool(false), cont)
		}
		if local {
			eq := e.eqTerm(s, s.read(a, typ), old, typ)
			if v, k := s.facts.truth(eq); k {
				if v {
					succ(s)
				} else {
					fail(s)
				}
				return nil
			}
			n := s.clone()
			n.facts.assume(eq, false)
			fail(n)
			s.facts.assume(eq, true)
			succ(s)
			return []*State{n, s}
		}
		n := s.clone()
		fail(n)
		succ(s)
		return []*State{n, s}
	default:
		r := e.freshResult(s, res, "atomicres", name)
		s.emit(&Event{Kind: "AtomicRMW", Addr: a, Name: name, Args: args[1:], Res: r, Instr: instr})
		if local {
			s.havoc(a)
		}
		e.finishCall(s, instr, r, cont)
	}
	return nil
}

func (e *Engine) builder(s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) []*State {
	S := types.Typ[types.String]
	c := contentAddr(args[0])
	get := func() *Term { return s.read(c, S) }
	local := s.isLocal(args[0])
	put := func(t *Term) {
		if !local {
			s.emit(&Event{Kind: "Write", Addr: c, Val: t, Instr: instr})
		}
		s.mem[c] = t
	}
	if !local {
		s.emit(&Event{Kind: "Read", Addr: c, Instr: instr})
	}
	n2 := func(l *Term) *Term { return mk("tuple", "", nil, nil, l, mkNil()) }
	switch fn.Name() {
	case "WriteString":
		put(mkCat(get(), args[1]))
		e.finishCall(s, instr, n2(mkLen(args[1])), cont)
	case "Write":
		put(mkCat(get(), e.convert(s, args[1], fn.Signature.Params().At(0).Type(), S)))
		e.finishCall(s, instr, n2(mkLen(args[1])), cont)
	case "WriteByte":
		x := mk("conv", "bytestr", S, nil, args[1])
		if n, ok := args[1].intVal(); ok {
			x = mkStr(string([]byte{byte(n)}))
		}
		put(mkCat(get(), x))
		e.finishCall(s, instr, mkNil(), cont)
	case "WriteRune":
		x := mk("conv", "string", S, nil, args[1])
		if n, ok := args[1].intVal(); ok {
			x = mkStr(string(rune(n)))
		}
		put(mkCat(get(), x))
		e.finishCall(s, instr, n2(mk("runelen", "", types.Typ[types.Int], nil, args[1])), cont)
	case "String":
		e.finishCall(s, instr, get(), cont)
	case "Bytes":
		e.finishCall(s, instr, mk("conv", "[]byte", fn.Signature.Results().At(0).Type(), nil, get()), cont)
	case "Len":
		e.finishCall(s, instr, mkLen(get()), cont)
	case "Reset":
		put(mkStr(""))
		e.finishCall(s, instr, nil, cont)
	case "Grow":
		e.finishCall(s, instr, nil, cont)
	default:
		r := e.freshResult(s, fn.Signature.Results(), "extres", fn.Name())
		s.emit(&Event{Kind: "Ext", Name: extName(fn), Args: args, Res: r, Instr: instr})
		s.mem[c] = mkLoad(c, s.nextVer(), S)
		e.finishCall(s, instr, r, cont)
	}
	return nil
}

func sliceBase(t *Term) *Term {
	for t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

// copyConst performs a copy between ranges of known constant length.
func (e *Engine) copyConst(s *State, dst, src *Term) *Term {
	if isStringType(src.Typ) || dst.Op != "slice" || src.Op != "slice" || len(dst.Args) < 3 || len(src.Args) < 3 {
		return nil
	}
	I := types.Typ[types.Int]
	n1, ok1 := mkSub(dst.Args[2], dst.Args[1], I).intVal()
	n2, ok2 := mkSub(src.Args[2], src.Args[1], I).intVal()
	if !ok1 || !ok2 {
		return nil
	}
	n := min(n1, n2)
	st, ok := dst.Typ.Underlying().(*types.Slice)
	if !ok || n < 0 || n > 256 {
		return nil
	}
	et := st.Elem()
	vals := make([]*Term, n)
	for i := range vals {
		vals[i] = s.read(e.elemAddr(s, src, mkInt(int64(i)), et), et)
	}
	for i, v := range vals {
		s.write(e.elemAddr(s, dst, mkInt(int64(i)), et), v, et)
	}
	return mkInt(n)
}

// short: a sequence known to have at most one element.
func (e *Engine) short(s *State, x *Term) bool {
	if x.Op == "iface" {
		x = x.Args[0]
	}
	for x.Op == "conv" {
		x = x.Args[0]
	}
	es, ok := e.knownElems(s, x)
	return ok && len(es) <= 1
}

// knownLen is the number of entries of a new map all of whose entries are
// known and different.
func (e *Engine) knownLen(s *State, x *Term) (int, bool) {
	keys, ok := e.mapKeys(s, x)
	return len(keys), ok
}

// mapKeys are the keys of a new map all of whose entries are known and
// different.
func (e *Engine) mapKeys(s *State, x *Term) ([]*Term, bool) {
	if !e.Opts.Spec || x.Op != "map" || e.sharedAlloc[x] {
		return nil, false
	}
	if _, ok := s.markOf(x); ok {
		return nil, false
	}
	if _, ok := s.copies[x]; ok {
		return nil, false
	}
	var keys []*Term
	for a, v := range s.mem {
		if a.Op != "mh" || a.Args[0] != x {
			continue
		}
		b, known := s.facts.truth(v)
		if !known {
			return nil, false
		}
		if b {
			keys = append(keys, a.Args[1])
		}
	}
	for i, a := range keys {
		for _, b := range keys[:i] {
			if v, known := s.facts.eqTruth(a, b); !known || v {
				if c, k := s.facts.truth(mkEq(a, b, a.Typ)); !k || c {
					return nil, false
				}
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	return keys, true
}

// foldPure computes functions of the standard library on constants.
func foldPure(name string, args []*Term) *Term {
	str := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		return args[i].strVal()
	}
	a, ok := str(0)
	if !ok {
		return nil
	}
	switch name {
	case "strings.IndexByte", "strings.IndexRune":
		if n, ok := args[1].intVal(); ok {
			return mkInt(int64(strings.IndexRune(a, rune(n))))
		}
	case "strings.ToLower":
		return mkStr(strings.ToLower(a))
	case "strings.ToUpper":
		return mkStr(strings.ToUpper(a))
	case "strings.TrimSpace":
		return mkStr(strings.TrimSpace(a))
	case "path.Clean":
		return mkStr(path.Clean(a))
	case "path.Base":
		return mkStr(path.Base(a))
	case "strconv.ParseBool":
		if b, err := strconv.ParseBool(a); err == nil {
			return mk("tuple", "", nil, nil, mkBool(b), mkNil())
		}
	}
	b, ok := str(1)
	if !ok {
		return nil
	}
	switch name {
	case "strings.Contains":
		return mkBool(strings.Contains(a, b))
	case "strings.ContainsAny":
		return mkBool(strings.ContainsAny(a, b))
	case "strings.Index":
		return mkInt(int64(strings.Index(a, b)))
	case "strings.IndexAny":
		return mkInt(int64(strings.IndexAny(a, b)))
	case "strings.HasPrefix":
		return mkBool(strings.HasPrefix(a, b))
	case "strings.HasSuffix":
		return mkBool(strings.HasSuffix(a, b))
	case "strings.TrimPrefix":
		return mkStr(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix":
		return mkStr(strings.TrimSuffix(a, b))
	case "strings.Trim":
		return mkStr(strings.Trim(a, b))
	case "strings.TrimLeft":
		return mkStr(strings.TrimLeft(a, b))
	case "strings.TrimRight":
		return mkStr(strings.TrimRight(a, b))
	case "strings.LastIndex":
		return mkInt(int64(strings.LastIndex(a, b)))
	case "strings.Count":
		return mkInt(int64(strings.Count(a, b)))
	case "strings.EqualFold":
		return mkBool(strings.EqualFold(a, b))
	}
	return nil
}

// sortCall analyses sorting two or three known elements as the comparisons and
// exchanges it consists of.
func (e *Engine) sortCall(s *State, instr ssa.Instruction, name string, args []*Term, cont contKind) bool {
	var fn string
	switch name {
	case "sort.Sort", "sort.Stable":
		fn = "sortIface"
	case "sort.Slice", "sort.SliceStable":
		fn = "sortSlice"
	case "sort.Strings":
		fn = "sortStrings"
	default:
		return false
	}
	x := args[0]
	if x.Op == "iface" {
		x = x.Args[0]
	}
	for x.Op == "conv" {
		x = x.Args[0]
	}
	es, ok := e.knownElems(s, x)
	if !ok || len(es) > 3 {
		return false
	}
	return e.redirect(s, instr, fn, append(append([]*Term(nil), args...), mkInt(int64(len(es)))), cont)
}
