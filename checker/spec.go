package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Contract drivers: Go functions over the exported API that state what must be
// true after which calls. They are type-checked together with the repository
// and analysed, never run: every parameter is an arbitrary value, assert must be
// implied by the facts of every path partition that reaches it.

//go:embed spec
var specFS embed.FS

const specPkg = "zzverifspec"

// specOverlay maps the driver files into the module under analysis.
func specOverlay(dir string) map[string][]byte {
	m := map[string][]byte{}
	ents, _ := specFS.ReadDir("spec")
	for _, e := range ents {
		b, err := specFS.ReadFile("spec/" + e.Name())
		if err == nil {
			m[filepath.Join(dir, specPkg, e.Name())] = b
		}
	}
	return m
}

func isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/"+specPkg
}

// intrinsic executes the vocabulary of the drivers.
func (e *Engine) intrinsic(s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) ([]*State, bool) {
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/"+specPkg || fn.Parent() != nil {
		return nil, false
	}
	done := func(r *Term) ([]*State, bool) {
		e.finishCall(s, instr, r, cont)
		return nil, true
	}
	switch fn.Name() {
	case "assert":
		what, _ := args[1].strVal()
		v, k := s.facts.truth(args[0])
		s.emit(&Event{Kind: "Assert", Name: what, Val: args[0], OK: k && v, Instr: instr})
		if !k {
			// reported; the path goes on as if it held
			if !s.facts.assume(args[0], true) {
				s.ended, s.how = true, "infeasible"
			}
		}
		return done(nil)
	case "assume":
		if v, k := s.facts.truth(args[0]); k && !v || !k && !s.facts.assume(args[0], true) {
			s.ended, s.how = true, "infeasible"
			return nil, true
		}
		return done(nil)
	case "mark":
		return done(mkInt(int64(len(s.events))))
	case "elapsed":
		return done(mkBool(e.isElapsed(s, args)))
	case "clockIn":
		lo, ok1 := args[1].intVal()
		hi, ok2 := args[2].intVal()
		ok := false
		for i := lo; ok1 && ok2 && i < hi && i < int64(len(s.events)); i++ {
			if ev := s.events[i]; ev.Kind == "Clock" && ev.Res == args[0] {
				ok = true
			}
		}
		return done(mkBool(ok))
	case "errname":
		return done(mk("pure", "errname", types.Typ[types.String], nil, args[0]))
	case "isSum":
		x, a, b := unwrap(args[0]), unwrap(args[1]), unwrap(args[2])
		ok := eqv(s.facts, x, mkAdd(a, b, types.Typ[types.Int64]))
		if !ok {
			f := types.Typ[types.Float64]
			ok = eqv(s.facts, args[0], e.binop(s, addTok, args[1], args[2], f, f)) || eqv(s.facts, args[0], e.binop(s, addTok, args[2], args[1], f, f))
		}
		return done(mkBool(ok))
	case "isInt":
		return done(mkBool(eqv(s.facts, wholeNumber(args[0]), args[1])))
	case "swapElems":
		x := args[0]
		if x.Op == "iface" {
			x = x.Args[0]
		}
		for x.Op == "conv" {
			x = x.Args[0]
		}
		if es, ok := e.knownElems(s, x); ok {
			i, _ := args[1].intVal()
			j, _ := args[2].intVal()
			if st, ok := x.Typ.Underlying().(*types.Slice); ok && int(i) < len(es) && int(j) < len(es) {
				s.mem[e.elemAddr(s, x, args[1], st.Elem())] = es[j]
				s.mem[e.elemAddr(s, x, args[2], st.Elem())] = es[i]
			}
		}
		return done(nil)
	case "isVal":
		return done(mkBool(args[0] == args[1] || eqv(s.facts, args[0], args[1])))
	case "identical":
		a, b := unIface(args[0]), unIface(args[1])
		return done(mkBool(a == b || eqv(s.facts, a, b)))
	case "resume", "runThreads":
		if !e.resume(s, instr, fn.Name() == "resume") {
			return done(nil)
		}
		return nil, true
	case "park":
		e.finishCall(s, instr, nil, cont)
		if len(s.run) > 0 {
			e.suspend(s)
		}
		return nil, true
	case "threads":
		n := 0
		for _, th := range s.threads {
			if !th.done {
				n++
			}
		}
		return done(mkInt(int64(n)))
	case "inThread":
		return done(mkBool(len(s.run) > 0 && s.top().t > 0 && s.top().t < 1000))
	case "encodable":
		x := args[0]
		return done(mkBool(x.Op == "iface" && e.encodable(s, x, nil, 0) || x.isNil()))
	case "jsonText":
		return done(mk("pure", "json", types.Typ[types.String], nil, e.deepVal(s, args[0], 0)))
	case "jsonField":
		r := e.jsonField(s, args[0], args[1])
		if r == nil {
			r = mkNil()
		}
		return done(r)
	case "jsonLen":
		if el, ok := e.jsonElems(s, args[0]); ok {
			return done(mkInt(int64(len(el))))
		}
		return done(mkInt(-1))
	case "jsonAt":
		i, _ := args[1].intVal()
		if el, ok := e.jsonElems(s, args[0]); ok && int(i) < len(el) && i >= 0 {
			return done(el[i])
		}
		return done(mkNil())
	case "jsonList":
		ok := false
		if es, k := e.knownElems(s, args[1]); k {
			ok = isJSONList(args[0], es)
			if !ok && os.Getenv("MC_JSON") != "" {
				fmt.Fprintln(os.Stderr, "JSON", args[0], "\nWANT", es)
			}
		}
		return done(mkBool(ok))
	case "sameText":
		if args[0] != args[1] && os.Getenv("MC_JSON") != "" {
			fmt.Fprintln(os.Stderr, "TEXT", args[0], "\nWANT", args[1])
		}
		return done(mkBool(sameShape(args[0], args[1])))
	case "linkCount", "linkAt":
		text, _ := args[0].strVal()
		l := hrefRE.FindAllStringSubmatch(text, -1)
		if fn.Name() == "linkCount" {
			return done(mkInt(int64(len(l))))
		}
		i, _ := args[1].intVal()
		link, _, _ := strings.Cut(l[i][1], "?")
		return done(mkStr(strings.TrimPrefix(link, "./")))
	case "leftIn":
		pkg, _ := args[1].strVal()
		return done(mkBool(e.leftIn(s, args[0], modPath+"/"+pkg)))
	case "isTotalOf":
		return done(mkBool(e.isTotalOf(s, args[0], args[1])))
	case "unreachable":
		s.emit(&Event{Kind: "Assert", Name: "must not get here", Val: mkBool(false), OK: false, Instr: instr})
		return done(nil)
	}
	return nil, false
}

// sameShape: the same terms, results of the same loops taken for the same.
func sameShape(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != b.Op {
		return false
	}
	if a.Op == "loopvar" {
		x, _, _ := strings.Cut(a.Aux, "#")
		y, _, _ := strings.Cut(b.Aux, "#")
		return x == y
	}
	if a.Aux != b.Aux {
		return false
	}
	if len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	for i := range a.Args {
		if !sameShape(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

var hrefRE = regexp.MustCompile(`href\s*=\s*["']([^"':#]*)["']`)

// isElapsed says whether a duration is the difference of two readings of the
// monotonic source, the first taken between the marks 1 and 2, the second
// between 3 and 4.
func (e *Engine) isElapsed(s *State, args []*Term) bool {
	d := args[0]
	for d.Op == "conv" {
		d = d.Args[0]
	}
	if d.Op != "tsub" {
		return false
	}
	at := func(now *Term, lo, hi *Term) bool {
		l, ok1 := lo.intVal()
		h, ok2 := hi.intVal()
		if !ok1 || !ok2 {
			return false
		}
		for i := l; i < h && i < int64(len(s.events)); i++ {
			if ev := s.events[i]; ev.Kind == "Clock" && ev.Res == now {
				return true
			}
		}
		return false
	}
	return at(d.Args[1], args[1], args[2]) && at(d.Args[0], args[3], args[4])
}

// srcOf follows copies of a map to the map they were made from.
func (s *State) srcOf(m *Term) *Term {
	for i := 0; i < 10; i++ {
		c, ok := s.copies[m]
		if !ok {
			return m
		}
		m = c.src
	}
	return m
}

// isTotalOf says whether x is the sum of all values of a map: a running total
// that starts at zero and grows by every visited value.
func (e *Engine) isTotalOf(s *State, x, m *Term) bool {
	x = unwrap(x)
	if x.Op != "loopvar" {
		return false
	}
	li, _ := x.Obj.(*LoopInfo)
	if li == nil || len(li.Iters) == 0 {
		return false
	}
	if n, ok := unwrap(li.Init[x]).intVal(); !ok || n != 0 {
		return false
	}
	for i, b := range li.Iters {
		var val *Term
		for _, ev := range b.events[min(li.Base, len(b.events)):] {
			if ev.Kind == "RangeNext" && s.srcOf(ev.Addr) == s.srcOf(m) {
				if val != nil {
					return false
				}
				val = ev.Args[1]
			}
		}
		if val == nil || i >= len(li.Back[x]) {
			return false
		}
		if b := li.Back[x][i]; b != mkAdd(x, val, types.Typ[types.Int64]) && b != e.binop(s, addTok, x, val, x.Typ, x.Typ) {
			return false
		}
	}
	for _, l := range li.Leaves {
		for _, ev := range l.events {
			if ev.Kind == "LoopLeave" && ev.Loop == li && ev.Name != "header" {
				return false
			}
		}
	}
	return true
}

// specModel replaces calls whose effect another check establishes.
type specModel func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool

// baseState is the state after package initialisation, with what changes later
// forgotten.
func (e *Engine) baseState() *State {
	s := e.newState()
	var paths []string
	for p := range e.P.SSAPkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	mem := map[*Term]*Term{}
	for _, p := range paths {
		init := e.P.SSAPkgs[p].Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		ie := newEngine(e.P, Opts{Seq: true, NoReads: true, Reflect: e.Opts.Reflect, Zero: e.P.SSAPkgs[p]})
		ps, err := ie.Run(init, RunOpt{Init: func(s *State) {
			if g := e.P.SSAPkgs[p].Var("init$guard"); g != nil {
				s.mem[globalTerm(g)] = mkBool(false)
			}
		}})
		if err != nil || len(ps) == 0 {
			continue
		}
		// cells all paths agree on
		for a, v := range ps[0].mem {
			same := true
			for _, q := range ps[1:] {
				if w, ok := q.mem[a]; !ok || w != v {
					same = false
				}
			}
			if same && !strings.Contains(a.Aux, "init$guard") {
				mem[a] = v
			}
		}
		if e.Opts.Fresh {
			for _, q := range ps {
				for a := range q.mem {
					if _, ok := mem[a]; !ok && addrRoot(a).Op == "global" && !strings.Contains(a.Aux, "init$guard") {
						mem[a] = mkLoad(a, 0, pointee(a))
					}
				}
			}
		}
		for t, v := range ps[0].facts.b {
			if len(ps) == 1 {
				s.facts.b[t] = v
			}
		}
	}
	for a, v := range mem {
		root := addrRoot(a)
		if !e.Opts.Fresh && root.Op == "global" && (s.isMutable(a) || anyTerm(v, func(t *Term) bool { return t.Op == "load" && s.isMutable(t.Args[0]) })) {
			continue
		}
		s.mem[a] = v
	}
	return s
}

// Spec analyses the drivers of a property (functions whose name starts with its
// id) and checks every assertion.
func (c *Ctx) Spec(rule, name string, o Opts) []*State {
	sp := c.P.SSAPkgs[modPath+"/"+specPkg]
	if sp == nil {
		c.FailAt("-", "load", "", "contract drivers not loaded")
		return nil
	}
	fn := sp.Func(name)
	if fn == nil {
		c.FailAt("-", "load", "", "no contract driver %s", name)
		return nil
	}
	t0 := time.Now()
	e := newEngine(c.P, o)
	if c.base == nil || c.baseP != c.P || c.base.e.Opts.Fresh != o.Fresh {
		c.base, c.baseP = e.baseState(), c.P
	}
	s := c.base.clone()
	s.e = e
	// pointers to the library's types are given; nil is a case a driver names
	for i, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && isRepoType(pt.Elem()) {
			t := paramTerm(fn, i)
			s.facts.assume(mkEq(t, mkNil(), p.Type()), false)
		}
	}
	paths, err := e.runFrom(s, fn, RunOpt{})
	if err != nil {
		c.Fail(fn.Pos(), "analysis", "%v", err)
		return nil
	}
	for f := range e.fnSeen {
		if !isSpecFn(f) {
			c.funcs[fnName(f)] = true
		}
	}
	c.npaths += len(paths)
	if os.Getenv("MC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d paths, %d steps, %v\n", name, len(paths), e.steps, time.Since(t0))
	}
	c.checkAsserts(rule, fn, paths)
	return paths
}

func (c *Ctx) checkAsserts(rule string, fn *ssa.Function, paths []*State) {
	reached := map[ssa.Instruction]bool{}
	n := 0
	for _, s := range paths {
		if s.how == "infeasible" {
			continue
		}
		c.P.eachEvents(s, func(evs []*Event) {
			for _, ev := range evs {
				if ev.Kind == "NilDeref" && ev.Fn != nil && !isSpecFn(ev.Fn) {
					c.FailPath(ev.Pos(), rule, s, "%s: dereferences nil", strings.TrimPrefix(fn.Name(), c.ID+"_"))
				}
				if ev.Kind == "Assert" {
					reached[ev.Instr] = true
					c.Count(rule, 1)
					if !ev.OK {
						c.FailPath(c.specPos(evs, ev), rule, s, "%s: not always so: %s", strings.TrimPrefix(fn.Name(), c.ID+"_"), ev.Name)
					}
				}
			}
		})
		switch s.how {
		case "return":
			n++
		case "panic":
			c.FailPath(c.lastRepoPos(s), rule, s, "%s: panics with %v", fn.Name(), s.panicV)
		case "forever", "blocked":
			c.FailPath(c.lastRepoPos(s), rule, s, "%s: does not end (%s)", fn.Name(), s.how)
		}
	}
	if n == 0 {
		c.FailAt("-", rule, "", "%s: no execution of the driver is possible any more", fn.Name())
	}
	// every assertion must be reached on some path
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && isSpecFn(g) && g.Name() == "assert" && !reached[in] {
						c.FailAt(c.P.Pos(in.Pos()), rule, "", "%s: the code this assertion is about is never reached", fn.Name())
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
}

// specPos finds the last repository instruction before an assertion.
func (c *Ctx) specPos(evs []*Event, at *Event) (pos tokenPos) {
	pos = at.Pos()
	for _, ev := range evs {
		if ev == at {
			break
		}
		if ev.Fn != nil && !isSpecFn(ev.Fn) && (ev.Kind == "Write" || ev.Kind == "MapWrite" || strings.HasPrefix(ev.Kind, "Atomic")) {
			pos = ev.Pos()
		}
	}
	return
}

func (c *Ctx) lastRepoPos(s *State) (pos tokenPos) {
	for _, ev := range s.events {
		if ev.Fn != nil && !isSpecFn(ev.Fn) {
			pos = ev.Pos()
		}
	}
	return
}

// SpecAll runs every driver of the property.
func (c *Ctx) SpecAll(rule string, o Opts) {
	sp := c.P.SSAPkgs[modPath+"/"+specPkg]
	if sp == nil {
		c.FailAt("-", "load", "", "contract drivers not loaded")
		return
	}
	var names []string
	for n := range sp.Members {
		if strings.HasPrefix(n, c.ID+"_") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		c.Spec(rule, n, o)
	}
	_ = fmt.Sprint
}
