package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Opts tunes the abstraction.
type Opts struct {
	Seq       bool // the analysed object is used by one goroutine (documented as not threadsafe)
	AppPanics bool // application code may panic
	NoInline  func(fn *ssa.Function) bool
	Summ      func(fn *ssa.Function) bool // calls replaced by the set of cells they change
	MaxSteps  int
	NoReads   bool                      // do not record Read events
	Hook      func(s *State, ev *Event) // called for every event, in the state at that point
	Spec      bool                      // analysing a contract driver
	Known     bool                      // iterate maps whose entries are all known entry by entry
	Model     specModel                 // replaces calls whose effect another check establishes
	Intr      func(*ssa.Function) bool  // where other activity may come in between
	Out       bool                      // what is written is composed and handed to the writer
	Zero      *ssa.Package              // its package variables start with their zero values
	Reflect   bool                      // package reflect is modelled, on known types
	Fresh     bool                      // package variables of the repository start with their initial values
	Sort      bool                      // sorting a few known elements is analysed as comparisons and exchanges
	Join      bool                      // merge the partitions of a callee when it returns; events become a bag
}

// Engine is the path-sensitive interprocedural dataflow analysis.
type Engine struct {
	P           *Program
	Opts        Opts
	sharedAlloc map[*Term]bool
	loopID      int
	steps       int
	acts        int
	secs        int
	Problems    []string
	fnSeen      map[*ssa.Function]bool
	paths       int
}

type budgetError struct{ what string }

func newEngine(p *Program, o Opts) *Engine {
	if o.MaxSteps == 0 {
		o.MaxSteps = 3000000
	}
	return &Engine{P: p, Opts: o, sharedAlloc: map[*Term]bool{}, fnSeen: map[*ssa.Function]bool{}}
}

func (e *Engine) problem(format string, a ...any) {
	m := fmt.Sprintf(format, a...)
	for _, x := range e.Problems {
		if x == m {
			return
		}
	}
	e.Problems = append(e.Problems, m)
}

func paramTerm(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	return mk("param", p.Name()+":"+strconv.Itoa(i)+":"+typeKey(p.Type()), p.Type(), p)
}

func (e *Engine) newState() *State {
	return &State{e: e, mem: map[*Term]*Term{}, mark: map[*Term]int{}, facts: newFacts(), once: map[*Term]bool{}, pub: map[*Term]bool{}}
}

// RunOpt customises one analysis root.
type RunOpt struct {
	Args     []*Term
	Init     func(s *State)
	Free     []*Term
	Panicked *Term // the function runs deferred while this value is panicking
	Deferred bool
}

// Run analyses a function from a general entry state and returns one State per
// abstract path partition.
func (e *Engine) Run(fn *ssa.Function, ro RunOpt) (out []*State, err error) {
	s := e.newState()
	return e.runFrom(s, fn, ro)
}

func (e *Engine) runFrom(s *State, fn *ssa.Function, ro RunOpt) (out []*State, err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetError); ok {
				err = fmt.Errorf("analysis of %s too complex: %s", fnName(fn), b.what)
				return
			}
			panic(r)
		}
	}()
	if fn == nil || fn.Blocks == nil {
		return nil, fmt.Errorf("no body for %v", fn)
	}
	e.steps = 0
	args := ro.Args
	if args == nil {
		for i := range fn.Params {
			args = append(args, paramTerm(fn, i))
		}
	}
	free := ro.Free
	if free == nil {
		for i := range fn.FreeVars {
			free = append(free, e.freeVarTerm(fn, i))
		}
	}
	if ro.Init != nil {
		ro.Init(s)
	}
	f := e.push(s, fn, args, free, nil)
	f.isDefer = ro.Deferred || ro.Panicked != nil
	if ro.Panicked != nil {
		s.panics = append(s.panics, panicRec{val: ro.Panicked})
		f.pdepth = 1
		f.cont = contDefer
	}
	exits, _, ends := e.explore([]*State{s}, nil)
	out = append(ends, exits...)
	e.paths += len(out)
	return out, nil
}

// freeVarTerm binds a captured variable of a closure analysed on its own to an
// abstract shared cell named after the captured variable.
func (e *Engine) freeVarTerm(fn *ssa.Function, i int) *Term {
	fv := fn.FreeVars[i]
	b := bindingOf(fn, i)
	if b != nil {
		switch b := b.(type) {
		case *ssa.Alloc:
			t := mk("alloc", "shared:"+e.P.siteOf(b), b.Type(), &allocInfo{site: e.P.siteOf(b), instr: b})
			e.sharedAlloc[t] = true
			return t
		case *ssa.FreeVar:
			for j, q := range fn.Parent().FreeVars {
				if q == b {
					return e.freeVarTerm(fn.Parent(), j)
				}
			}
		}
	}
	return mk("param", fv.Name()+":free:"+fn.String(), fv.Type(), fv)
}

// bindingOf finds the value captured as the i-th free variable.
func bindingOf(fn *ssa.Function, i int) ssa.Value {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

func (p *Program) siteOf(in ssa.Instruction) string {
	name := ""
	if a, ok := in.(*ssa.Alloc); ok {
		name = a.Comment
	}
	fn := in.Parent()
	idx := 0
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if x == in {
				return fnName(fn) + "." + name + "/" + strconv.Itoa(idx)
			}
			idx++
		}
	}
	return fnName(fn) + "." + name
}

func (e *Engine) push(s *State, fn *ssa.Function, args, free []*Term, call ssa.Instruction) *Frame {
	fi := infoOf(fn)
	f := &Frame{fn: fn, block: fn.Blocks[0], env: make([]*Term, fi.n), call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[fi.idx[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			f.env[fi.idx[p]] = free[i]
		}
	}
	e.fnSeen[fn] = true
	if len(s.stack) > 0 {
		f.t = s.top().t
	}
	s.stack = append(s.stack, f)
	s.start = true
	return f
}

// ---- exploration ----

func (e *Engine) explore(work []*State, run *loopRun) (exits, backs, ends []*State) {
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.ended {
				ends = append(ends, s)
				break
			}
			if run != nil {
				if len(s.stack)-1 < run.depth || run.def != nil && s.stack[run.depth].unwind {
					exits = append(exits, s)
					break
				}
			}
			f := s.top()
			if s.start {
				depth := len(s.stack) - 1
				if run != nil && run.def != nil && depth == run.depth {
					if f.block == run.def.header && !s.enter {
						backs = append(backs, s)
						break
					}
					if !run.def.blocks[f.block] {
						exits = append(exits, s)
						break
					}
				}
				if !s.enter {
					if ld := e.P.loopsOf(f.fn).headers[f.block]; ld != nil {
						ex, en := e.enterLoop(s, ld)
						ends = append(ends, en...)
						work = append(work, ex...)
						break
					}
				}
				s.enter = false
				s.start = false
				e.phis(s, f)
			}
			e.steps++
			if e.steps > e.Opts.MaxSteps {
				panic(budgetError{"step budget exceeded"})
			}
			next := e.step(s, run)
			if next == nil {
				continue
			}
			work = append(work, next...)
			if len(work) > 20000 {
				panic(budgetError{"too many partitions"})
			}
			break
		}
	}
	return
}

func (e *Engine) phis(s *State, f *Frame) {
	fi := infoOf(f.fn)
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range f.block.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pi := -1
		for i, p := range f.block.Preds {
			if p == f.prev {
				pi = i
			}
		}
		if pi < 0 {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(s, f, ph.Edges[pi]))
	}
	if f.prev != nil {
		for i, ph := range phis {
			f.env[fi.idx[ph]] = vals[i]
		}
	}
	n := 0
	for _, in := range f.block.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	f.pc = n
	_ = vals
}

// loopDep: does the term depend on anything created after stamp?
func loopDep(t *Term, stamp int) bool {
	if t == nil {
		return false
	}
	if t.F > stamp {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.F > stamp {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (e *Engine) enterLoop(s *State, ld *loopDef) (exits, ends []*State) {
	depth := len(s.stack) - 1
	// 1. constant trip count
	if _, isIf := lastInstr(ld.header).(*ssa.If); isIf {
		cur := []*State{s.clone()}
		var accE, accEnd []*State
		saveSteps := e.steps
		ok := true
		limit := 8
		if e.Opts.Out || e.Opts.Reflect {
			limit = 400
		} else if e.Opts.Intr != nil {
			limit = 64
		}
		for n := 0; len(cur) > 0; n++ {
			if n > 70 && !(e.Opts.Reflect && n < 300) || len(cur) > limit {
				ok = false
				break
			}
			run := &loopRun{def: ld, depth: depth}
			for _, c := range cur {
				c.enter = true
			}
			ex, ba, en := e.exploreUnroll(cur, run)
			if run.undecided {
				ok = false
				break
			}
			accE = append(accE, ex...)
			accEnd = append(accEnd, en...)
			cur = ba
		}
		if ok {
			return accE, accEnd
		}
		e.steps = saveSteps
		if os.Getenv("MC_LOOPS") != "" && e.Opts.Spec {
			fmt.Fprintln(os.Stderr, "loop not unrolled:", e.P.Pos(lastInstr(ld.header).Pos()), ld.header.Parent(), len(cur))
		}
	}
	if e.Opts.Spec {
		rounds := 3
		if _, isIf := lastInstr(ld.header).(*ssa.If); isIf {
			rounds = 1
		}
		// a loop left from its body: when every way through ends within a few
		// rounds, these are all the ways there are
		cur := []*State{s.clone()}
		var accE, accEnd []*State
		saveSteps := e.steps
		for n := 0; n < rounds && len(cur) > 0; n++ {
			run := &loopRun{def: ld, depth: depth}
			for _, c := range cur {
				c.enter = true
			}
			ex, ba, en := e.explore(cur, run)
			accE = append(accE, ex...)
			accEnd = append(accEnd, en...)
			cur = ba
		}
		if len(cur) == 0 {
			return accE, accEnd
		}
		e.steps = saveSteps
	}
	// 2. any number of iterations: widen everything the body changes
	e.loopID++
	f := s.top()
	fi := infoOf(f.fn)
	stamp := freshCounter
	info := &LoopInfo{ID: e.loopID, Header: ld.header, Fn: f.fn, Init: map[*Term]*Term{}, Back: map[*Term][]*Term{}, Where: map[*Term]*Term{}, Base: len(s.events) + 1, Entry: s}
	type phiVar struct {
		ph   *ssa.Phi
		v    *Term
		init *Term
	}
	var pvs []phiVar
	for _, in := range ld.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		pi := -1
		for i, p := range ld.header.Preds {
			if p == f.prev {
				pi = i
			}
		}
		if pi < 0 {
			continue
		}
		init := e.val(s, f, ph.Edges[pi])
		v := fresh("loopvar", ph.Comment, ph.Type(), info)
		pvs = append(pvs, phiVar{ph, v, init})
		info.Init[v] = init
	}
	memVar := map[*Term]*Term{}
	dropped := map[*Term]bool{}
	marks := map[*Term]int{}
	pubs := map[*Term]bool{}
	verBump := false
	type mono struct {
		v  *Term
		up bool
	}
	var monos []mono
	nonnil := map[*Term]bool{}
	phase := 0
	var backs []*State
	for round := 0; ; round++ {
		if round > 40 {
			panic(budgetError{"loop does not stabilise at " + e.P.Pos(posOfBlock(ld.header))})
		}
		st := s.clone()
		if verBump {
			st.ver = st.nextVer()
		}
		for a := range dropped {
			delete(st.mem, a)
		}
		for a, v := range marks {
			st.mark[a] = v
			for b := range st.mem {
				if under(b, a) {
					delete(st.mem, b)
				}
			}
		}
		for a, v := range memVar {
			st.mem[a] = v
		}
		for a := range pubs {
			st.pub[a] = true
		}
		info.Entry = st
		ev := &Event{Kind: "LoopEnter", Loop: info}
		st.emit(ev)
		g := st.top()
		for _, pv := range pvs {
			g.env[fi.idx[pv.ph]] = pv.v
		}
		g.prev = nil
		for _, m := range monos {
			if m.up {
				st.facts.assume(mkLeInt(info.Init[m.v], m.v), true)
			} else {
				st.facts.assume(mkLeInt(m.v, info.Init[m.v]), true)
			}
		}
		for v := range nonnil {
			st.facts.assume(mkEq(v, mkNil(), types.Typ[types.UnsafePointer]), false)
		}
		probe := st.clone()
		st.enter = true
		run := &loopRun{def: ld, depth: depth, info: info}
		exits, backs, ends = e.explore([]*State{st}, run)
		// what changed?
		changed := false
		for _, b := range backs {
			if len(b.held) != len(s.held) {
				ev := &Event{Kind: "LoopHeld", Loop: info}
				b.emit(ev)
			}
			if b.ver != probe.ver && !verBump {
				verBump = true
				changed = true
			}
			for a, v := range b.mark {
				if loopDep(a, stamp) {
					continue
				}
				if pv, ok := probe.mark[a]; !ok || pv != v {
					if _, ok := marks[a]; !ok {
						marks[a] = probe.nextVer()
						changed = true
					}
				}
			}
			for a := range b.pub {
				if !loopDep(a, stamp) && !probe.pub[a] && !pubs[a] {
					pubs[a] = true
					changed = true
				}
			}
			for a := range probe.mem {
				if _, ok := b.mem[a]; !ok && !dropped[a] && memVar[a] == nil {
					dropped[a] = true
					changed = true
				}
			}
			for a, v := range b.mem {
				if _, ok := memVar[a]; ok {
					continue
				}
				if loopDep(a, stamp) {
					if pv, ok := probe.mem[a]; ok && pv == v {
						continue
					}
					if v.Op == "load" && v.Args[0] == a {
						continue // a cached read
					}
					if a.Op == "mh" && v.isTrue() && a.Args[1].Op == "rangekey" && a.Args[1].Args[0] == a.Args[0] {
						continue // an entry being visited is there
					}
					// largest enclosing address that does not depend on the iteration
					x := a
					for x != nil && loopDep(x, stamp) {
						switch x.Op {
						case "fa", "ea", "mv", "mh", "content", "slice":
							x = x.Args[0]
						default:
							x = nil
						}
					}
					if x != nil {
						if _, ok := marks[x]; !ok {
							marks[x] = probe.nextVer()
							changed = true
						}
					}
					continue
				}
				pv, ok := probe.mem[a]
				if ok && pv == v {
					continue
				}
				if !ok {
					if probe.clone().read(a, pointee(a)) == v {
						continue
					}
				}
				if v.Op == "load" && v.Args[0] == a && !ok {
					continue // cached read of shared memory
				}
				lv := fresh("loopvar", "mem", pointee(a), info)
				memVar[a] = lv
				info.Where[lv] = a
				init := s.clone().read(a, pointee(a))
				info.Init[lv] = init
				changed = true
			}
		}
		// values after one iteration
		info.Back = map[*Term][]*Term{}
		for _, b := range backs {
			bf := b.stack[depth]
			pi := -1
			for i, p := range ld.header.Preds {
				if p == bf.prev {
					pi = i
				}
			}
			for _, pv := range pvs {
				if pi >= 0 {
					info.Back[pv.v] = append(info.Back[pv.v], e.val(b, bf, pv.ph.Edges[pi]))
				}
			}
			for a, lv := range memVar {
				if x, ok := b.mem[a]; ok {
					info.Back[lv] = append(info.Back[lv], x)
				} else {
					info.Back[lv] = append(info.Back[lv], b.clone().read(a, pointee(a)))
				}
			}
		}
		if changed {
			monos = nil
			nonnil = map[*Term]bool{}
			phase = 0
			continue
		}
		var vars []*Term
		for _, pv := range pvs {
			vars = append(vars, pv.v)
		}
		for _, lv := range memVar {
			vars = append(vars, lv)
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
		if phase == 0 {
			for _, v := range vars {
				if isIntType(v.Typ) && len(info.Back[v]) > 0 {
					up, down := true, true
					for _, b := range info.Back[v] {
						d := mkSub(b, v, types.Typ[types.Int])
						n, ok := d.intVal()
						if !ok || n < 0 {
							up = false
						}
						if !ok || n > 0 {
							down = false
						}
					}
					if up {
						monos = append(monos, mono{v, true})
					} else if down {
						monos = append(monos, mono{v, false})
					}
				} else if !isIntType(v.Typ) && len(info.Back[v]) > 0 {
					ok := knownNonNil(s.facts, info.Init[v])
					for _, b := range info.Back[v] {
						ok = ok && (b == v || nonNil(b))
					}
					if ok && isNillable(v.Typ) {
						nonnil[v] = true
					}
				}
			}
			if len(monos) > 0 || len(nonnil) > 0 {
				phase = 1
				continue
			}
		}
		break
	}
	info.Iters = backs
	e.noteMapCopy(s, info, exits, ld, depth)
	if len(exits) == 0 && len(ends) == 0 && len(backs) > 0 {
		// the loop never ends
		x := backs[0].clone()
		x.ended = true
		x.how = "forever"
		ends = append(ends, x)
	}
	for _, x := range append(append([]*State(nil), exits...), ends...) {
		name := "body"
		if len(x.stack) > depth && !x.stack[depth].unwind && x.stack[depth].prev == ld.header {
			name = "header"
			// the key the iterator had no more of stands for nothing
			for a := range x.mem {
				if (a.Op == "mv" || a.Op == "mh") && a.Args[1].Op == "rangekey" && a.Args[1].F > stamp {
					delete(x.mem, a)
				}
			}
		}
		ev := &Event{Kind: "LoopLeave", Loop: info, Name: name, Fn: f.fn}
		ev.Held = x.heldNow()
		x.events = append(x.events[:len(x.events):len(x.events)], ev)
		info.Leaves = append(info.Leaves, x)
	}
	return exits, ends
}

// noteMapCopy recognises a loop that copies every entry of one map into a new
// one, so that the copy can be read.
func (e *Engine) noteMapCopy(s *State, info *LoopInfo, exits []*State, ld *loopDef, depth int) {
	if len(info.Iters) == 0 {
		return
	}
	e.noteMapClear(s, info, exits, ld, depth)
	var src, dst *Term
	for _, b := range info.Iters {
		var key, val, from *Term
		for _, ev := range b.events[min(info.Base, len(b.events)):] {
			if ev.Kind == "RangeNext" && len(ev.Sites) <= depth {
				if from != nil {
					return
				}
				from, key, val = ev.Addr, ev.Args[0], ev.Args[1]
			}
		}
		if from == nil || src != nil && from != src {
			return
		}
		src = from
		found := dst
		for a, v := range b.mem {
			if a.Op == "mv" && a.Args[1] == key && a.Args[0] != src && (v == val || e.mapValEq(v, val)) && isFreshObj(a.Args[0]) {
				if h, ok := b.mem[mapHas(a.Args[0], key)]; ok && h.isTrue() && (dst == nil || dst == a.Args[0]) {
					found = a.Args[0]
				}
			}
		}
		if found == nil {
			return
		}
		if dst == nil {
			dst = found
		}
		if h, ok := b.mem[mapHas(dst, key)]; !ok || !h.isTrue() {
			return
		}
		if v, ok := b.mem[mk("mv", "", nil, nil, dst, key)]; !ok || v != val {
			return
		}
	}
	// the new map was empty before
	for a := range s.mem {
		if (a.Op == "mv" || a.Op == "mh") && a.Args[0] == dst {
			return
		}
	}
	if _, ok := s.markOf(dst); ok {
		return
	}
	for _, x := range exits {
		if len(x.stack) <= depth || x.stack[depth].unwind || x.stack[depth].prev != ld.header {
			continue
		}
		m := map[*Term]mapCopy{}
		for k, v := range x.copies {
			m[k] = v
		}
		m[dst] = mapCopy{src: src, at: s, ver: x.mark[dst]}
		x.copies = m
	}
}

// noteMapClear recognises a loop that deletes every entry of a map.
func (e *Engine) noteMapClear(s *State, info *LoopInfo, exits []*State, ld *loopDef, depth int) {
	var src *Term
	for _, b := range info.Iters {
		var key, from *Term
		for _, ev := range b.events[min(info.Base, len(b.events)):] {
			if ev.Kind == "RangeNext" && len(ev.Sites) <= depth {
				if from != nil {
					return
				}
				from, key = ev.Addr, ev.Args[0]
			}
		}
		if from == nil || src != nil && from != src {
			return
		}
		src = from
		if h, ok := b.mem[mapHas(src, key)]; !ok || !h.isFalse() {
			return
		}
	}
	for _, x := range exits {
		if len(x.stack) <= depth || x.stack[depth].unwind || x.stack[depth].prev != ld.header {
			continue
		}
		x.setEmpty(src)
	}
}

// setEmpty records that a map has no entries.
func (s *State) setEmpty(m *Term) {
	for a := range s.mem {
		if (a.Op == "mv" || a.Op == "mh") && a.Args[0] == m {
			delete(s.mem, a)
		}
	}
	s.mark[m] = s.nextVer()
	n := map[*Term]mapCopy{}
	for k, v := range s.copies {
		n[k] = v
	}
	at := s.e.newState()
	n[m] = mapCopy{src: fresh("map", "empty", m.Typ, nil), at: at, ver: s.mark[m]}
	s.copies = n
}

func (e *Engine) mapValEq(a, b *Term) bool { return false }

func knownNonNil(f *Facts, t *Term) bool {
	if nonNil(t) {
		return true
	}
	v, k := f.truth(mkEq(t, mkNil(), types.Typ[types.UnsafePointer]))
	return k && !v
}

func isNillable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func under(b, a *Term) bool {
	for x := b; x != nil; {
		if x == a {
			return true
		}
		switch x.Op {
		case "fa", "ea", "mv", "mh", "content", "slice":
			x = x.Args[0]
		default:
			x = nil
		}
	}
	return false
}

// exploreUnroll is explore that gives up as soon as the loop test is undecided.
func (e *Engine) exploreUnroll(work []*State, run *loopRun) (exits, backs, ends []*State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(undecidedLoop); ok {
				run.undecided = true
				return
			}
			panic(r)
		}
	}()
	run.condTerm = mkBool(true) // marks unrolling
	return e.explore(work, run)
}

type undecidedLoop struct{}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction { return b.Instrs[len(b.Instrs)-1] }

func posOfBlock(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// ---- values ----

func (e *Engine) val(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConstVal(v.Value, v.Type())
	case *ssa.Global:
		return globalTerm(v)
	case *ssa.Function:
		return funcTerm(v)
	case *ssa.Builtin:
		return mk("builtin", v.Name(), v.Type(), v)
	}
	i, ok := infoOf(f.fn).idx[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %v in %v", v, f.fn))
	}
	t := f.env[i]
	if t == nil {
		// value from an unexplored definition (unreachable by construction)
		t = fresh("undef", v.Name(), v.Type(), nil)
		f.env[i] = t
	}
	return t
}

func globalTerm(v *ssa.Global) *Term {
	return mk("global", v.Pkg.Pkg.Name()+"."+v.Name(), v.Type(), v)
}

func funcTerm(v *ssa.Function) *Term {
	return mk("func", v.String(), v.Type(), v)
}

func (e *Engine) set(s *State, in ssa.Instruction, t *Term) {
	f := s.top()
	if v, ok := in.(ssa.Value); ok {
		f.env[infoOf(f.fn).idx[v]] = t
	}
}

func (e *Engine) jump(s *State, f *Frame, to *ssa.BasicBlock) {
	f.prev = f.block
	f.block = to
	f.pc = 0
	s.start = true
}

// step executes one instruction; nil means "same state goes on".
func (e *Engine) step(s *State, run *loopRun) []*State {
	f := s.top()
	if f.unwind {
		return e.unwind(s)
	}
	if f.pc >= len(f.block.Instrs) {
		panic(fmt.Sprintf("fell off block in %v", f.fn))
	}
	instr := f.block.Instrs[f.pc]
	val := func(v ssa.Value) *Term { return e.val(s, f, v) }
	adv := func() []*State { f.pc++; return nil }
	switch in := instr.(type) {
	case *ssa.DebugRef:
		return adv()
	case *ssa.Jump:
		e.jump(s, f, f.block.Succs[0])
		return nil
	case *ssa.If:
		c := val(in.Cond)
		if v, k := s.facts.truth(c); k {
			if v {
				e.jump(s, f, f.block.Succs[0])
			} else {
				e.jump(s, f, f.block.Succs[1])
			}
			return nil
		}
		if run != nil && run.def != nil && run.condTerm != nil && len(s.stack)-1 == run.depth && f.block == run.def.header {
			panic(undecidedLoop{})
		}
		if run != nil && run.info != nil && len(s.stack)-1 == run.depth && f.block == run.def.header {
			run.info.Cond = c
			if !run.def.blocks[f.block.Succs[0]] {
				run.info.Cond = mkNot(c)
			}
		}
		t := s.clone()
		var r []*State
		// false branch first on the stack so that true is explored first
		if t.facts.assume(c, false) {
			e.jump(t, t.top(), t.top().block.Succs[1])
			r = append(r, t)
		}
		if s.facts.assume(c, true) {
			e.jump(s, f, f.block.Succs[0])
			r = append(r, s)
		}
		if r == nil {
			r = []*State{}
		}
		return r
	case *ssa.Return:
		var res []*Term
		for _, x := range in.Results {
			res = append(res, val(x))
		}
		return e.ret(s, res)
	case *ssa.Panic:
		e.startPanic(s, val(in.X), in)
		return nil
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			return adv()
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.runDeferred(s, d)
	case *ssa.Defer:
		d := e.prepCall(s, f, &in.Call)
		d.instr = in
		f.defers = append(f.defers, d)
		s.emit(&Event{Kind: "Defer", Callee: d.callee, Args: d.args, Name: d.name()})
		return adv()
	case *ssa.Go:
		d := e.prepCall(s, f, &in.Call)
		ev := &Event{Kind: "Go", Callee: d.callee, Args: d.args, Name: d.name()}
		s.emit(ev)
		if e.Opts.Intr != nil {
			e.spawn(s, in, d)
			return adv()
		}
		s.publish(d.callee)
		for _, a := range d.args {
			s.publish(a)
		}
		if len(s.held) == 0 {
			s.release()
		}
		return adv()
	case *ssa.Call:
		d := e.prepCall(s, f, &in.Call)
		return e.call(s, in, d, contNormal)
	case *ssa.Alloc:
		t := e.newObj("alloc", in, in.Type())
		e.set(s, in, t)
		return adv()
	case *ssa.UnOp:
		x := val(in.X)
		switch in.Op {
		case token.MUL:
			e.derefCheck(s, in, x)
			if g, ok := in.X.(*ssa.Global); ok && isErrorType(in.Type()) && !e.P.inRepoPkg(g.Pkg) {
				e.set(s, in, sentinel(g))
				return adv()
			}
			e.set(s, in, e.load(s, in, x, in.Type()))
		case token.SUB:
			if isIntType(in.Type()) {
				e.set(s, in, mkSub(mkInt(0), x, in.Type()))
			} else if fv, ok := x.floatVal(); ok {
				e.set(s, in, mkConstVal(constant.MakeFloat64(-fv), in.Type()))
			} else {
				e.set(s, in, mk("fneg", "", in.Type(), nil, x))
			}
		case token.NOT:
			e.set(s, in, mkNot(x))
		case token.XOR:
			e.set(s, in, mk("bitnot", typeKey(in.Type()), in.Type(), nil, x))
		case token.ARROW:
			if st, ok := e.interleave(s, in, nil); ok {
				return st
			}
			if r, ok := e.chanReady(s, x); ok && !r {
				return e.blocked(s, in)
			}
			got := e.take(s, x)
			var et types.Type = in.Type()
			if in.CommaOk {
				et = in.Type().(*types.Tuple).At(0).Type()
			}
			v := fresh("chanrecv", "", et, nil, x)
			ok := fresh("chanok", "", types.Typ[types.Bool], nil, x)
			if r, known := e.chanReady(s, x); got {
				ok = mkBool(true)
			} else if known && r {
				v, ok = zeroOf(et), mkBool(false)
			}
			ev := &Event{Kind: "Recv", Addr: x, Res: v}
			s.emit(ev)
			if len(s.held) == 0 {
				s.release()
			}
			if in.CommaOk {
				e.set(s, in, mk("tuple", "", in.Type(), nil, v, ok))
			} else {
				e.set(s, in, v)
			}
		}
		return adv()
	case *ssa.BinOp:
		x, y := val(in.X), val(in.Y)
		if in.Op == token.QUO || in.Op == token.REM {
			if isIntType(in.Type()) {
				s.emit(&Event{Kind: "Div", Args: []*Term{x, y}, Mem: nil, OK: nonZero(s.facts, y)})
			} else {
				s.emit(&Event{Kind: "FDiv", Args: []*Term{x, y}, OK: nonZeroF(s.facts, y)})
			}
		}
		e.set(s, in, e.binop(s, in.Op, x, y, in.X.Type(), in.Type()))
		return adv()
	case *ssa.ChangeType:
		e.set(s, in, val(in.X))
		return adv()
	case *ssa.ChangeInterface:
		e.set(s, in, val(in.X))
		return adv()
	case *ssa.Convert:
		e.set(s, in, e.convert(s, val(in.X), in.X.Type(), in.Type()))
		return adv()
	case *ssa.MultiConvert:
		e.set(s, in, e.convert(s, val(in.X), in.X.Type(), in.Type()))
		return adv()
	case *ssa.SliceToArrayPointer:
		e.set(s, in, mk("conv", typeKey(in.Type()), in.Type(), nil, val(in.X)))
		return adv()
	case *ssa.MakeInterface:
		t := in.X.Type()
		e.set(s, in, mk("iface", typeKey(t), t, t, val(in.X)))
		return adv()
	case *ssa.MakeClosure:
		var b []*Term
		for _, x := range in.Bindings {
			b = append(b, val(x))
		}
		fn := in.Fn.(*ssa.Function)
		e.set(s, in, mk("closure", fn.String(), in.Type(), fn, b...))
		return adv()
	case *ssa.MakeMap:
		t := e.newObj("map", in, in.Type())
		e.set(s, in, t)
		return adv()
	case *ssa.MakeSlice:
		t := fresh("mkslice", e.P.siteOf(in), in.Type(), &allocInfo{site: e.P.siteOf(in), seq: freshCounter, instr: in}, val(in.Len))
		s.emit(&Event{Kind: "MakeSlice", Args: []*Term{val(in.Len), val(in.Cap)}, Res: t})
		e.set(s, in, t)
		return adv()
	case *ssa.MakeChan:
		t := e.newObj("chan", in, in.Type())
		s.emit(&Event{Kind: "MakeChan", Addr: t, Args: []*Term{val(in.Size)}})
		e.set(s, in, t)
		return adv()
	case *ssa.FieldAddr:
		x := val(in.X)
		e.derefCheck(s, in, x)
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		e.set(s, in, mkFieldAddr(x, in.Field, st))
		return adv()
	case *ssa.Field:
		x := val(in.X)
		e.set(s, in, fieldVal(x, in.Field, in.Type()))
		return adv()
	case *ssa.IndexAddr:
		x, i := val(in.X), val(in.Index)
		et := in.Type().Underlying().(*types.Pointer).Elem()
		var n *Term
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			n = mkInt(pt.Elem().Underlying().(*types.Array).Len())
		} else {
			n = mkLen(x)
		}
		e.indexCheck(s, i, n)
		e.set(s, in, e.elemAddr(s, x, i, et))
		return adv()
	case *ssa.Index:
		x, i := val(in.X), val(in.Index)
		var n *Term
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(at.Len())
		} else {
			n = mkLen(x)
		}
		e.indexCheck(s, i, n)
		if c, ok := i.intVal(); ok {
			if str, ok := x.strVal(); ok && c >= 0 && int(c) < len(str) {
				e.set(s, in, mkConstVal(constant.MakeInt64(int64(str[c])), in.Type()))
				return adv()
			}
			if x.Op == "struct" && int(c) < len(x.Args) {
				e.set(s, in, x.Args[c])
				return adv()
			}
		}
		e.set(s, in, mk("index", "", in.Type(), nil, x, i))
		return adv()
	case *ssa.Lookup:
		return e.lookup(s, in, val(in.X), val(in.Index))
	case *ssa.Slice:
		e.set(s, in, e.slice(s, f, in))
		return adv()
	case *ssa.Extract:
		x := val(in.Tuple)
		if x.Op == "tuple" && in.Index < len(x.Args) {
			e.set(s, in, x.Args[in.Index])
		} else {
			e.set(s, in, mk("extract", strconv.Itoa(in.Index), in.Type(), nil, x))
		}
		return adv()
	case *ssa.Range:
		x := val(in.X)
		e.set(s, in, fresh("rangeit", "", in.Type(), in.X.Type(), x))
		return adv()
	case *ssa.Next:
		return e.next(s, in, val(in.Iter))
	case *ssa.TypeAssert:
		return e.typeAssert(s, in, val(in.X))
	case *ssa.Store:
		e.store(s, in, val(in.Addr), val(in.Val), in.Val.Type())
		return adv()
	case *ssa.MapUpdate:
		m, k, v := val(in.Map), val(in.Key), val(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		e.derefCheck(s, in, m) // a nil map has no room
		k, split := e.splitKey(s, m, k)
		if split != nil {
			return split
		}
		e.mapUpdate(s, m, k, v, mt)
		return adv()
	case *ssa.Send:
		ch, x := val(in.Chan), val(in.X)
		s.emit(&Event{Kind: "Send", Addr: ch, Val: x})
		if e.Opts.Intr != nil && ch.Op == "chan" {
			n, _ := s.read(chanPend(ch), types.Typ[types.Int]).intVal()
			s.mem[chanPend(ch)] = mkInt(n + 1)
		}
		s.publish(x)
		if len(s.held) == 0 {
			s.release()
		}
		return adv()
	case *ssa.Select:
		return e.selectInstr(s, f, in)
	}
	panic(fmt.Sprintf("unhandled instruction %T", instr))
}

func nonZero(f *Facts, y *Term) bool {
	if n, ok := y.intVal(); ok {
		return n != 0
	}
	v, k := f.truth(mkEqInt(y, mkInt(0)))
	return k && !v
}

func nonZeroF(f *Facts, y *Term) bool {
	if x, ok := y.floatVal(); ok {
		return x != 0
	}
	z := mkConstVal(constant.MakeFloat64(0), types.Typ[types.Float64])
	F := types.Typ[types.Float64]
	if v, k := f.truth(mkEq(y, z, F)); k && !v {
		return true
	}
	if v, k := f.truth(mkLt(z, y, F)); k && v {
		return true
	}
	if v, k := f.truth(mkLt(y, z, F)); k && v {
		return true
	}
	if v, k := f.truth(mkLe(y, z, F)); k && !v {
		return true // y > 0 or NaN
	}
	// conversion of a non-zero integer
	if y.Op == "conv" && len(y.Args) == 1 && isIntType(y.Args[0].Typ) {
		return nonZero(f, y.Args[0])
	}
	return false
}

func (e *Engine) newObj(op string, in ssa.Instruction, typ types.Type) *Term {
	site := e.P.siteOf(in)
	return fresh(op, site, typ, &allocInfo{site: site, seq: freshCounter + 1, instr: in})
}

func (e *Engine) derefCheck(s *State, in ssa.Instruction, x *Term) {
	if x.isNil() {
		s.emit(&Event{Kind: "NilDeref", Addr: x})
		return
	}
	if v, ok := s.facts.eqc[x]; ok && v.isNil() {
		s.emit(&Event{Kind: "NilDeref", Addr: x})
	}
}

func (e *Engine) indexCheck(s *State, i, n *Term) {
	if c, ok := i.intVal(); ok {
		if m, ok2 := n.intVal(); ok2 && c >= 0 && c < m {
			return
		}
	}
	lo, k1 := s.facts.truth(mkLeInt(mkInt(0), i))
	hi, k2 := s.facts.truth(mkLeInt(mkAdd(i, mkInt(1), types.Typ[types.Int]), n))
	s.emit(&Event{Kind: "Index", Args: []*Term{i, n}, OK: k1 && lo && k2 && hi})
	// execution goes on only if the index was good
	s.facts.assume(mkLeInt(mkInt(0), i), true)
	s.facts.assume(mkLeInt(mkAdd(i, mkInt(1), types.Typ[types.Int]), n), true)
}

// elemAddr normalises elements of slices of arrays.
func (e *Engine) elemAddr(s *State, x, i *Term, et types.Type) *Term {
	for x.Op == "slice" {
		i = mkAdd(i, x.Args[1], types.Typ[types.Int])
		x = x.Args[0]
	}
	return mkElemAddr(x, i, et)
}

func (e *Engine) load(s *State, in ssa.Instruction, a *Term, typ types.Type) *Term {
	v := s.read(a, typ)
	if s.e.Opts.Hook != nil && (s.e.Opts.NoReads || s.isLocal(a)) {
		s.e.Opts.Hook(s, &Event{Kind: "Read", Addr: a, Val: v, Local: true, Instr: in, Fn: s.top().fn})
	}
	if !s.e.Opts.NoReads && !s.isLocal(a) {
		s.emit(&Event{Kind: "Read", Instr: in, Addr: a, Val: v})
	}
	return v
}

func (e *Engine) store(s *State, in ssa.Instruction, a, v *Term, typ types.Type) {
	e.derefCheck(s, in, a)
	local := s.isLocal(a)
	var old *Term
	if !explodes(typ) {
		old = s.read(a, typ)
	}
	s.emit(&Event{Kind: "Write", Instr: in, Addr: a, Val: v, Old: old, Local: local})
	s.write(a, v, typ)
}

func mapVal(m, k *Term, mt *types.Map) *Term { return mk("mv", "", nil, mt.Elem(), m, k) }
func mapHas(m, k *Term) *Term                { return mk("mh", "", nil, types.Typ[types.Bool], m, k) }

func (e *Engine) mapUpdate(s *State, m, k, v *Term, mt *types.Map) {
	va, ha := mapVal(m, k, mt), mapHas(m, k)
	local := s.isLocal(va)
	old := s.read(va, mt.Elem())
	s.emit(&Event{Kind: "MapWrite", Addr: va, Val: v, Old: old, Local: local})
	s.invalidateAliases(ha)
	s.mem[ha] = mkBool(true)
	s.invalidateAliases(va)
	s.mem[va] = v
	s.mark[mk("maplen", "", nil, nil, m)] = s.nextVer()
	if !local {
		s.publish(v)
		s.publish(k)
	}
}

func (e *Engine) lookup(s *State, in *ssa.Lookup, x, k *Term) []*State {
	f := s.top()
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		e.indexCheck(s, k, mkLen(x))
		e.set(s, in, mk("index", "", in.Type(), nil, x, k))
		f.pc++
		return nil
	}
	if x.isNil() {
		z := zeroOf(mt.Elem())
		if in.CommaOk {
			e.set(s, in, mk("tuple", "", in.Type(), nil, z, mkBool(false)))
		} else {
			e.set(s, in, z)
		}
		f.pc++
		return nil
	}
	k, split := e.splitKey(s, x, k)
	if split != nil {
		return split
	}
	va, ha := mapVal(x, k, mt), mapHas(x, k)
	if !s.isLocal(va) && !e.Opts.NoReads {
		s.emit(&Event{Kind: "MapRead", Addr: va})
	}
	h := s.read(ha, types.Typ[types.Bool])
	if t, known := s.facts.truth(h); known && !t {
		z := zeroOf(mt.Elem())
		if in.CommaOk {
			e.set(s, in, mk("tuple", "", in.Type(), nil, z, mkBool(false)))
		} else {
			e.set(s, in, z)
		}
		f.pc++
		return nil
	} else if !in.CommaOk || known {
		v := s.read(va, mt.Elem())
		if in.CommaOk {
			e.set(s, in, mk("tuple", "", in.Type(), nil, v, mkBool(true)))
		} else {
			e.set(s, in, v)
		}
		f.pc++
		return nil
	}
	n := s.clone()
	n.facts.assume(h, false)
	n.mem[ha] = mkBool(false)
	e.set(n, in, mk("tuple", "", in.Type(), nil, zeroOf(mt.Elem()), mkBool(false)))
	n.top().pc++
	s.facts.assume(h, true)
	s.mem[ha] = mkBool(true)
	e.set(s, in, mk("tuple", "", in.Type(), nil, s.read(va, mt.Elem()), mkBool(true)))
	f.pc++
	return []*State{n, s}
}

func (e *Engine) next(s *State, in *ssa.Next, it *Term) []*State {
	f := s.top()
	x := it.Args[0]
	tup := in.Type().(*types.Tuple)
	okT := fresh("rangeok", "", types.Typ[types.Bool], nil, x)
	if in.IsString {
		k := fresh("rangekey", "", types.Typ[types.Int], nil, x)
		v := fresh("rangeval", "", types.Typ[types.Rune], nil, x)
		e.set(s, in, mk("tuple", "", tup, nil, okT, k, v))
		s.emit(&Event{Kind: "RangeNext", Addr: x, Args: []*Term{k, v}, Res: okT})
		f.pc++
		return nil
	}
	mt, _ := it.Obj.(types.Type)
	m, ok := mt.Underlying().(*types.Map)
	if !ok {
		panic("range over " + typeKey(mt))
	}
	if x.isNil() {
		okT = mkBool(false)
	} else if st, done := e.nextKnown(s, in, it, x, m, tup); done {
		return st
	}
	k := fresh("rangekey", "", m.Key(), nil, x)
	va := mapVal(x, k, m)
	var v *Term
	n := s.clone()
	_ = n
	s.mem[mapHas(x, k)] = mkBool(true)
	v = mkLoad(va, s.ver, m.Elem())
	if e.Opts.Seq {
		v = s.read(va, m.Elem())
	} else if !s.isMutable(va) {
		v = mkLoad(va, 0, m.Elem())
	}
	s.mem[va] = v
	if !s.isLocal(va) && !e.Opts.NoReads {
		s.emit(&Event{Kind: "MapRead", Addr: va})
	}
	s.emit(&Event{Kind: "RangeNext", Addr: x, Args: []*Term{k, v}, Res: okT})
	e.set(s, in, mk("tuple", "", tup, nil, okT, k, v))
	f.pc++
	return nil
}

// nextKnown iterates a new map whose entries are all known, in every order.
func (e *Engine) nextKnown(s *State, in *ssa.Next, it, x *Term, m *types.Map, tup types.Type) ([]*State, bool) {
	if !e.Opts.Known || x.Op != "map" {
		return nil, false
	}
	if _, ok := s.markOf(x); ok {
		return nil, false
	}
	if _, ok := s.copies[x]; ok {
		return nil, false
	}
	pos := mk("iterpos", "", nil, nil, it)
	seen := map[*Term]bool{}
	if l, ok := s.mem[pos]; ok {
		for _, k := range l.Args {
			seen[k] = true
		}
	}
	var keys []*Term
	for a, v := range s.mem {
		if a.Op != "mh" || a.Args[0] != x {
			continue
		}
		b, known := s.facts.truth(v)
		if !known {
			return nil, false
		}
		if b && !seen[a.Args[1]] {
			keys = append(keys, a.Args[1])
		}
	}
	if len(keys) > 3 {
		return nil, false
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	f := s.top()
	if len(keys) == 0 {
		e.set(s, in, mk("tuple", "", tup, nil, mkBool(false), zeroOf(m.Key()), zeroOf(m.Elem())))
		f.pc++
		return nil, true
	}
	var out []*State
	for i, k := range keys {
		n := s
		if i < len(keys)-1 {
			n = s.clone()
		}
		var vis []*Term
		if l, ok := n.mem[pos]; ok {
			vis = append(vis, l.Args...)
		}
		n.mem[pos] = mk("visited", "", nil, nil, append(vis, k)...)
		v := n.read(mapVal(x, k, m), m.Elem())
		e.set(n, in, mk("tuple", "", tup, nil, mkBool(true), k, v))
		n.top().pc++
		out = append(out, n)
	}
	if len(out) == 1 {
		return nil, true
	}
	return out, true
}

func (e *Engine) slice(s *State, f *Frame, in *ssa.Slice) *Term {
	x := e.val(s, f, in.X)
	lo := mkInt(0)
	if in.Low != nil {
		lo = e.val(s, f, in.Low)
	}
	var n *Term
	isStr := isStringType(in.X.Type())
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n = mkInt(pt.Elem().Underlying().(*types.Array).Len())
	} else {
		n = mkLen(x)
	}
	hi := n
	if in.High != nil {
		hi = e.val(s, f, in.High)
	}
	// bounds
	if in.Low != nil || in.High != nil {
		I := types.Typ[types.Int]
		a, k1 := s.facts.truth(mkLeInt(mkInt(0), lo))
		b, k2 := s.facts.truth(mkLeInt(lo, hi))
		c, k3 := s.facts.truth(mkLeInt(hi, n))
		s.emit(&Event{Kind: "SliceOp", Args: []*Term{lo, hi, n}, OK: k1 && a && k2 && b && k3 && c})
		s.facts.assume(mkLeInt(mkInt(0), lo), true)
		s.facts.assume(mkLeInt(lo, hi), true)
		if isStr {
			s.facts.assume(mkLeInt(hi, n), true)
		}
		_ = I
	}
	if isStr {
		if c, ok := x.strVal(); ok {
			l, ok1 := lo.intVal()
			h, ok2 := hi.intVal()
			if ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(c) {
				return mkStr(c[l:h])
			}
		}
		if p := strPart(x, lo, hi); p != nil && x.Op == "cat" {
			return p
		}
		if l, ok := lo.intVal(); ok && l == 0 && hi == n {
			return x
		}
		if x.Op == "substr" {
			b := x.Args[1]
			return mk("substr", "", in.Type(), nil, x.Args[0], mkAdd(b, lo, types.Typ[types.Int]), mkAdd(b, hi, types.Typ[types.Int]))
		}
		return mk("substr", "", in.Type(), nil, x, lo, hi)
	}
	if x.isNil() {
		return x
	}
	if x.Op == "slice" {
		b := x.Args[1]
		return mk("slice", "", in.Type(), nil, x.Args[0], mkAdd(b, lo, types.Typ[types.Int]), mkAdd(b, hi, types.Typ[types.Int]))
	}
	if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
		if l, ok := lo.intVal(); ok && l == 0 && hi == n && in.Max == nil {
			return x
		}
	}
	if in.Max != nil {
		mx := e.val(s, f, in.Max)
		return mk("slice", "", in.Type(), nil, x, lo, hi, mx)
	}
	return mk("slice", "", in.Type(), nil, x, lo, hi)
}

func (e *Engine) typeAssert(s *State, in *ssa.TypeAssert, x *Term) []*State {
	f := s.top()
	T := in.AssertedType
	okVal := func(t *Term) *Term {
		if types.IsInterface(T) {
			return t
		}
		if t.Op == "iface" {
			return t.Args[0]
		}
		return mk("assertval", typeKey(T), T, T, t)
	}
	decide := func() (bool, bool) {
		if x.isNil() {
			return false, true
		}
		if v, ok := s.facts.eqc[x]; ok && v.isNil() {
			return false, true
		}
		if x.Op == "iface" {
			ct, _ := x.Obj.(types.Type)
			if it, ok := T.Underlying().(*types.Interface); ok {
				return types.Implements(ct, it), true
			}
			return types.Identical(ct, T), true
		}
		if (x.Op == "pure" && x.Aux == "context.Background" || x.Op == "withvalue") && isRepoType(T) {
			return false, true
		}
		if it, ok := T.Underlying().(*types.Interface); ok && x.Typ != nil && knownNonNil(s.facts, x) {
			if xi, ok := x.Typ.Underlying().(*types.Interface); ok && types.Implements(xi, it) {
				return true, true
			}
		}
		return false, false
	}
	ok, known := decide()
	okT := mk("assertok", typeKey(T), types.Typ[types.Bool], T, x)
	if !known {
		ok, known = s.facts.truth(okT)
	}
	if !in.CommaOk {
		s.emit(&Event{Kind: "TypeAssert", Addr: x, Name: typeKey(T), OK: known && ok})
		if known && !ok {
			e.startPanic(s, fresh("assertpanic", "", nil, nil, x), in)
			return nil
		}
		if known {
			e.set(s, in, okVal(x))
			f.pc++
			return nil
		}
		s.facts.assume(okT, true)
		e.set(s, in, okVal(x))
		f.pc++
		return nil
	}
	yes := func(s *State) {
		e.set(s, in, mk("tuple", "", in.Type(), nil, okVal(x), mkBool(true)))
		s.top().pc++
	}
	no := func(s *State) {
		e.set(s, in, mk("tuple", "", in.Type(), nil, zeroOf(T), mkBool(false)))
		s.top().pc++
	}
	if known {
		if ok {
			yes(s)
		} else {
			no(s)
		}
		return nil
	}
	n := s.clone()
	n.facts.assume(okT, false)
	no(n)
	s.facts.assume(okT, true)
	s.facts.assume(mkEq(x, mkNil(), types.Typ[types.UnsafePointer]), false)
	yes(s)
	return []*State{n, s}
}

func (e *Engine) selectInstr(s *State, f *Frame, in *ssa.Select) []*State {
	tup := in.Type().(*types.Tuple)
	var out []*State
	n := len(in.States)
	if st, ok := e.interleave(s, in, nil); ok {
		return st
	}
	// which cases can proceed, where that is known
	can := make([]bool, n)
	shut := make([]bool, n)
	any := false
	for i, st := range in.States {
		can[i] = true
		if r, ok := e.chanReady(s, e.val(s, f, st.Chan)); ok && st.Dir == types.RecvOnly {
			can[i], shut[i] = r, r
		}
		any = any || can[i]
	}
	if n > 0 && !any && in.Blocking {
		return e.blocked(s, in)
	}
	mkCase := func(s *State, idx int) {
		args := []*Term{mkInt(int64(idx))}
		recvOk := mkBool(false)
		var recvs []*Term
		for i, st := range in.States {
			if st.Dir != types.RecvOnly {
				continue
			}
			et := st.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				if shut[i] && e.take(s, e.val(s, s.top(), st.Chan)) {
					recvOk = mkBool(true)
					recvs = append(recvs, fresh("chanrecv", "", et, nil, e.val(s, s.top(), st.Chan)))
					continue
				}
				if shut[i] {
					recvs = append(recvs, zeroOf(et))
					continue
				}
				recvOk = fresh("chanok", "", types.Typ[types.Bool], nil)
				recvs = append(recvs, fresh("chanrecv", "", et, nil, e.val(s, s.top(), st.Chan)))
			} else {
				recvs = append(recvs, zeroOf(et))
			}
		}
		args = append(args, recvOk)
		args = append(args, recvs...)
		ev := &Event{Kind: "Select", Name: strconv.Itoa(idx), OK: in.Blocking}
		for _, st := range in.States {
			ev.Args = append(ev.Args, e.val(s, s.top(), st.Chan))
		}
		if idx >= 0 {
			st := in.States[idx]
			ev.Addr = e.val(s, s.top(), st.Chan)
			if st.Send != nil {
				ev.Val = e.val(s, s.top(), st.Send)
				if e.Opts.Intr != nil && ev.Addr.Op == "chan" {
					n, _ := s.read(chanPend(ev.Addr), types.Typ[types.Int]).intVal()
					s.mem[chanPend(ev.Addr)] = mkInt(n + 1)
				}
				s.publish(ev.Val)
			}
		}
		s.emit(ev)
		if len(s.held) == 0 {
			s.release()
		}
		e.set(s, in, mk("tuple", "", tup, nil, args...))
		s.top().pc++
	}
	total := n
	if !in.Blocking {
		total++
	}
	if total == 0 { // select {}
		s.emit(&Event{Kind: "Select", Name: "never", OK: true})
		s.ended = true
		s.how = "blocked"
		return nil
	}
	var cases []int
	for i := 0; i < total; i++ {
		switch {
		case i == n:
			ready := false
			for j := range shut {
				ready = ready || shut[j]
			}
			if !ready {
				cases = append(cases, -1)
			}
		case can[i]:
			cases = append(cases, i)
		}
	}
	for i, idx := range cases {
		c := s
		if i < len(cases)-1 {
			c = s.clone()
		}
		mkCase(c, idx)
		out = append(out, c)
	}
	return out
}

func (e *Engine) binop(s *State, op token.Token, x, y *Term, xt, rt types.Type) *Term {
	isI := isIntType(xt)
	if x == y && isFloatType(xt) && (e.Opts.Out || len(s.stack) == 0 || !isSpecFn(s.top().fn)) {
		switch op {
		case token.EQL:
			return mkNot(isNaN(x))
		case token.NEQ:
			return isNaN(x)
		}
	}
	switch op {
	case token.EQL:
		return e.eqTerm(s, x, y, xt)
	case token.NEQ:
		return mkNot(e.eqTerm(s, x, y, xt))
	case token.LSS:
		return mkLt(x, y, xt)
	case token.GTR:
		return mkLt(y, x, xt)
	case token.LEQ:
		return mkLe(x, y, xt)
	case token.GEQ:
		return mkLe(y, x, xt)
	case token.ADD:
		if isI {
			return mkAdd(x, y, rt)
		}
		if isStringType(xt) {
			return mkCat(x, y)
		}
	case token.SUB:
		if isI {
			return mkSub(x, y, rt)
		}
	case token.MUL:
		if isI {
			return mkMul(x, y, rt)
		}
	}
	name := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.REM: "rem",
		token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	if !isI {
		name = "f" + name
	}
	if x.Op == "const" && y.Op == "const" && x.C != nil && y.C != nil {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			return mkConstVal(constant.BinaryOp(x.C, op, y.C), rt)
		case token.QUO:
			if isI {
				if n, ok := y.intVal(); ok && n != 0 {
					return mkConstVal(constant.BinaryOp(x.C, token.QUO_ASSIGN, y.C), rt)
				}
			} else if n, ok := y.floatVal(); ok && n != 0 {
				return mkConstVal(constant.BinaryOp(constant.ToFloat(x.C), token.QUO, constant.ToFloat(y.C)), rt)
			}
		case token.REM:
			if n, ok := y.intVal(); ok && n != 0 {
				return mkConstVal(constant.BinaryOp(x.C, op, y.C), rt)
			}
		case token.SHL, token.SHR:
			if n, ok := y.intVal(); ok && n >= 0 && n < 200 {
				return mkConstVal(constant.Shift(x.C, op, uint(n)), rt)
			}
		}
	}
	if op == token.AND && isI {
		for _, p := range []*[2]*Term{{x, y}, {y, x}} {
			// the low bits of a converted integer are those of the original
			n, ok := p[0].intVal()
			if !ok || n < 0 {
				continue
			}
			z := p[1]
			for z.Op == "conv" && len(z.Args) == 1 && z.Typ != nil && z.Args[0].Typ != nil && isIntType(z.Typ) && isIntType(z.Args[0].Typ) {
				if w := 8 * sizeOf(z.Typ.Underlying().(*types.Basic)); w < 64 && n >= 1<<uint(w) || sizeOf(z.Args[0].Typ.Underlying().(*types.Basic)) < sizeOf(z.Typ.Underlying().(*types.Basic)) {
					break
				}
				z = z.Args[0]
			}
			x, y, rt = mkInt(n), z, z.Typ
			if rt == nil {
				rt = types.Typ[types.Uint64]
			}
			break
		}
	}
	switch op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return mk(name, "", rt, nil, x, y)
}

func (e *Engine) eqTerm(s *State, x, y *Term, t types.Type) *Term {
	if !isIntType(t) && !isFloatType(t) && !isStringType(t) {
		if v, k := s.facts.eqTruth(x, y); k {
			return mkBool(v)
		}
		// structs compare part by part
		if x.Op == "struct" && y.Op == "struct" && len(x.Args) == len(y.Args) {
			if len(x.Args) == 1 {
				return e.eqTerm(s, x.Args[0], y.Args[0], partType(t, 0))
			}
		}
	}
	return mkEq(x, y, t)
}

func (e *Engine) convert(s *State, x *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		switch {
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return x
		case fi && ti:
			if x.Op == "const" {
				if r, ok := fitsConst(x.C, tb); ok {
					return mkConstVal(r, to)
				}
			}
			if intFits(s.facts, x, tb) {
				return x
			}
			for x.Op == "conv" && len(x.Args) == 1 && x.Typ != nil && x.Args[0].Typ != nil {
				// the low bits are those of the original
				mid, ok := x.Typ.Underlying().(*types.Basic)
				orig, ok2 := x.Args[0].Typ.Underlying().(*types.Basic)
				if !ok || !ok2 || mid.Info()&types.IsInteger == 0 || orig.Info()&types.IsInteger == 0 || sizeOf(mid) < sizeOf(tb) {
					break
				}
				x = x.Args[0]
				if orig.Kind() == tb.Kind() {
					return x
				}
			}
			return mk("conv", typeKey(to.Underlying()), to, nil, x)
		case fi && tf:
			if x.Op == "const" {
				return mkConstVal(x.C, to)
			}
			return mk("conv", typeKey(to.Underlying()), to, nil, x)
		case ff && ti:
			t := mk("conv", typeKey(to.Underlying()), to, nil, x)
			floatIndexLemma(s.facts, x, t)
			return t
		case ff && tf:
			if fb.Kind() == tb.Kind() {
				return x
			}
			if x.Op == "const" {
				return mkConstVal(x.C, to)
			}
			return mk("conv", typeKey(to.Underlying()), to, nil, x)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	if ok2 && tb.Kind() == types.UnsafePointer {
		return x
	}
	if isStringType(to) && !ok1 {
		if r := s.textOf(x); r != nil {
			return r
		}
	}
	return mk("conv", typeKey(to.Underlying()), to, nil, x)
}

// textOf is the text of a byte slice made from strings.
func (s *State) textOf(x *Term) *Term {
	if x.isNil() {
		return mkStr("")
	}
	if x.Op == "mkslice" {
		if n, ok := x.Args[0].intVal(); ok && n == 0 {
			return mkStr("")
		}
		return nil
	}
	if x.Op != "conv" && x.Op != "append" && x.Op != "appendall" {
		if isStringType(x.Typ) {
			return x
		}
		return nil
	}
	for a := range s.mem {
		if a.Op == "ea" && a.Args[0] == x {
			return nil // overwritten since
		}
	}
	switch x.Op {
	case "conv":
		if x.Args[0].Typ != nil && isStringType(x.Args[0].Typ) {
			return x.Args[0]
		}
	case "append":
		r := s.textOf(x.Args[0])
		if r == nil {
			return nil
		}
		for _, c := range x.Args[1:] {
			n, ok := c.intVal()
			if !ok || n < 0 || n > 255 {
				return nil
			}
			r = mkCat(r, mkStr(string([]byte{byte(n)})))
		}
		return r
	case "appendall":
		if len(x.Args) == 2 {
			if a, b := s.textOf(x.Args[0]), s.textOf(x.Args[1]); a != nil && b != nil {
				return mkCat(a, b)
			}
		}
	}
	return nil
}

func kindRange(b *types.Basic) (lo, hi int64, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64:
		return negInf, posInf, true
	case types.Int32:
		return -1 << 31, 1<<31 - 1, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf, true
	}
	return 0, 0, false
}

func fitsConst(c constant.Value, b *types.Basic) (constant.Value, bool) {
	if n, ok := constant.Int64Val(c); ok {
		lo, hi, k := kindRange(b)
		if k && n >= lo && n <= hi {
			return c, true
		}
	}
	return nil, false
}

func intFits(f *Facts, x *Term, b *types.Basic) bool {
	lo, hi, ok := kindRange(b)
	if !ok {
		return false
	}
	// signed 64-bit values to signed 64-bit
	xt, isB := basicOf(x.Typ)
	unsigned64 := isB && (xt.Kind() == types.Uint64 || xt.Kind() == types.Uint || xt.Kind() == types.Uintptr)
	bd := f.bounds(x, 0)
	if lo == negInf && hi == posInf {
		if !unsigned64 {
			return true
		}
		return bd.hi != posInf
	}
	if lo == 0 && hi == posInf {
		if unsigned64 {
			return true
		}
		return bd.lo >= 0
	}
	return bd.lo >= lo && bd.hi <= hi
}

// ---- calls ----

func (d *deferred) name() string {
	if d.static != nil {
		return d.static.String()
	}
	if d.invoke != nil {
		return d.invoke.FullName()
	}
	if d.builtin != nil {
		return d.builtin.Name()
	}
	return ""
}

func (e *Engine) prepCall(s *State, f *Frame, c *ssa.CallCommon) deferred {
	var d deferred
	if c.IsInvoke() {
		d.invoke = c.Method
		d.callee = e.val(s, f, c.Value)
		d.args = append(d.args, d.callee)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			d.builtin = v
		case *ssa.Function:
			d.static = v
			d.callee = funcTerm(v)
		default:
			d.callee = e.val(s, f, c.Value)
		}
	}
	for _, a := range c.Args {
		d.args = append(d.args, e.val(s, f, a))
	}
	return d
}

func callResultType(instr ssa.Instruction) types.Type {
	switch in := instr.(type) {
	case *ssa.Call:
		return in.Type()
	}
	return nil
}

// finishCall stores the result of a call handled without a frame.
func (e *Engine) finishCall(s *State, instr ssa.Instruction, res *Term, cont contKind) {
	f := s.top()
	if cont == contNormal {
		if res != nil {
			e.set(s, instr, res)
		}
		f.pc++
	}
	// deferred calls: the RunDefers (or unwinding) step is repeated
}

func (e *Engine) runDeferred(s *State, d deferred) []*State {
	return e.call(s, d.instr, d, contDefer)
}

func (e *Engine) call(s *State, instr ssa.Instruction, d deferred, cont contKind) []*State {
	if d.builtin != nil {
		return e.builtin(s, instr, d, cont)
	}
	fn := d.static
	args := d.args
	var free []*Term
	if d.invoke != nil {
		recv := d.callee
		if recv.isNil() {
			s.emit(&Event{Kind: "NilDeref", Addr: recv})
		}
		if recv.Op == "iface" {
			ct, _ := recv.Obj.(types.Type)
			if ct != nil {
				m := e.P.SSA.LookupMethod(ct, d.invoke.Pkg(), d.invoke.Name())
				if m != nil {
					fn = m
					args = append([]*Term{recv.Args[0]}, d.args[1:]...)
				}
			}
		}
		if fn == nil {
			return e.invokeUnknown(s, instr, d, cont)
		}
	} else if fn == nil {
		switch d.callee.Op {
		case "func":
			fn = d.callee.Obj.(*ssa.Function)
		case "closure":
			fn = d.callee.Obj.(*ssa.Function)
			free = d.callee.Args
		}
	}
	if fn == nil {
		if d.callee.isNil() {
			s.emit(&Event{Kind: "NilDeref", Addr: d.callee})
		}
		return e.appCall(s, instr, d, cont, nil)
	}
	if e.Opts.Intr != nil && (e.isSyncOp(fn) || e.P.inRepo(fn) && !e.Opts.Intr(fn) && !isSpecFn(fn)) {
		if st, ok := e.interleave(s, instr, func(s *State) {
			if cont == contDefer {
				s.top().defers = append(s.top().defers, d)
			}
		}); ok {
			return st
		}
	}
	if st, done := e.model(s, instr, fn, d, args, cont); done {
		return st
	}
	if fn.Blocks == nil || !(e.P.inRepo(fn) || fn.Synthetic != "") {
		if e.Opts.Out && e.Opts.Model != nil && e.Opts.Model(e, s, instr, fn, args, cont) {
			return nil
		}
		return e.extCall(s, instr, fn, d, args, cont)
	}
	if e.Opts.Model != nil && e.Opts.Model(e, s, instr, fn, args, cont) {
		return nil
	}
	if e.Opts.Summ != nil && e.Opts.Summ(fn) && !literals(args) {
		return e.summarised(s, instr, fn, args, cont)
	}
	if e.Opts.NoInline != nil && e.Opts.NoInline(fn) {
		return e.opaque(s, instr, fn, d, args, cont, "Rec")
	}
	depth := 0
	if e.Opts.Spec {
		depth = 5
	}
	for _, fr := range s.stack {
		if fr.fn == fn && (len(fn.FreeVars) == 0 || fr.cont != contOnce) {
			if depth > 0 {
				depth--
				continue
			}
			return e.opaque(s, instr, fn, d, args, cont, "Rec")
		}
	}
	if len(s.stack) > 40 {
		panic(budgetError{"call depth"})
	}
	nf := e.push(s, fn, args, free, instr)
	nf.cont = cont
	if cont == contDefer {
		nf.isDefer = true
		caller := s.stack[len(s.stack)-2]
		if caller.unwind {
			nf.pdepth = len(s.panics)
		}
	}
	if e.Opts.Join {
		return e.joined(s)
	}
	return nil
}

// literals: all the arguments are given in the program's text, so that the
// callee's repetitions are known.
func literals(args []*Term) bool {
	for _, a := range args {
		if a.Op != "const" {
			return false
		}
	}
	return true
}

// joined analyses the callee on top of the stack to its end and merges the
// partitions that come back.
func (e *Engine) joined(s *State) []*State {
	n0 := len(s.events)
	depth := len(s.stack) - 1
	exits, _, ends := e.explore([]*State{s}, &loopRun{depth: depth})
	groups := map[string][]*State{}
	var order []string
	for _, x := range exits {
		k := fmt.Sprint(x.top().unwind, len(x.panics), x.top().pc, x.top().block.Index)
		for _, p := range x.panics {
			k += fmt.Sprint(p.recovered)
		}
		for _, h := range x.held {
			k += "|" + strconv.Itoa(h.Lock.ID) + h.Mode
		}
		for o := range x.once {
			_ = o
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], x)
	}
	out := []*State{}
	out = append(out, ends...)
	for _, k := range order {
		out = append(out, e.join(groups[k], n0))
	}
	return out
}

// joinAlts are the values a merged value stands for.
type joinAlts []*Term

func (e *Engine) join(g []*State, n0 int) *State {
	if len(g) == 1 {
		return g[0]
	}
	b := g[0]
	f := b.top()
	for i, v := range f.env {
		for _, x := range g[1:] {
			if x.top().env[i] != v {
				var t types.Type
				if v != nil {
					t = v.Typ
				}
				if v != nil && v.Op == "tuple" {
					args := make([]*Term, len(v.Args))
					for j := range args {
						args[j] = v.Args[j]
						for _, y := range g[1:] {
							yv := y.top().env[i]
							if yv == nil || yv.Op != "tuple" || len(yv.Args) != len(args) || yv.Args[j] != args[j] {
								alts := joinAlts{v.Args[j]}
								for _, z := range g[1:] {
									if zv := z.top().env[i]; zv != nil && zv.Op == "tuple" && len(zv.Args) == len(args) {
										alts = append(alts, zv.Args[j])
									} else {
										alts = append(alts, nil)
									}
								}
								args[j] = fresh("join", "", v.Args[j].Typ, alts)
								break
							}
						}
					}
					f.env[i] = mk("tuple", "", nil, nil, args...)
				} else {
					alts := joinAlts{v}
					for _, z := range g[1:] {
						alts = append(alts, z.top().env[i])
					}
					f.env[i] = fresh("join", "", t, alts)
				}
				break
			}
		}
	}
	for _, x := range g[1:] {
		for a := range x.mem {
			if _, ok := b.mem[a]; !ok {
				b.mem[a] = nil
			}
		}
	}
	for a, v := range b.mem {
		for _, x := range g[1:] {
			if xv, ok := x.mem[a]; !ok || xv != v {
				b.mem[a] = mkLoad(a, b.nextVer(), pointee(a))
				break
			}
		}
		if b.mem[a] == nil {
			b.mem[a] = mkLoad(a, b.nextVer(), pointee(a))
		}
	}
	seen := map[*Event]bool{}
	evs := append([]*Event(nil), b.events...)
	for _, ev := range evs {
		seen[ev] = true
	}
	for _, x := range g[1:] {
		for _, ev := range x.events[min(n0, len(x.events)):] {
			if !seen[ev] {
				seen[ev] = true
				evs = append(evs, ev)
			}
		}
		for a, v := range x.mark {
			if bv, ok := b.mark[a]; !ok || bv != v {
				b.mark[a] = b.nextVer()
			}
		}
		for a := range x.pub {
			b.pub[a] = true
		}
		for a := range b.once {
			if !x.once[a] {
				delete(b.once, a)
			}
		}
		for t, v := range b.facts.b {
			if xv, ok := x.facts.b[t]; !ok || xv != v {
				delete(b.facts.b, t)
			}
		}
		for t, v := range b.facts.eqc {
			if x.facts.eqc[t] != v {
				delete(b.facts.eqc, t)
			}
		}
		for t, v := range b.facts.iv {
			xv, ok := x.facts.iv[t]
			if !ok {
				delete(b.facts.iv, t)
				continue
			}
			b.facts.iv[t] = ival{min(v.lo, xv.lo), max(v.hi, xv.hi)}
		}
		if x.ver != b.ver {
			b.ver = b.nextVer()
		}
	}
	b.events = evs
	return b
}

// opaque is a call to a repository function that is not followed.
func (e *Engine) opaque(s *State, instr ssa.Instruction, fn *ssa.Function, d deferred, args []*Term, cont contKind, kind string) []*State {
	res := e.freshResult(s, fn.Signature.Results(), "rec", fn.String())
	ev := &Event{Kind: kind, Name: fn.String(), Callee: funcTerm(fn), Args: args, Res: res, Defer: cont == contDefer}
	ev.Mem = s.copyMem()
	s.emit(ev)
	for _, a := range args {
		s.havocReach(a)
	}
	if len(s.held) == 0 {
		s.release()
	}
	e.finishCall(s, instr, res, cont)
	return nil
}

func (s *State) havocReach(a *Term) {
	if a == nil {
		return
	}
	switch a.Op {
	case "alloc", "map", "mkslice":
		s.havoc(a)
	case "fa", "ea":
		if s.isLocal(a) {
			s.havoc(a)
		}
	case "iface", "slice":
		s.havocReach(a.Args[0])
	case "closure":
		for _, x := range a.Args {
			s.havocReach(x)
		}
	}
}

func (e *Engine) freshResult(s *State, res *types.Tuple, op, name string) *Term {
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return fresh(op, name, res.At(0).Type(), nil)
	}
	var a []*Term
	for i := 0; i < res.Len(); i++ {
		a = append(a, fresh(op, name+"."+strconv.Itoa(i), res.At(i).Type(), nil))
	}
	return mk("tuple", "", res, nil, a...)
}

func (e *Engine) ret(s *State, res []*Term) []*State {
	f := s.top()
	if len(s.stack) == 1 {
		if f.pdepth > 0 && len(s.panics) > 0 && !s.panics[0].recovered {
			s.how = "panic"
			s.panicV = s.panics[0].val
		} else {
			s.how = "return"
			s.ret = res
		}
		s.emit(&Event{Kind: "Return", Args: res, Mem: s.copyMem()})
		s.ended = true
		s.stack = s.stack[:0]
		return nil
	}
	s.stack = s.stack[:len(s.stack)-1]
	c := s.top()
	s.start = false
	switch f.cont {
	case contNormal:
		var r *Term
		if len(res) == 1 {
			r = res[0]
		} else if len(res) > 1 {
			r = mk("tuple", "", nil, nil, res...)
		}
		if f.call != nil && r != nil {
			e.set(s, f.call, r)
		}
		c.pc++
	case contOnce:
		e.onceDone(s, f)
		if f.isDefer {
			return nil
		}
		c.pc++
	case contDefer:
		// the caller repeats its RunDefers or goes on unwinding
	case contDiscard:
		c.pc++
	case contRetry:
		s.intr--
		s.noIntr = true
	case contThread:
		e.threadEnd(s)
	}
	return nil
}

func (e *Engine) startPanic(s *State, v *Term, in ssa.Instruction) {
	s.emit(&Event{Kind: "Panic", Val: v})
	s.panics = append(s.panics, panicRec{val: v})
	s.top().unwind = true
}

// unwind runs deferred calls of a panicking frame.
func (e *Engine) unwind(s *State) []*State {
	f := s.top()
	if n := len(s.panics); n > 0 && s.panics[n-1].recovered {
		s.panics = s.panics[:n-1]
		f.unwind = false
		// the function returns to its caller normally: remaining deferred calls run first
		if f.fn.Recover != nil {
			f.prev = nil
			f.block = f.fn.Recover
			f.pc = 0
			s.start = true
			// remaining defers
			for len(f.defers) > 0 {
				break
			}
			if len(f.defers) > 0 {
				f.inRunDefers = true
				f.unwind = true
				s.start = false
				s.panics = append(s.panics, panicRec{val: mkNil(), recovered: true})
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				return e.runDeferred(s, d)
			}
			return nil
		}
		var res []*Term
		r := f.fn.Signature.Results()
		for i := 0; i < r.Len(); i++ {
			res = append(res, zeroOf(r.At(i).Type()))
		}
		return e.ret(s, res)
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		return e.runDeferred(s, d)
	}
	if len(s.stack) == 1 || f.cont == contThread {
		s.how = "panic"
		if n := len(s.panics); n > 0 {
			s.panicV = s.panics[n-1].val
		}
		s.emit(&Event{Kind: "Unwound", Val: s.panicV, Mem: s.copyMem()})
		s.ended = true
		s.stack = s.stack[:0]
		return nil
	}
	// a deferred call that panics replaces the panic being unwound
	if f.pdepth > 0 && len(s.panics) > 1 {
		n := len(s.panics)
		last := s.panics[n-1]
		s.panics = append(s.panics[:f.pdepth-1:f.pdepth-1], last)
	}
	s.stack = s.stack[:len(s.stack)-1]
	if f.cont == contOnce {
		e.onceDone(s, f) // a once whose function panics counts as done
	}
	s.top().unwind = true
	return nil
}

// Cont runs a function value in the state a path ended in, as another goroutine
// or a later call would.
func (e *Engine) Cont(path *State, fv *Term, args []*Term, ro RunOpt) ([]*State, error) {
	s := path.clone()
	s.e = e
	s.ended = false
	s.how = ""
	s.ret = nil
	s.panicV = nil
	s.panics = nil
	s.held = nil
	s.once = map[*Term]bool{}
	s.stack = nil
	s.events = nil
	s.publish(fv)
	s.release()
	var fn *ssa.Function
	var free []*Term
	switch fv.Op {
	case "func":
		fn = fv.Obj.(*ssa.Function)
	case "closure":
		fn = fv.Obj.(*ssa.Function)
		free = fv.Args
	default:
		return nil, fmt.Errorf("function value %v not resolved", fv)
	}
	ro.Args = args
	if args == nil {
		for i := range fn.Params {
			ro.Args = append(ro.Args, paramTerm(fn, i))
		}
	}
	ro.Free = free
	if ro.Free == nil {
		ro.Free = []*Term{}
	}
	return e.runFrom(s, fn, ro)
}

func isTestFile(name string) bool { return strings.HasSuffix(name, "_test.go") }

// floatIndexLemma: truncating q*n for an integer n >= 0 and a fraction q.
// With 0 <= q < 1 (both comparisons false for NaN) the product in round to
// nearest is below n for n >= 1, so the truncation lies in [0, n-1]; with
// 0 <= q <= 1 it lies in [0, n].
func floatIndexLemma(f *Facts, x, t *Term) {
	if x.Op == "pure" && strings.HasPrefix(x.Aux, "math.Floor") && len(x.Args) == 1 {
		x = x.Args[0]
	}
	if x.Op != "fmul" || len(x.Args) != 2 {
		return
	}
	for i := 0; i < 2; i++ {
		q, n := x.Args[i], x.Args[1-i]
		var in *Term
		if n.Op == "conv" && len(n.Args) == 1 && isIntType(n.Args[0].Typ) {
			in = n.Args[0]
		} else if v, ok := n.floatVal(); ok && v >= 0 && v == float64(int64(v)) {
			in = mkInt(int64(v))
		} else {
			continue
		}
		known := func(c *Term, want bool) bool {
			v, k := f.truth(c)
			return k && v == want
		}
		typ := q.Typ
		zero, one := mkConstVal(constant.MakeInt64(0), typ), mkConstVal(constant.MakeInt64(1), typ)
		if !known(mkLt(zero, q, typ), true) && !known(mkLe(zero, q, typ), true) {
			continue
		}
		if v, k := f.truth(mkLeInt(mkInt(0), in)); !k || !v {
			continue
		}
		f.assume(mkLeInt(mkInt(0), t), true)
		ge1, k := f.truth(mkLeInt(mkInt(1), in))
		lt1 := known(mkLt(q, one, typ), true) || known(mkLe(one, q, typ), false)
		le1 := lt1 || known(mkLe(q, one, typ), true) || known(mkLt(one, q, typ), false)
		switch {
		case lt1 && k && ge1:
			f.assume(mkLeInt(t, mkSub(in, mkInt(1), types.Typ[types.Int])), true)
		case le1:
			f.assume(mkLeInt(t, in), true)
		}
	}
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// sentinel is the value of an error variable of the standard library: a value
// of its own, of a type nothing else has.
func sentinel(g *ssa.Global) *Term {
	key := g.Pkg.Pkg.Path() + "." + g.Name()
	t, ok := sentinelTypes[key]
	if !ok {
		tn := types.NewTypeName(token.NoPos, g.Pkg.Pkg, "type of "+g.Name(), nil)
		named := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		add := func(name string, res types.Type) {
			sig := types.NewSignatureType(types.NewVar(token.NoPos, g.Pkg.Pkg, "e", named), nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", res)), false)
			named.AddMethod(types.NewFunc(token.NoPos, g.Pkg.Pkg, name, sig))
		}
		add("Error", types.Typ[types.String])
		if strings.Contains(g.Name(), "DeadlineExceeded") {
			add("Timeout", types.Typ[types.Bool])
			add("Temporary", types.Typ[types.Bool])
		}
		t = named
		sentinelTypes[key] = t
	}
	return mk("iface", typeKey(t), t, t, mkStruct(t, nil))
}

var sentinelTypes = map[string]types.Type{}

func (p *Program) inRepoPkg(pkg *ssa.Package) bool {
	return pkg != nil && (pkg.Pkg.Path() == modPath || strings.HasPrefix(pkg.Pkg.Path(), modPath+"/"))
}
