package main

import (
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Object histories: the abstract states an object can be in after any sequence
// of operations are computed as a fixpoint. The memory of the object after the
// operations seen so far is joined cell by cell: cells that agree keep their
// value, the others become symbols about which only candidate invariants that
// survive every operation (x >= 0, x >= 1, x <= y) are known.

// subst replaces terms inside a term.
func subst(t *Term, m map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	switch t.Op {
	case "const", "nil", "global", "func", "param":
		return t
	}
	if t.Op == "lin" {
		r := mkConstInt(t.Lin.c, t.Typ)
		ch := false
		for _, x := range t.Lin.t {
			n := subst(x.a, m)
			ch = ch || n != x.a
			r = mkAdd(r, mkMul(mkConstInt(x.k, t.Typ), n, t.Typ), t.Typ)
		}
		if !ch {
			return t
		}
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, m)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	n := mk(t.Op, t.Aux, t.Typ, t.Obj, args...)
	n.F = t.F
	return n
}

func mkConstInt(n int64, typ types.Type) *Term { return mkInt(n) }

// hasTerm reports whether t contains x.
func hasTerm(t, x *Term) bool {
	return anyTerm(t, func(y *Term) bool { return y == x })
}

func anyTerm(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		if t.Lin != nil {
			for _, x := range t.Lin.t {
				if walk(x.a) {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// ---- summaries: calls whose effect is only that some cells change ----

type summary struct{ addrs []*Term }

var summaries = map[*ssa.Function]*summary{}

func (e *Engine) summaryOf(fn *ssa.Function) *summary {
	if r, ok := summaries[fn]; ok {
		return r
	}
	o := e.Opts
	o.Summ = nil
	o.Seq = true
	if o.Out {
		o.Spec, o.Out, o.Known, o.Intr, o.Join = false, false, false, nil, true
	}
	ne := newEngine(e.P, o)
	paths, err := ne.Run(fn, RunOpt{})
	if err != nil {
		panic(budgetError{err.Error()})
	}
	set := map[*Term]bool{}
	base := func(a *Term) *Term {
		r := a
		for x := a; x != nil; x = addrParent(x) {
			if x.Op == "ea" || x.Op == "mv" || x.Op == "mh" {
				r = x.Args[0]
			}
		}
		return r
	}
	for _, s := range paths {
		for a, v := range s.mem {
			if addrRoot(a).Op == "param" && v != mkLoad(a, 0, v.Typ) && !(v.Op == "load" && v.Args[0] == a && v.F == 0) {
				set[base(a)] = true
			}
		}
		for a := range s.mark {
			if addrRoot(a).Op == "param" {
				set[base(a)] = true
			}
		}
	}
	r := &summary{}
	for a := range set {
		r.addrs = append(r.addrs, a)
	}
	sort.Slice(r.addrs, func(i, j int) bool { return r.addrs[i].ID < r.addrs[j].ID })
	summaries[fn] = r
	return r
}

func (e *Engine) summarised(s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) []*State {
	sm := e.summaryOf(fn)
	res := e.freshResult(s, fn.Signature.Results(), "rec", fn.String())
	ev := &Event{Kind: "Rec", Name: fn.String(), Callee: funcTerm(fn), Args: args, Res: res, Defer: cont == contDefer}
	ev.Mem = s.copyMem()
	s.emit(ev)
	m := map[*Term]*Term{}
	for i := range fn.Params {
		if i < len(args) {
			m[paramTerm(fn, i)] = args[i]
		}
	}
	for _, a := range sm.addrs {
		s.havoc(subst(a, m))
	}
	if len(s.held) == 0 {
		s.release()
	}
	e.finishCall(s, instr, res, cont)
	return nil
}

// ---- histories ----

// hist is the fixpoint of an object's states under a set of operations.
type hist struct {
	c     *Ctx
	cells map[*Term]bool // widened cells
	cands []*Term        // candidate invariants over the symbols
	state *State
}

func histSym(a *Term) *Term {
	return mk("hist", strconv.Itoa(a.ID), pointee(a), nil, a)
}

// history computes an abstract state that covers every state in init and every
// state reached from it by step.
func (c *Ctx) history(init []*State, step func(s *State) []*State) *State {
	h := &hist{c: c, cells: map[*Term]bool{}}
	if len(init) == 0 {
		return nil
	}
	all := init
	for round := 0; round < 80; round++ {
		changed := h.join(all, round == 0)
		if !changed && round > 0 {
			return h.state
		}
		all = append([]*State{h.state}, step(h.state.clone())...)
	}
	c.FailAt("-", "analysis", "", "no fixpoint of the object's states found")
	return h.state
}

func (h *hist) join(states []*State, first bool) (changed bool) {
	base := states[0]
	keys := map[*Term]bool{}
	live := map[*Term]bool{}
	for _, s := range states {
		for r := range s.liveRoots() {
			live[r] = true
		}
		for a := range s.mem {
			if a.Typ != nil && keepCell(a) {
				keys[a] = true
			}
		}
	}
	for a := range keys {
		if !live[addrRoot(a)] {
			delete(keys, a)
		}
	}
	var order []*Term
	for a := range keys {
		order = append(order, a)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].ID < order[j].ID })
	for _, a := range order {
		if h.cells[a] {
			continue
		}
		typ := pointee(a)
		v0 := base.clone().read(a, typ)
		for _, s := range states[1:] {
			v := s.clone().read(a, typ)
			if v != v0 {
				if eq, k := s.facts.eqTruth(v, v0); k && eq {
					continue
				}
				h.cells[a] = true
				changed = true
				break
			}
		}
	}
	// the elements of an array are widened together
	pats := map[string]bool{}
	for a := range h.cells {
		if p := cellPattern(a); p != "" {
			pats[p] = true
		}
	}
	for _, a := range order {
		if !h.cells[a] {
			if p := cellPattern(a); p != "" && pats[p] {
				h.cells[a] = true
				changed = true
			}
		}
	}
	// candidates
	valOf := func(s *State, t *Term) *Term { // value of a symbol in a state
		return s.clone().read(t.Args[0], t.Typ)
	}
	holds := func(s *State, cand *Term) bool {
		m := map[*Term]*Term{}
		anyTerm(cand, func(t *Term) bool {
			if t.Op == "hist" {
				m[t] = valOf(s, t)
			}
			return false
		})
		v, k := s.facts.truth(substCond(cand, m))
		return k && v
	}
	if first || changed {
		var ints []*Term
		for _, a := range order {
			if h.cells[a] && isIntType(pointee(a)) {
				ints = append(ints, histSym(a))
			}
		}
		have := map[*Term]bool{}
		for _, k := range h.cands {
			have[k] = true
		}
		dropped := h.dropped()
		add := func(t *Term) {
			if !have[t] && !dropped[t] {
				h.cands = append(h.cands, t)
				have[t] = true
			}
		}
		for _, x := range ints {
			add(mkLe(mkInt(0), x, x.Typ))
			add(mkLe(mkInt(1), x, x.Typ))
			if len(ints) <= 6 {
				for _, y := range ints {
					if x != y && types.Identical(x.Typ, y.Typ) {
						add(mkLe(x, y, x.Typ))
					}
				}
			}
		}
	}
	var keep []*Term
	for _, cand := range h.cands {
		ok := true
		for _, s := range states {
			if !holds(s, cand) {
				ok = false
				break
			}
		}
		if ok {
			keep = append(keep, cand)
		} else {
			changed = true
			histDropped[h] = append(histDropped[h], cand)
		}
	}
	h.cands = keep
	n := base.clone()
	for a := range h.cells {
		n.mem[a] = histSym(a)
	}
	for a := range n.mem {
		if !keepCell(a) || a.Typ == nil || !live[addrRoot(a)] {
			delete(n.mem, a)
		}
	}
	// marks (forgotten memory) of every state
	for _, s := range states {
		for a, v := range s.mark {
			if _, ok := n.mark[a]; !ok && live[addrRoot(a)] {
				n.mark[a] = v
				changed = changed || !first
			}
		}
	}
	n.facts = newFacts()
	for _, s := range states[:1] {
		// facts about immutable things survive
		for k, v := range s.facts.eqc {
			n.facts.eqc[k] = v
		}
	}
	for _, k := range h.cands {
		n.facts.assume(k, true)
	}
	for _, s := range states {
		if s.ver > n.ver {
			n.ver = s.ver
		}
	}
	h.state = n
	return changed
}

var histDropped = map[*hist][]*Term{}

func (h *hist) dropped() map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range histDropped[h] {
		m[t] = true
	}
	return m
}

// keepCell excludes element cells with symbolic index: they are covered by the
// mark of their array.
func keepCell(a *Term) bool {
	switch a.Op {
	case "fa", "alloc", "global", "content":
		return true
	case "ea":
		_, ok := a.Args[1].intVal()
		return ok && keepCell(a.Args[0])
	case "mv", "mh":
		return a.Args[1].Op == "const"
	}
	return false
}

// substCond substitutes inside a condition, rebuilding it.
func substCond(t *Term, m map[*Term]*Term) *Term {
	switch t.Op {
	case "not":
		return mkNot(substCond(t.Args[0], m))
	case "hle":
		x := subst(t.Args[0], m)
		return mkLeInt(x, mkConstInt(t.Obj.(int64), t.Args[0].Typ))
	case "heq":
		x := subst(t.Args[0], m)
		return mkEqInt(x, mkConstInt(t.Obj.(int64), t.Args[0].Typ))
	case "eq":
		return mkEq(subst(t.Args[0], m), subst(t.Args[1], m), nil)
	}
	return subst(t, m)
}

func sortStrings(s []string) { sort.Strings(s) }

// cellPattern names the cells that differ from a only in an element index.
func cellPattern(a *Term) string {
	switch a.Op {
	case "fa":
		if p := cellPattern(a.Args[0]); p != "" {
			return p + "." + a.Aux
		}
	case "ea":
		return strconv.Itoa(a.Args[0].ID) + "[]"
	}
	return ""
}

// liveRoots are the objects reachable from the object under analysis and from
// globals and parameters.
func (s *State) liveRoots() map[*Term]bool {
	live := map[*Term]bool{}
	by := map[*Term][]*Term{}
	var todo []*Term
	add := func(r *Term) {
		if !live[r] {
			live[r] = true
			todo = append(todo, r)
		}
	}
	for a := range s.mem {
		r := addrRoot(a)
		by[r] = append(by[r], a)
		if !isFreshObj(r) {
			add(r)
		}
	}
	for a := range s.mark {
		if r := addrRoot(a); !isFreshObj(r) {
			add(r)
		}
	}
	if s.obj != nil {
		add(addrRoot(s.obj))
	}
	for len(todo) > 0 {
		r := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, a := range by[r] {
			anyTerm(s.mem[a], func(t *Term) bool {
				if isFreshObj(t) {
					add(t)
				}
				return false
			})
		}
	}
	return live
}
