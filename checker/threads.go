package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Other activity. A driver may leave a function in the variable "interrupt":
// the analysis considers it running before any one of the synchronising
// operations of the functions under study (Opts.Intr), and when those wait for
// a channel nothing has been sent to. Without data races (C01) nothing else can
// be told apart by the activities.

func chanClosed(ch *Term) *Term { return mk("chclosed", "", nil, types.Typ[types.Bool], ch) }
func chanPend(ch *Term) *Term   { return mk("chpend", "", nil, types.Typ[types.Int], ch) }

// chanReady says whether a receive from a channel made on this path can
// proceed; known is false for other channels.
func (e *Engine) chanReady(s *State, ch *Term) (ready, known bool) {
	if !e.Opts.Spec || ch.Op != "chan" {
		if e.Opts.Spec && ch.isNil() {
			return false, true
		}
		return false, false
	}
	if v, ok := s.mem[chanPend(ch)]; ok {
		if n, ok := v.intVal(); ok && n > 0 {
			return true, true
		}
	}
	v, ok := s.mem[chanClosed(ch)]
	if !ok {
		return false, e.Opts.Intr != nil
	}
	return v.boolVal()
}

// take receives a value that was sent before.
func (e *Engine) take(s *State, ch *Term) bool {
	if v, ok := s.mem[chanPend(ch)]; ok && e.Opts.Intr != nil {
		if n, ok := v.intVal(); ok && n > 0 {
			s.mem[chanPend(ch)] = mkInt(n - 1)
			return true
		}
	}
	return false
}

// A goroutine the code under analysis has started. It makes steps when a driver
// lets it (resume), and when everything else waits.
type thread struct {
	frames []*Frame
	done   bool
	stuck  int // number of events when it last found nothing to do
}

type running struct {
	i      int
	base   int             // frames below the goroutine's
	instr  ssa.Instruction // call to finish when it pauses; nil: the interrupted instruction is executed again
	events int
	slices bool // it may pause anywhere
	panics []panicRec
	intr   int
}

func (e *Engine) spawn(s *State, in *ssa.Go, d deferred) {
	fn, args := d.static, d.args
	var free []*Term
	if fn == nil && d.callee != nil {
		switch d.callee.Op {
		case "func":
			fn = d.callee.Obj.(*ssa.Function)
		case "closure":
			fn = d.callee.Obj.(*ssa.Function)
			free = d.callee.Args
		}
	}
	if fn == nil || fn.Blocks == nil {
		return
	}
	start := s.start
	f := e.push(s, fn, args, free, in)
	f.cont = contThread
	f.t = len(s.threads) + 1
	s.stack = s.stack[:len(s.stack)-1]
	s.start = start
	s.threads = append(s.threads, &thread{frames: []*Frame{f}, stuck: -1})
}

// resume lets a goroutine go on.
func (e *Engine) resume(s *State, instr ssa.Instruction, slices bool) bool {
	if len(s.run) > 0 {
		return false
	}
	for i, th := range s.threads {
		if th.done || th.stuck == len(s.events) {
			continue
		}
		s.run = append(s.run, running{i: i, base: len(s.stack), instr: instr, events: len(s.events), slices: slices, panics: s.panics, intr: s.intr})
		s.panics = nil
		s.intr = 2
		s.stack = append(s.stack, th.frames...)
		th.frames = nil
		s.start = s.top().pc == 0 && s.top().block.Index == 0 && s.top().prev == nil
		s.noIntr = true
		return true
	}
	return false
}

func (e *Engine) paused(s *State) {
	r := s.run[len(s.run)-1]
	s.run = s.run[:len(s.run)-1]
	s.panics = r.panics
	s.intr = r.intr
	s.start = false
	if r.instr != nil {
		e.finishCall(s, r.instr, nil, contNormal)
		s.noIntr = false
	} else {
		s.noIntr = true
	}
}

// suspend pauses the running goroutine.
func (e *Engine) suspend(s *State) {
	r := s.run[len(s.run)-1]
	th := s.threads[r.i]
	th.frames = append([]*Frame(nil), s.stack[r.base:]...)
	s.stack = s.stack[:r.base]
	if len(s.events) == r.events {
		th.stuck = len(s.events)
	}
	e.paused(s)
}

func (e *Engine) threadEnd(s *State) {
	r := s.run[len(s.run)-1]
	s.threads[r.i].done = true
	e.paused(s)
}

// busy: the lock is held by another activity.
func (e *Engine) busy(s *State, l *Term, mode string) bool {
	if e.Opts.Intr == nil {
		return false
	}
	for _, h := range s.held {
		if h.Lock == l && h.T != s.top().t && (h.Mode != "R" || mode != "R") {
			return true
		}
	}
	return false
}

// waitCall stands for the parts of time, context and sync that make others
// wait.
func (e *Engine) waitCall(s *State, instr ssa.Instruction, name string, args []*Term, cont contKind) bool {
	to := map[string]string{
		"time.NewTicker": "newTicker", "time.NewTimer": "newTimer", "time.After": "timeAfter", "time.Tick": "timeAfter",
		"(*time.Ticker).Stop": "stopTicker", "(*time.Timer).Stop": "stopTimer", "(*time.Timer).Reset": "resetTimer", "(*time.Ticker).Reset": "resetTicker",
		"context.WithCancel": "withCancel",
	}[name]
	return to != "" && e.redirect(s, instr, to, args, cont)
}

func (e *Engine) isSyncOp(fn *ssa.Function) bool {
	if _, op, ok := e.P.lockMethod(fn); ok {
		return op != "unlock"
	}
	return extPkg(fn) == "sync/atomic" || extPkg(fn) == "sync" && fn.Name() == "Do"
}

func (e *Engine) pending(s *State, name string) (cell, f *Term) {
	pkg := e.P.SSA.ImportedPackage(modPath + "/" + specPkg)
	if pkg == nil || pkg.Var(name) == nil {
		return nil, nil
	}
	cell = globalTerm(pkg.Var(name))
	f = s.mem[cell]
	if f == nil || f.Op != "closure" && f.Op != "func" {
		return cell, nil
	}
	return cell, f
}

func (e *Engine) run1(s *State, cell, f *Term, instr ssa.Instruction) {
	s.mem[cell] = mkNil()
	s.intr++
	var free []*Term
	if f.Op == "closure" {
		free = f.Args
	}
	s.emit(&Event{Kind: "Interleave", Callee: f, Instr: instr})
	nf := e.push(s, f.Obj.(*ssa.Function), nil, free, instr)
	nf.cont = contRetry
	e.acts++
	nf.t = 1000 + e.acts
}

// interleave forks the path at a synchronising operation: the other activity
// runs now, or later.
func (e *Engine) interleave(s *State, instr ssa.Instruction, redo func(*State)) ([]*State, bool) {
	if e.Opts.Intr == nil {
		return nil, false
	}
	if !e.Opts.Intr(s.top().fn) {
		return nil, false
	}
	if s.noIntr {
		s.noIntr = false
		return nil, false
	}
	if n := len(s.run); n > 0 && s.run[n-1].slices {
		// a goroutine may pause before any step
		later := s.clone()
		later.noIntr = true
		if redo != nil {
			redo(s)
			redo(later)
		}
		e.suspend(s)
		return []*State{later, s}, true
	}
	cell, f := e.pending(s, "interrupt")
	if f == nil || s.intr > 1 {
		return nil, false
	}
	later := s.clone()
	later.noIntr = true
	if redo != nil {
		redo(s)
		redo(later)
	}
	e.run1(s, cell, f, instr)
	return []*State{later, s}, true
}

// blocked: nothing can happen here until other activity runs.
func (e *Engine) blocked(s *State, instr ssa.Instruction) []*State {
	if len(s.run) > 0 {
		e.suspend(s)
		return nil
	}
	if s.intr > 0 {
		s.ended, s.how = true, "infeasible"
		return nil
	}
	for _, name := range []string{"interrupt", "waiting"} {
		if cell, f := e.pending(s, name); f != nil {
			e.run1(s, cell, f, instr)
			return nil
		}
	}
	if e.resume(s, nil, false) {
		return nil
	}
	s.emit(&Event{Kind: "Select", Name: "never", OK: true, Instr: instr})
	s.ended, s.how = true, "blocked"
	return nil
}

// leftIn says whether an object of a package, or a function of it, can be
// reached from a value.
func (e *Engine) leftIn(s *State, from *Term, pkg string) bool {
	cells := map[*Term][]*Term{}
	for a := range s.mem {
		r := addrRoot(a)
		cells[r] = append(cells[r], a)
	}
	of := func(t types.Type) bool {
		if t == nil {
			return false
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
	}
	seen := map[*Term]bool{}
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] || found {
			return
		}
		seen[t] = true
		if (t.Op == "func" || t.Op == "closure") && extPkg(t.Obj.(*ssa.Function)) == pkg || isFreshObj(t) && of(t.Typ) {
			found = true
			return
		}
		if t.Typ != nil {
			if _, ok := t.Typ.Underlying().(*types.Slice); ok {
				if es, ok := e.knownElems(s, t); ok {
					for _, x := range es {
						walk(x)
					}
					return
				}
			}
		}
		for _, a := range cells[t] {
			if a.Op == "mv" {
				if h, ok := s.mem[mapHas(a.Args[0], a.Args[1])]; ok {
					if b, ok := h.boolVal(); ok && !b {
						continue
					}
				}
				walk(a.Args[1])
			}
			walk(s.mem[a])
		}
		switch t.Op {
		case "load", "const", "nil", "global", "param":
			return
		case "fa", "ea":
			walk(addrRoot(t))
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(from)
	return found
}
