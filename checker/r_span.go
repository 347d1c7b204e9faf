package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// specModels are the summaries used inside the contract drivers: what a
// distribution does on insertion is C11's and C17's business, how an error is
// named is C20's.
func (c *Ctx) specModels() specModel {
	ins := map[*ssa.Function]types.Type{}
	for _, t := range distTypes {
		if f := c.P.Method("", t, "Insert"); f != nil {
			ins[f] = c.P.Type("", t)
		}
	}
	rd := c.summDistReaders()
	cpy := map[*ssa.Function]types.Type{}
	for _, t := range distTypes {
		if f := c.P.Method("", t, "Copy"); f != nil {
			cpy[f] = c.P.Type("", t)
		}
	}
	return func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if typ, ok := ins[fn]; ok {
			at := func(n string) *Term { return c.fieldAddr(args[0], typ, n) }
			cnt, sum, rec := at("Count"), at("Sum"), at("Recent")
			if cnt == nil || sum == nil || rec == nil {
				return false
			}
			n, t := s.read(cnt, pointee(cnt)), s.read(sum, pointee(sum))
			s.emit(&Event{Kind: "Insert", Addr: args[0], Val: args[1], Instr: instr})
			e.summarised(s, instr, fn, args, cont)
			s.write(cnt, mkAdd(n, mkInt(1), pointee(cnt)), pointee(cnt))
			s.write(sum, e.binop(s, addTok, t, args[1], pointee(sum), pointee(sum)), pointee(sum))
			s.write(rec, args[1], pointee(rec))
			return true
		}
		if typ, ok := cpy[fn]; ok {
			o := e.newObj("alloc", instr, types.NewPointer(typ))
			s.emit(&Event{Kind: "CopyDist", Addr: args[0], Res: o, Instr: instr})
			st := typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if ft := st.Field(i).Type(); !explodes(ft) || isRepoType(ft) {
					from := mkFieldAddr(args[0], i, typ)
					s.write(mkFieldAddr(o, i, typ), s.read(from, ft), ft)
				}
			}
			e.finishCall(s, instr, o, cont)
			return true
		}
		if rd(fn) {
			e.summarised(s, instr, fn, args, cont)
			return true
		}
		if isErrNamer(fn) {
			e.finishCall(s, instr, mk("pure", "errname", types.Typ[types.String], nil, args[0]), cont)
			return true
		}
		return false
	}
}

// isErrNamer: the library's functions from an error to its name.
func isErrNamer(fn *ssa.Function) bool {
	sig := fn.Signature
	return sig.Recv() == nil && sig.Params().Len() == 1 && sig.Results().Len() == 1 && fn.Parent() == nil && !isSpecFn(fn) &&
		types.Identical(sig.Params().At(0).Type(), types.Universe.Lookup("error").Type()) && isStringType(sig.Results().At(0).Type()) && strings.HasPrefix(fnName(fn), "monkit.")
}

func (c *Ctx) specOpts() Opts {
	return Opts{Seq: true, NoReads: true, Known: true, Spec: true, Model: c.specModels()}
}

func init() {
	register(&checkDef{id: "C05", spec: true, rule: "contract drivers over the exported API: for an arbitrary FuncStats or Func, every path through starting, finishing (nil error pointer, nil error, error, panic) and resetting must change success, failure, panic and per-name error counts exactly as stated, the recorded time being the difference of the two clock readings; concurrent updates are checked to happen in one critical section", run: runC05})
}

func runC05(c *Ctx) {
	c.SpecAll("outcome", c.specOpts())
	c.Floor("outcome", 40)
	c.lostUpdates("lost-update", func(class string) bool {
		return strings.HasPrefix(class, "monkit.FuncStats.")
	})
}

// lostUpdates looks, over every entry point of the repository, for a write to
// shared memory computed from a value of the same cell that was read before
// the current critical section (or without one): an update that a concurrent
// one can undo.
func (c *Ctx) lostUpdates(rule string, match func(class string) bool) {
	n := 0
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					switch ev.Kind {
					case "Write", "MapWrite", "AtomicStore", "AtomicSwap":
					case "AtomicAdd", "AtomicCAS", "AtomicRMW":
						if ev.Kind == "AtomicCAS" && ev.OK && ev.Old != nil && ev.Old.Op == "load" && ev.Old.Args[0] == ev.Addr && !s.facts.mentions(ev.Old) &&
							!anyTerm(ev.Val, func(t *Term) bool { return t == ev.Old }) {
							break // whatever was there is replaced unseen
						}
						if !ev.Local && match(classKey(ev.Addr)) {
							n++
						}
						continue
					default:
						continue
					}
					if ev.Local || !match(classKey(ev.Addr)) {
						continue
					}
					n++
					stale := anyTerm(ev.Val, func(t *Term) bool {
						return t.Op == "load" && t != ev.Old && (t.Args[0] == ev.Addr || normAddr(t.Args[0]) == normAddr(ev.Addr)) && !sameSection(evs, ev, t)
					})
					if stale {
						c.FailPath(ev.Pos(), rule, s, "%s stores to %s a value computed from an earlier reading of it; what others stored meanwhile is lost", fnName(ev.Fn), classKey(ev.Addr))
					}
					// a store decided by an earlier reading, with nothing to keep
					// others from changing it in between
					if exclusive(ev.Held) {
						continue
					}
					for i := 0; i < len(evs) && evs[i] != ev; i++ {
						r := evs[i].Res
						if evs[i].Kind != "AtomicLoad" && evs[i].Kind != "Read" || normAddr(evs[i].Addr) != normAddr(ev.Addr) {
							continue
						}
						if r == nil {
							r = evs[i].Val
						}
						if r != nil && s.facts.mentions(r) {
							c.FailPath(ev.Pos(), rule, s, "%s stores to %s depending on an earlier reading of it; what others stored meanwhile is lost", fnName(ev.Fn), classKey(ev.Addr))
							break
						}
					}
				}
			})
		}
	}
	c.Count(rule, n)
}

// sameSection: the value of an atomic cell was loaded in the critical section of
// the store.
func sameSection(evs []*Event, ev *Event, t *Term) bool {
	return ev.Kind == "AtomicStore" && inSection(ev, evs, func(x *Event) bool { return x.Kind == "AtomicLoad" && x.Res == t })
}

// normAddr prints an address without the versions of the loads in it.
func normAddr(a *Term) string {
	if a == nil {
		return "-"
	}
	if a.Op == "load" {
		return "*" + normAddr(a.Args[0])
	}
	var b strings.Builder
	b.WriteString(a.Op)
	b.WriteByte(':')
	b.WriteString(a.Aux)
	if a.Op == "lin" {
		b.WriteString(a.String())
	}
	for _, x := range a.Args {
		b.WriteByte('(')
		b.WriteString(normAddr(x))
		b.WriteByte(')')
	}
	return b.String()
}

func init() {
	register(&checkDef{id: "C04", spec: true, rule: "contract drivers over the exported API: for every way of starting a span (Task, ResetTrace, RemoteTrace, Scope.Task, Observe), every shape of context and every outcome, Current, Highwater, Trace.Spans, RootSpans, Children and Parents change exactly as stated; every raise of the running count is followed by a covering highwater, and shared counts are never updated from stale readings", run: runC04})
}

func runC04(c *Ctx) {
	c.SpecAll("balance", c.specOpts())
	c.Floor("balance", 200)
	c.noteMax("highwater")
	c.lostUpdates("lost-update", func(class string) bool {
		switch class {
		case "monkit.FuncStats.current", "monkit.FuncStats.highwater", "monkit.Trace.spanCount":
			return true
		}
		return strings.HasPrefix(class, "monkit.funcSet.") || strings.HasPrefix(class, "monkit.spanBag.") || strings.HasPrefix(class, "monkit.registryInternal.")
	})
}

// exclusive says whether a lock or a once keeps everybody else out.
func exclusive(held []Held) bool {
	for _, h := range held {
		if h.Mode == "W" || h.Mode == "oncerun" {
			return true
		}
	}
	return false
}

// mentions says whether something is known about a term.
func (f *Facts) mentions(t *Term) bool {
	has := func(x *Term) bool { return anyTerm(x, func(y *Term) bool { return y == t }) }
	for k := range f.b {
		if has(k) {
			return true
		}
	}
	for k := range f.iv {
		if has(k) {
			return true
		}
	}
	for k := range f.eqc {
		if has(k) {
			return true
		}
	}
	return false
}

// cellOf resolves the memory cell an exported getter reports.
func (c *Ctx) cellOf(typ, method string) string {
	fn := c.Need(c.P.Method("", typ, method), typ+"."+method)
	if fn == nil {
		return ""
	}
	cells := map[string]bool{}
	for _, s := range c.Run(fn, Opts{}, RunOpt{}) {
		for _, ev := range s.events {
			if ev.Kind == "Return" && len(ev.Args) == 1 {
				v := ev.Args[0]
				for v.Op == "conv" {
					v = v.Args[0]
				}
				if v.Op == "load" {
					cells[classKey(v.Args[0])] = true
				} else {
					cells[""] = true
				}
			}
		}
	}
	if len(cells) == 1 {
		for k := range cells {
			if k != "" {
				return k
			}
		}
	}
	c.Fail(fn.Pos(), "anchor", "%s.%s does not report one memory cell", typ, method)
	return ""
}

// noteMax: whoever raises the number of running calls to n leaves the highest
// concurrency at n or more, whatever others do meanwhile.
func (c *Ctx) noteMax(rule string) {
	cur, high := c.cellOf("FuncStats", "Current"), c.cellOf("FuncStats", "Highwater")
	if cur == "" || high == "" {
		return
	}
	// the innermost functions that do both: raise the count and look at the
	// highest concurrency
	frames := map[*ssa.Function]bool{}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			for i, ev := range s.events {
				if ev.Addr == nil || ev.Local || classKey(ev.Addr) != cur || ev.Kind == "AtomicLoad" || ev.Kind == "Read" {
					continue
				}
				k, f := len(ev.Sites), ev.Fn
				for _, x := range s.events[i+1:] {
					if x.Addr == nil || x.Local || classKey(x.Addr) != high {
						continue
					}
					n := 0
					for n < k && n < len(x.Sites) && x.Sites[n] == ev.Sites[n] {
						n++
					}
					if n < k {
						k, f = n, ev.Sites[n].Parent()
					}
				}
				frames[f] = true
			}
		}
	}
	var fns []*ssa.Function
	for f := range frames {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		for _, s := range c.Run(fn, Opts{Model: c.specModels()}, RunOpt{}) {
			for i, ev := range s.events {
				if ev.Local || ev.Addr == nil || classKey(ev.Addr) != cur {
					continue
				}
				var r *Term
				switch ev.Kind {
				case "AtomicAdd":
					if n, ok := ev.Val.intVal(); ok && n <= 0 {
						continue
					}
					r = ev.Res
				case "Write", "AtomicStore", "AtomicSwap":
					if n, ok := ev.Val.intVal(); ok && n <= 0 {
						continue
					}
					r = ev.Val
				case "AtomicCAS":
					if !ev.OK {
						continue
					}
					r = ev.Val
				default:
					continue
				}
				if ev.Kind != "AtomicAdd" && ev.Old != nil {
					// a decrement
					if v, k := s.facts.truth(mkLeInt(r, mkSub(ev.Old, mkInt(1), ev.Old.Typ))); k && v {
						continue
					}
				}
				c.Count(rule, 1)
				ok := false
				for _, x := range s.events[i+1:] {
					if x.Kind == "LoopLeave" {
						// a loop variable that only ever holds readings of the cell
						for lv, init := range x.Loop.Init {
							reading := true
							for _, v := range append([]*Term{init}, x.Loop.Back[lv]...) {
								reading = reading && v.Op == "load" && classKey(v.Args[0]) == high
							}
							if reading {
								if b, k := s.facts.truth(mkLeInt(r, lv)); k && b {
									ok = true
								}
							}
						}
					}
					if x.Addr == nil || classKey(x.Addr) != high {
						continue
					}
					var v *Term
					switch {
					case x.Kind == "AtomicLoad" || x.Kind == "Read":
						if v = x.Res; v == nil {
							v = x.Val
						}
					case x.Kind == "AtomicCAS" && x.OK, x.Kind == "AtomicStore", x.Kind == "AtomicSwap", x.Kind == "Write":
						v = x.Val
					}
					if v != nil {
						if b, k := s.facts.truth(mkLeInt(r, v)); k && b {
							ok = true
						}
					}
				}
				if !ok && s.how == "return" {
					c.FailPath(ev.Pos(), rule, s, "%s raises the number of running calls without making sure that the highest concurrency covers the number it reached", fnName(ev.Fn))
				}
			}
		}
	}
	c.Floor(rule, 2)
}

func init() {
	register(&checkDef{id: "C06", spec: true, rule: "contract drivers: every exit function, deferred around a function that returns or panics with an arbitrary value, is shown to keep the panic value, the return and the error variable", run: func(c *Ctx) {
		c.SpecAll("transparent", c.specOpts())
		c.Floor("transparent", 50)
	}})
	register(&checkDef{id: "C09", spec: true, rule: "contract drivers over the exported API: observers registered and cancelled in every order around spans of every outcome are told of each start and finish exactly once, with the very span, error, panic flag and time, and contexts flow through them in order; the list of observers is changed by atomic steps that neither lose nor undo others and are repeated until they succeed, removals excluding each other", run: func(c *Ctx) {
		c.SpecAll("observer", c.specOpts())
		c.Floor("observer", 50)
		match := func(class string) bool {
			return strings.HasPrefix(class, "monkit.spanObserverTuple.") || class == "monkit.Trace.spanObservers"
		}
		c.lostUpdates("lost-update", match)
		c.listSteps("list", match)
	}})
}

func init() {
	drv := func(c *Ctx) {
		c.SpecAll("driver", c.specOpts())
		c.Floor("driver", 50)
	}
	register(&checkDef{id: "C07", spec: true, rule: "contract drivers over the exported API: for every way of starting a span and every shape of context, the context carries the new span, which reports the function, trace, parent id and arguments stated; other context values, deadlines and cancellation stay visible", run: drv})
	register(&checkDef{id: "C08", spec: true, rule: "contract drivers over the exported API: trees of three spans finished in every order, with spans started before and after their parent finished, are listed as root spans exactly while they run without a running parent; the orphaned flag, the finished flag and the list of children of a span are decided and changed in one critical section of that span", run: func(c *Ctx) {
		drv(c)
		c.orphanSections("section")
	}})
	register(&checkDef{id: "C10", spec: true, rule: "contract drivers over the exported API: watchers registered and cancelled in every order see each new trace exactly while registered; the set of watchers and the published watcher change in one critical section; observing all traces registers for new ones before looking at the live ones, and takes on and drops traces in single critical sections", run: func(c *Ctx) {
		drv(c)
		c.watcherSections("section")
	}})
}

// listSteps: an atomic step on the list of observers is repeated when it fails,
// and one that unlinks (stores what the list itself held) excludes the others:
// of two neighbours unlinked at once one would stay.
func (c *Ctx) listSteps(rule string, match func(string) bool) {
	frames := map[*ssa.Function]bool{}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					if ev.Kind == "AtomicCAS" && match(classKey(ev.Addr)) {
						// the outermost function of the package
						f := ev.Fn
						for i := len(ev.Sites) - 1; i >= 0; i-- {
							if strings.HasPrefix(fnName(ev.Sites[i].Parent()), "(*monkit.Trace).") || strings.HasPrefix(fnName(ev.Sites[i].Parent()), "monkit.") {
								f = ev.Sites[i].Parent()
							}
						}
						frames[f] = true
					}
				}
			})
		}
	}
	{
		for _, s := range c.runFrames(frames) {
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for i, ev := range evs {
					if ev.Addr == nil || ev.Local || !match(classKey(ev.Addr)) {
						continue
					}
					switch ev.Kind {
					case "AtomicCAS", "AtomicStore", "AtomicSwap", "Write":
					default:
						continue
					}
					c.Count(rule, 1)
					v := ev.Val
					if (v.Op == "load" || v.isNil()) && !exclusive(ev.Held) {
						c.FailPath(ev.Pos(), rule, st, "%s unlinks an observer without keeping other removals out", fnName(ev.Fn))
					}
					if ev.Kind == "AtomicCAS" && !ev.OK && st == s && s.how == "return" {
						again := false
						for _, x := range evs[i+1:] {
							again = again || x.Addr != nil && match(classKey(x.Addr)) && (x.Kind == "AtomicCAS" && x.OK || x.Kind == "AtomicLoad")
						}
						if !again {
							c.FailPath(ev.Pos(), rule, st, "%s gives up after a failed atomic step on the list of observers", fnName(ev.Fn))
						}
					}
				}
			})
		}
	}
	c.Floor(rule, 2)
}

// watcherSections: the watcher that new traces see is computed from the set of
// watchers; unless both change in one critical section, a concurrent
// registration or cancellation is undone.
func (c *Ctx) watcherSections(rule string) {
	reg := c.Need(c.P.Method("", "Registry", "ObserveTraces"), "Registry.ObserveTraces")
	rootSpans := c.Need(c.P.Method("", "Registry", "RootSpans"), "Registry.RootSpans")
	all := c.Need(c.P.Func("collect", "ObserveAllTraces"), "collect.ObserveAllTraces")
	if reg == nil || rootSpans == nil || all == nil {
		return
	}
	pub, sets := map[string]bool{}, map[string]bool{}
	isSet := func(ev *Event) bool {
		return ev.Addr != nil && !ev.Local && (ev.Kind == "Write" && !isIntType(ev.Val.Typ) || ev.Kind == "MapWrite" || ev.Kind == "MapDelete")
	}
	isPub := func(ev *Event) bool {
		return ev.Addr != nil && !ev.Local && (ev.Kind == "AtomicStore" || ev.Kind == "AtomicSwap" || ev.Kind == "AtomicCAS" && ev.OK)
	}
	for _, s := range c.Run(reg, Opts{}, RunOpt{}) {
		for _, ev := range s.events {
			if isPub(ev) {
				pub[classKey(ev.Addr)] = true
			} else if isSet(ev) {
				sets[classKey(ev.Addr)] = true
			}
		}
	}
	frames := map[*ssa.Function]bool{}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			for _, ev := range s.events {
				if isSet(ev) && sets[classKey(ev.Addr)] || isPub(ev) && pub[classKey(ev.Addr)] {
					frames[sectionFrame(s.events, ev)] = true
				}
			}
		}
	}
	for _, s := range c.runFrames(frames) {
		for i, ev := range s.events {
			if isSet(ev) && sets[classKey(ev.Addr)] && len(pub) > 0 {
				c.Count(rule, 1)
				if !inSection(ev, s.events[i:], func(o *Event) bool { return isPub(o) && pub[classKey(o.Addr)] }) {
					c.FailPath(ev.Pos(), rule, s, "%s changes the set of trace watchers without publishing it in the same critical section", fnName(ev.Fn))
				}
			}
			if isPub(ev) && pub[classKey(ev.Addr)] && ev.Kind != "AtomicCAS" && !exclusive(ev.Held) {
				c.FailPath(ev.Pos(), rule, s, "%s publishes the trace watchers without holding their lock", fnName(ev.Fn))
			}
		}
	}
	// ObserveAllTraces: traces that start meanwhile are not missed
	roots := map[string]bool{}
	for _, s := range c.Run(rootSpans, Opts{Join: true}, RunOpt{}) {
		for _, ev := range s.events {
			if ev.Kind == "Lock" && !ev.Local {
				roots[classKey(ev.Addr)] = true
			}
		}
	}
	for _, s := range c.Run(all, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
		watching := false
		looked := false
		for _, ev := range s.events {
			if ev.Addr == nil {
				continue
			}
			if isPub(ev) && pub[classKey(ev.Addr)] || isSet(ev) && sets[classKey(ev.Addr)] {
				watching = true
			}
			if ev.Kind == "Lock" && roots[classKey(ev.Addr)] {
				looked = true
				if !watching {
					c.FailPath(ev.Pos(), rule, s, "%s looks at the live traces before watching for new ones; a trace that starts in between is missed", fnName(all))
					break
				}
			}
		}
		if looked && watching {
			c.Count(rule, 1)
		}
	}
	c.capturedSections(rule, all)
	c.Floor(rule, 5)
}

// capturedSections: the closures of a function touch what they share in one
// critical section each.
func (c *Ctx) capturedSections(rule string, parent *ssa.Function) {
	n := 0
	shared := func(t *Term) bool {
		return t.Op == "alloc" && strings.Contains(t.Aux, "shared:"+fnName(parent)+".")
	}
	for _, fn := range c.P.Funcs {
		if fn.Parent() != parent {
			continue
		}
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			secs := map[int]bool{}
			for _, ev := range s.events {
				switch ev.Kind {
				case "Read", "Write", "MapRead", "MapWrite", "MapDelete":
					if !anyTerm(ev.Addr, shared) {
						continue
					}
				case "AtomicCAS", "AtomicStore":
				default:
					continue
				}
				if ev.Local || !s.isMutable(ev.Addr) {
					continue
				}
				n++
				sec := -1
				for _, h := range ev.Held {
					if h.Mode == "W" {
						sec = h.Sec
						break
					}
				}
				// what was read in an earlier section is stale by now
				bad := sec == -1
				for o := range secs {
					bad = bad || o != sec
				}
				if strings.HasSuffix(ev.Kind, "Read") {
					secs[sec] = true
				}
				if bad {
					c.FailPath(ev.Pos(), rule, s, "%s touches what it shares with the other closures of %s in more than one critical section", fnName(fn), fnName(parent))
					break
				}
			}
		}
	}
	c.Count(rule, n)
}

// sections lists the critical sections (exclusive) an event lies in.
func sections(ev *Event) map[int]bool {
	m := map[int]bool{}
	for _, h := range ev.Held {
		if h.Mode == "W" {
			m[h.Sec] = true
		}
	}
	return m
}

// inSection finds another event of the same critical section.
func inSection(ev *Event, evs []*Event, match func(*Event) bool) bool {
	secs := sections(ev)
	for _, x := range evs {
		if x == ev || !match(x) {
			continue
		}
		for s := range sections(x) {
			if secs[s] {
				return true
			}
		}
	}
	return false
}

// inSectionOrAfter also accepts a later event.
func inSectionOrAfter(ev *Event, evs []*Event, match func(*Event) bool) bool {
	after := false
	for _, x := range evs {
		if x == ev {
			after = true
		} else if after && match(x) {
			return true
		}
	}
	return inSection(ev, evs, match)
}

func evVal(ev *Event) *Term {
	if ev.Res != nil {
		return ev.Res
	}
	return ev.Val
}

// orphanSections: a span is told that it has lost its parent either by the
// parent's end (if it was a child then) or on being added to an ended parent;
// it is on the list of orphans exactly from then until its own end. Whatever
// the interleaving, that needs the finished flag, the orphaned flag and the
// children to be read and changed together.
func (c *Ctx) orphanSections(rule string) {
	orph := c.cellOf("Span", "Orphaned")
	if orph == "" {
		return
	}
	kids := map[string]bool{}
	ch := c.Need(c.P.Method("", "Span", "Children"), "Span.Children")
	if ch == nil {
		return
	}
	for _, s := range c.Run(ch, Opts{}, RunOpt{}) {
		c.P.eachEvents(s, func(evs []*Event) {
			for _, ev := range evs {
				if (ev.Kind == "Read" || ev.Kind == "MapRead") && !ev.Local && len(ev.Held) > 0 && s.isMutable(ev.Addr) {
					kids[classKey(ev.Addr)] = true
				}
			}
		})
	}
	base := func(a *Term) *Term {
		for a.Op == "fa" || a.Op == "mv" || a.Op == "mh" || a.Op == "mapc" || a.Op == "load" && a.Args[0].Op == "fa" && kids[classKey(a.Args[0])] {
			if a.Op == "fa" && typeName(a.Obj.(types.Type)) == "monkit.Span" {
				return a.Args[0]
			}
			a = a.Args[0]
		}
		return a
	}
	isSpanCell := func(ev *Event) bool {
		return ev.Addr != nil && ev.Addr.Op == "fa" && typeName(ev.Addr.Obj.(types.Type)) == "monkit.Span"
	}
	done := map[string]bool{}
	frames := map[*ssa.Function]bool{}
	for _, fn := range c.P.roots() {
		for _, s := range c.Run(fn, Opts{Join: true, Model: c.specModels()}, RunOpt{}) {
			c.P.eachIter(s, func(st *State, evs []*Event) {
				for _, ev := range evs {
					if ev.Kind == "Write" && !ev.Local && isSpanCell(ev) && ev.Val.Op == "const" && strings.HasPrefix(ev.Val.Aux, "b:") {
						frames[sectionFrame(st.events, ev)] = true
						if classKey(ev.Addr) != orph && ev.Val.isTrue() {
							done[classKey(ev.Addr)] = true
						}
					}
					if (ev.Kind == "Write" || ev.Kind == "MapWrite") && ev.Addr != nil && kids[classKey(ev.Addr)] {
						frames[sectionFrame(st.events, ev)] = true
					}
				}
			})
		}
	}
	runs := c.runFrames(frames)
	if len(done) != 1 {
		c.Fail(ch.Pos(), "anchor", "a span has no single flag that is raised when it finishes (%d found)", len(done))
		return
	}
	isRead := func(ev *Event) bool { return ev.Kind == "Read" || ev.Kind == "AtomicLoad" }
	for _, s := range runs {
		c.P.eachIter(s, func(st *State, evs []*Event) {
			for _, ev := range evs {
				if ev.Addr == nil || ev.Local {
					continue
				}
				k := classKey(ev.Addr)
				x := base(ev.Addr)
				same := func(o *Event) bool { return o.Addr != nil && base(o.Addr) == x }
				switch {
				case ev.Kind == "Write" && k == orph && ev.Val.isTrue():
					c.Count(rule, 1)
					if !inSection(ev, st.events, func(o *Event) bool {
						if !isRead(o) || !same(o) || !done[classKey(o.Addr)] {
							return false
						}
						v, known := st.facts.truth(evVal(o))
						return known && !v
					}) {
						c.FailPath(ev.Pos(), rule, st, "%s makes a span an orphan without knowing, in the same critical section, that it still runs", fnName(ev.Fn))
					}
					if !inSection(ev, st.events, func(o *Event) bool {
						return o.Kind == "MapWrite" && o.Addr.Op != "" && len(o.Addr.Args) > 1 && o.Addr.Args[1] == x
					}) {
						c.FailPath(ev.Pos(), rule, st, "%s makes a span an orphan without listing it in the same critical section; its end may come in between", fnName(ev.Fn))
					}
				case ev.Kind == "Write" && done[k] && ev.Val.isTrue():
					c.Count(rule, 1)
					if !inSectionOrAfter(ev, st.events, func(o *Event) bool { return isRead(o) && same(o) && classKey(o.Addr) == orph }) {
						c.FailPath(ev.Pos(), rule, st, "%s finishes a span without asking in the same critical section or afterwards whether it is an orphan", fnName(ev.Fn))
					}
					if !inSectionOrAfter(ev, st.events, func(o *Event) bool { return o.Kind == "Read" && same(o) && kids[classKey(o.Addr)] }) {
						c.FailPath(ev.Pos(), rule, st, "%s finishes a span without collecting its children in the same critical section or afterwards", fnName(ev.Fn))
					}
				case (ev.Kind == "Write" || ev.Kind == "MapWrite") && kids[k] && addsSpan(st, ev):
					c.Count(rule, 1)
					if !inSectionOrAfter(ev, st.events, func(o *Event) bool { return isRead(o) && same(o) && done[classKey(o.Addr)] }) {
						c.FailPath(ev.Pos(), rule, st, "%s adds a child without asking in the same critical section or afterwards whether the parent has finished", fnName(ev.Fn))
					}
				}
			}
		})
	}
	c.Floor(rule, 4)
}

// sectionFrame: the innermost function that contains an event and the whole
// critical section it lies in.
func sectionFrame(evs []*Event, ev *Event) *ssa.Function {
	secs := sections(ev)
	k, f := len(ev.Sites), ev.Fn
	for _, x := range evs {
		hit := x.Kind == "Lock" && secs[x.Sec]
		if x.Kind == "Unlock" {
			for n := range sections(x) {
				hit = hit || secs[n]
			}
		}
		if !hit {
			continue
		}
		n := 0
		for n < k && n < len(x.Sites) && x.Sites[n] == ev.Sites[n] {
			n++
		}
		if n < k {
			k, f = n, ev.Sites[n].Parent()
		}
	}
	return f
}

// runFrames analyses functions on their own, path by path.
func (c *Ctx) runFrames(frames map[*ssa.Function]bool) []*State {
	var fns []*ssa.Function
	for f := range frames {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	var out []*State
	for _, f := range fns {
		out = append(out, c.Run(f, Opts{Model: c.specModels()}, RunOpt{})...)
	}
	return out
}

// addsSpan: does the write add a span to a collection?
func addsSpan(s *State, ev *Event) bool {
	v := ev.Val
	if ev.Kind == "Write" {
		return !v.isNil() && shortType(v.Typ) == "*monkit.Span"
	}
	if ev.Old == nil || !isIntType(v.Typ) {
		return true
	}
	b, known := s.facts.truth(mkLeInt(mkAdd(ev.Old, mkInt(1), v.Typ), v))
	return known && b
}
