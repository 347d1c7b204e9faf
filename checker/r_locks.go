package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&checkDef{
		id:    "C02",
		rule:  "Lock typestate over every root with callees inlined and panics of application code taken at each call of it: (released) no lock is held at any return or unwinding; (paired) no unlock of a lock not held; (reentry) no lock taken while the same lock is held; (order) the graph of lock classes taken while others are held, through inlined and dynamically called code, has no cycle; (blocking) no channel operation, sleep, wait or I/O while a lock is held; (spin) the library's own lock is acquired only by a successful compare-and-swap from the free value and released by storing it.",
		quick: []string{"default"},
		deep:  []string{"default", "appengine", "windows", "darwin", "tinygo"},
		run:   checkC02,
	})
	register(&checkDef{
		id:    "C03",
		rule:  "Call-context analysis: every call that can reach application code (function values, interface methods, formatting of application values; resolved by an inclusion analysis of function values and dynamic types) is visited on every path of every root with the set of locks held there, which must be empty. A lock that no function reachable by the application ever takes is not counted.",
		quick: []string{"default"},
		deep:  []string{"default", "appengine", "windows", "darwin", "tinygo"},
		run:   checkC03,
	})
}

func realLocks(h []Held) []Held {
	var r []Held
	for _, x := range h {
		if x.Mode == "W" || x.Mode == "R" || x.Mode == "oncerun" {
			r = append(r, x)
		}
	}
	return r
}

// lockClass names a lock independent of the object it protects.
func lockClass(l *Term) string {
	// a lock embedded in an unnamed part of an object: name the part by its owner
	switch l.Op {
	case "fa", "global", "alloc":
		return classKey(l)
	}
	if t := pointeeType(l); t != nil {
		return "*" + typeName(t)
	}
	return classKey(l)
}

var blockingPkg = map[string]bool{"os": true, "net": true, "net/http": true, "io": true, "bufio": true, "syscall": true, "os/exec": true, "io/ioutil": true}
var blockingFn = map[string]bool{"time.Sleep": true, "(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true, "(*encoding/json.Encoder).Encode": true}

// nonBlocking members of those packages
var nonBlocking = map[string]bool{"bufio.NewWriter": true, "bufio.NewReader": true, "bufio.NewScanner": true, "os.Getpid": true, "(net/http.Header).Set": true, "(net/http.Header).Get": true, "(net/http.Header).Add": true, "(net/http.Header).Del": true, "(*net/http.Request).Context": true, "(*net/http.Request).WithContext": true, "os.IsNotExist": true, "syscall.Getpid": true}

func extBlocks(ev *Event) bool {
	if ev.Kind == "Out" {
		return true
	}
	if ev.Kind != "Ext" {
		return false
	}
	if nonBlocking[ev.Name] {
		return false
	}
	if blockingFn[ev.Name] {
		return true
	}
	return blockingPkg[pkgOfName(ev.Name)]
}

func pkgOfName(n string) string {
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

type lockEdge struct {
	from, to string
	where    string
}

func checkC02(c *Ctx) {
	acq := map[*ssa.Function]map[string]bool{}
	type pend struct {
		held []Held
		fns  []*ssa.Function
		pos  string
	}
	var pends []pend
	edges := map[string]map[string]string{}
	edge := func(a, b, where string) {
		if edges[a] == nil {
			edges[a] = map[string]string{}
		}
		if _, ok := edges[a][b]; !ok {
			edges[a][b] = where
		}
	}
	for _, root := range c.P.roots() {
		if c.isSpinMethod(root) {
			continue
		}
		paths := c.Run(root, Opts{Join: true, AppPanics: true, NoReads: true}, RunOpt{})
		mine := map[string]bool{}
		acq[root] = mine
		for _, s := range paths {
			if s.how == "return" || s.how == "panic" {
				for _, h := range realLocks(s.held) {
					c.FailAt(c.P.Pos(h.Pos), "released", "", "%s taken here is still held when %s ends by %s", lockClass(h.Lock), fnName(root), s.how)
				}
				c.Count("ends", 1)
			}
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					held := realLocks(ev.Held)
					switch ev.Kind {
					case "LoopHeld":
						c.Fail(ev.Pos(), "released", "an iteration of the loop in %s does not leave the locks it found", fnName(ev.Fn))
					case "Unlock":
						c.Count("unlocks", 1)
						if !ev.OK {
							c.Fail(ev.Pos(), "paired", "%s is unlocked in %s (reached from %s) where it is not held", lockClass(ev.Addr), fnName(ev.Fn), fnName(root))
						}
					case "Lock", "OnceRun":
						k := lockClass(ev.Addr)
						mine[k] = true
						c.Count("locks", 1)
						for _, h := range held {
							if ev.Kind == "OnceRun" && h.Lock == ev.Addr {
								continue
							}
							if h.Lock == ev.Addr {
								c.Fail(ev.Pos(), "reentry", "%s is taken in %s (reached from %s) while already held since %s", k, fnName(ev.Fn), fnName(root), c.P.Pos(h.Pos))
								continue
							}
							edge(lockClass(h.Lock), k, c.P.Pos(ev.Pos())+" in "+fnName(ev.Fn))
						}
					case "OnceDo":
						for _, h := range held {
							if h.Lock == ev.Addr {
								c.Fail(ev.Pos(), "reentry", "%s is entered again from inside its own function", lockClass(ev.Addr))
							}
						}
					case "Send", "Recv":
						if len(held) > 0 {
							c.Fail(ev.Pos(), "blocking", "channel operation in %s (reached from %s) while holding %s", fnName(ev.Fn), fnName(root), lockClass(held[0].Lock))
						}
					case "Select":
						if len(held) > 0 && ev.OK {
							c.Fail(ev.Pos(), "blocking", "blocking select in %s (reached from %s) while holding %s", fnName(ev.Fn), fnName(root), lockClass(held[0].Lock))
						}
					case "Ext", "Out":
						if len(held) > 0 && extBlocks(ev) {
							ok := true
							for _, h := range held {
								if h.Mode != "oncerun" && !c.privateLock(h.Lock) {
									ok = false
								}
							}
							if !ok {
								c.Fail(ev.Pos(), "blocking", "%s is called in %s (reached from %s) while holding %s", ev.Name, fnName(ev.Fn), fnName(root), lockClass(held[0].Lock))
							}
						}
						if len(held) > 0 && len(ev.Int) > 0 {
							pends = append(pends, pend{held, ev.Int, c.P.Pos(ev.Pos())})
						}
					case "App", "Rec":
						fns := ev.Int
						if ev.Kind == "Rec" {
							if f, ok := ev.Callee.Obj.(*ssa.Function); ok {
								fns = []*ssa.Function{f}
							}
						}
						if len(held) > 0 && len(fns) > 0 {
							pends = append(pends, pend{held, fns, c.P.Pos(ev.Pos())})
						}
					}
				}
			})
		}
	}
	for _, fn := range c.P.Funcs {
		if c.isSpinMethod(fn) {
			c.checkSpin(fn)
		}
	}
	for _, p := range pends {
		for _, f := range p.fns {
			m, ok := acq[f]
			if !ok {
				// not a root: analyse on its own
				m = map[string]bool{}
				acq[f] = m
				if f.Blocks != nil {
					for _, s := range c.Run(f, Opts{Join: true, NoReads: true}, RunOpt{}) {
						c.P.eachEvents(s, func(evs []*Event) {
							for _, ev := range evs {
								if ev.Kind == "Lock" || ev.Kind == "OnceRun" {
									m[lockClass(ev.Addr)] = true
								}
							}
						})
					}
				}
			}
			for k := range m {
				for _, h := range p.held {
					edge(lockClass(h.Lock), k, p.pos+" through "+fnName(f))
				}
			}
		}
	}
	// cycles
	var nodes []string
	for a := range edges {
		nodes = append(nodes, a)
	}
	sort.Strings(nodes)
	for _, a := range nodes {
		var bs []string
		for b := range edges[a] {
			bs = append(bs, b)
		}
		sort.Strings(bs)
		for _, b := range bs {
			c.Count("nestings", 1)
			if path := findPath(edges, b, a); path != nil {
				c.FailAt(edges[a][b], "order", strings.Join(path, " -> "), "%s is taken while holding %s, and elsewhere the other way round (%s)", b, a, strings.Join(append([]string{a}, path...), " -> "))
			}
		}
	}
	c.Floor("locks", 60)
	c.Floor("ends", 200)
	c.Floor("spin", 2)
}

func findPath(e map[string]map[string]string, from, to string) []string {
	prev := map[string]string{from: ""}
	q := []string{from}
	for len(q) > 0 {
		x := q[0]
		q = q[1:]
		if x == to {
			var r []string
			for y := x; y != ""; y = prev[y] {
				r = append([]string{y}, r...)
			}
			return r
		}
		var ns []string
		for y := range e[x] {
			ns = append(ns, y)
		}
		sort.Strings(ns)
		for _, y := range ns {
			if _, ok := prev[y]; !ok {
				prev[y] = x
				q = append(q, y)
			}
		}
	}
	return nil
}

func (c *Ctx) isSpinMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	t := r.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && c.P.isSpinLock(n) && (fn.Name() == "Lock" || fn.Name() == "Unlock")
}

func (c *Ctx) checkSpin(fn *ssa.Function) {
	c.Count("spin", 1)
	recv := paramTerm(fn, 0)
	isZero := func(t *Term) bool {
		n, ok := t.intVal()
		return ok && n == 0 || t.isFalse()
	}
	onRecv := func(a *Term) bool { return addrRoot(a) == recv }
	for _, s := range c.Run(fn, Opts{}, RunOpt{}) {
		if s.how != "return" {
			continue
		}
		ok := false
		why := "takes the lock without a successful compare-and-swap from the free value"
		if fn.Name() == "Unlock" {
			why = "does not store the free value atomically"
		}
		c.P.eachEvents(s, func(evs []*Event) {
			for _, ev := range evs {
				if ev.Addr == nil || !onRecv(ev.Addr) {
					continue
				}
				switch ev.Kind {
				case "Write":
					c.Fail(ev.Pos(), "spin", "%s writes the lock word without an atomic operation", fnName(fn))
				}
			}
		})
		for _, ev := range s.events {
			if ev.Addr == nil || !onRecv(ev.Addr) {
				continue
			}
			if fn.Name() == "Lock" {
				switch ev.Kind {
				case "AtomicCAS":
					if ev.OK && isZero(ev.Old) && !isZero(ev.Val) && ev.Val.Op == "const" {
						ok = true
					}
				case "AtomicSwap":
					if v, k := s.facts.truth(mkEqInt(ev.Old, mkInt(0))); k && v && !isZero(ev.Val) {
						ok = true
					}
				case "AtomicAdd":
					// the new value decides
					if v, k := s.facts.truth(mkEqInt(ev.Old, mkInt(0))); k && v {
						ok = true
					}
				case "AtomicStore":
					c.Fail(ev.Pos(), "spin", "%s stores the lock word unconditionally", fnName(fn))
				}
			} else {
				switch ev.Kind {
				case "AtomicStore", "AtomicSwap":
					ok = isZero(ev.Val)
				case "AtomicCAS":
					ok = ok || ev.OK && isZero(ev.Val)
				case "AtomicAdd":
					if n, k := ev.Val.intVal(); k && n == -1 {
						ok = true
					}
				}
			}
		}
		if !ok {
			c.FailPath(fn.Pos(), "spin", s, "%s %s", fnName(fn), why)
		}
	}
}

// privateLock: a local lock variable that no function the application can call
// ever takes, so application code running under it can never need it.
func (c *Ctx) privateLock(l *Term) bool {
	r := addrRoot(l)
	if r.Op != "alloc" {
		return false
	}
	ai, ok := r.Obj.(*allocInfo)
	if !ok || ai.instr == nil {
		return false
	}
	a, ok := ai.instr.(*ssa.Alloc)
	if !ok || c.P.exportedAPI(a.Parent()) {
		return false
	}
	// every function that can lock it
	var fns []*ssa.Function
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			if mc, ok := u.(*ssa.MakeClosure); ok {
				f := mc.Fn.(*ssa.Function)
				for i, b := range mc.Bindings {
					if b == v {
						fns = append(fns, f)
						visit(f.FreeVars[i])
					}
				}
			}
		}
	}
	visit(a)
	for _, f := range fns {
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f && c.P.keptSomewhere(mc, map[any]bool{}) {
					return false
				}
			}
		}
	}
	return true
}

// keptSomewhere: can a function value be reached by calls other than those of
// the functions it was directly handed to or returned to?
func (p *Program) keptSomewhere(v ssa.Value, seen map[any]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	cell := func(a ssa.Value) bool {
		if seen[a] {
			return false
		}
		seen[a] = true
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == a {
					return true
				}
			case *ssa.UnOp:
				if p.keptSomewhere(r, seen) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Go:
		case *ssa.Phi:
			if p.keptSomewhere(r, seen) {
				return true
			}
		case *ssa.ChangeType:
			if p.keptSomewhere(r, seen) {
				return true
			}
		case *ssa.Extract:
			if p.keptSomewhere(r, seen) {
				return true
			}
		case *ssa.Store:
			a, ok := r.Addr.(*ssa.Alloc)
			if !ok || cell(a) {
				return true
			}
		case *ssa.Return:
			fn := r.Parent()
			if p.exportedAPI(fn) || fn.Parent() != nil {
				return true
			}
			idx := -1
			for i, x := range r.Results {
				if x == v {
					idx = i
				}
			}
			// every call of it
			for _, g := range p.Funcs {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(*ssa.Call)
						if !ok || c.Call.StaticCallee() != fn {
							continue
						}
						if fn.Signature.Results().Len() == 1 {
							if p.keptSomewhere(c, seen) {
								return true
							}
							continue
						}
						for _, u := range *c.Referrers() {
							if x, ok := u.(*ssa.Extract); ok && x.Index == idx && p.keptSomewhere(x, seen) {
								return true
							}
						}
					}
				}
			}
		case ssa.CallInstruction:
			com := r.Common()
			for i, a := range com.Args {
				if a != v {
					continue
				}
				f := com.StaticCallee()
				if f == nil || f.Blocks == nil || !p.inRepo(f) {
					if f != nil && extName(f) == "(*sync.Once).Do" {
						continue
					}
					return true
				}
				if i < len(f.Params) && p.keptSomewhere(f.Params[i], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func checkC03(c *Ctx) {
	for _, root := range c.P.roots() {
		for _, s := range c.Run(root, Opts{Join: true, NoReads: true}, RunOpt{}) {
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					what := ""
					switch ev.Kind {
					case "App":
						if ev.App {
							what = ev.Name
							if what == "" {
								what = "function value " + ev.Callee.String()
							}
						}
					case "Out":
						what = ev.Name + " to the application's writer"
					case "Fmt":
						what = ev.Name + " of an application value"
					case "Ext":
						if callsArgMethods(ev) {
							what = ev.Name
						}
					}
					if what == "" {
						continue
					}
					c.Count("callbacks", 1)
					for _, h := range realLocks(ev.Held) {
						if c.privateLock(h.Lock) {
							continue
						}
						c.Fail(ev.Pos(), "callback-under-lock", "%s may run application code in %s (reached from %s) while holding %s, taken at %s", what, fnName(ev.Fn), fnName(root), lockClass(h.Lock), c.P.Pos(h.Pos))
					}
				}
			})
		}
	}
	c.Assume("code outside the repository that is handed a callback calls it before returning")
	c.Floor("callbacks", 60)
}

// callsArgMethods: standard library functions that call methods of their arguments.
func callsArgMethods(ev *Event) bool {
	switch ev.Name {
	case "errors.Is", "errors.As", "(*encoding/json.Encoder).Encode", "encoding/json.Marshal", "errors.Unwrap":
		return true
	}
	return false
}

var _ = fmt.Sprint
