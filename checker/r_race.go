package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// access is one read or write of memory other goroutines can reach.
type access struct {
	kind  string // "R", "W", "AR", "AW"
	addr  *Term
	keys  []string // (base type, path from it), innermost first
	bases []*Term
	guard map[string]map[string]bool // key -> guards held at that level
	fn    *ssa.Function
	root  *ssa.Function
	pos   token.Pos
	level string
}

// step renders one address step.
func stepName(a *Term) string {
	switch a.Op {
	case "fa":
		return "." + fieldName(a)
	case "ea":
		return "[]"
	case "mv", "mh", "maplen":
		return "{}"
	case "content":
		return "<>"
	case "load":
		return "^"
	}
	return ""
}

// chain lists an address's prefixes, from the address itself to its root. A
// container reached through a loaded header belongs to the memory holding the
// header, an object behind a pointer fixed at construction to the owner of the
// pointer, and a fresh container to the place it was stored to (assoc).
func chain(a *Term, assoc map[*Term]*Term) []*Term {
	var r []*Term
	for x := a; x != nil && len(r) < 30; {
		r = append(r, x)
		switch x.Op {
		case "fa", "content":
			x = x.Args[0]
		case "ea", "mv", "mh", "slice", "maplen":
			x = containerHome(x.Args[0], assoc)
		case "load":
			if x.Aux == "0" {
				x = x.Args[0]
			} else {
				x = nil
			}
		default:
			x = nil
		}
	}
	return r
}

func containerHome(b *Term, assoc map[*Term]*Term) *Term {
	for n := 0; n < 20; n++ {
		switch b.Op {
		case "slice", "append", "appendall":
			b = b.Args[0]
			continue
		case "load":
			return b.Args[0]
		case "map", "mkslice", "alloc":
			if h := assoc[b]; h != nil {
				return h
			}
		}
		break
	}
	return b
}

func pointeeName(t *Term) string {
	if t.Op == "global" {
		return "g:" + t.Aux
	}
	if t.Op == "alloc" || t.Op == "map" || t.Op == "mkslice" {
		if t.Typ != nil {
			if pt, ok := t.Typ.Underlying().(*types.Pointer); ok && isRepoType(pt.Elem()) {
				if _, isS := pt.Elem().Underlying().(*types.Struct); isS {
					return typeName(pt.Elem())
				}
			}
		}
		return "a:" + allocSite(t)
	}
	if tt := pointeeType(t); tt != nil {
		return typeName(tt)
	}
	return t.Op
}

func pointeeType(t *Term) types.Type {
	if t.Op == "fa" {
		st := t.Obj.(types.Type).Underlying().(*types.Struct)
		i, _ := strconv.Atoi(t.Aux)
		return st.Field(i).Type()
	}
	if t.Op == "ea" || t.Op == "mv" {
		if et, ok := t.Obj.(types.Type); ok {
			return et
		}
	}
	if t.Typ != nil {
		if pt, ok := t.Typ.Underlying().(*types.Pointer); ok {
			return pt.Elem()
		}
		return t.Typ
	}
	return nil
}

// suffixKeys gives (base type, path from base) for every base of an address,
// innermost first.
func suffixKeys(a *Term, assoc map[*Term]*Term) (keys []string, bases []*Term) {
	ch := chain(a, assoc)
	path := ""
	for i, x := range ch {
		if i > 0 {
			if x.Op == "load" {
				// the pointer itself: same object as what it points to
				keys = append(keys, pointeeName(x)+"|"+path)
				bases = append(bases, x)
				path = "^" + path
				continue
			}
			if x.Op == "global" {
				// a package-level struct is also an object of its type
				if t := pointeeType(x); t != nil && isRepoType(t) {
					if _, isS := t.Underlying().(*types.Struct); isS {
						keys = append(keys, typeName(t)+"|"+path)
						bases = append(bases, x)
					}
				}
			}
			if ch[i-1].Op != "load" || x.Op != "fa" {
				keys = append(keys, pointeeName(x)+"|"+path)
				bases = append(bases, x)
			}
		}
		path = stepName(x) + path
	}
	if len(ch) == 1 {
		keys = append(keys, pointeeName(ch[0])+"|*")
		bases = append(bases, ch[0])
	}
	return
}

// lockPath: path of lock l from base b, if b encloses it.
func lockPath(l, b *Term) (string, bool) {
	p := ""
	for x := l; x != nil; {
		if x == b {
			return p, true
		}
		p = stepName(x) + p
		switch x.Op {
		case "fa":
			x = x.Args[0]
		case "load":
			x = x.Args[0]
		default:
			x = nil
		}
	}
	return "", false
}

func guardsOf(keys []string, bases []*Term, held []Held, write bool) map[string]map[string]bool {
	g := map[string]map[string]bool{}
	add := func(k, v string) {
		if g[k] == nil {
			g[k] = map[string]bool{}
		}
		g[k][v] = true
	}
	for _, h := range held {
		if h.Mode == "R" && write {
			continue
		}
		if h.Mode == "once" && write {
			continue
		}
		l := h.Lock
		pre := ""
		if h.Mode == "once" || h.Mode == "oncerun" {
			pre = "once:"
		}
		for i, b := range bases {
			if lp, ok := lockPath(l, b); ok {
				add(keys[i], pre+lp)
			}
		}
		root := addrRoot(l)
		last := keys[len(keys)-1]
		if root.Op == "global" {
			add(last, "G:"+pre+l.String())
		}
		if root.Op == "alloc" {
			// a lock variable shared by closures with the variables it guards
			add(last, "A:"+pre+pointeeName(root)+pathFrom(l))
		}
	}
	return g
}

func pathFrom(l *Term) string {
	p := ""
	for x := l; x.Op == "fa"; x = x.Args[0] {
		p = stepName(x) + p
	}
	return p
}

// hasSync: does a type hold a lock, once or atomic of its own?
func (p *Program) hasSync(t types.Type, depth int) bool {
	if t == nil || depth > 4 {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic":
			return true
		}
		if isRepoPkg(n.Obj().Pkg()) && p.isSpinLock(n) {
			return true
		}
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if p.hasSync(st.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

var notThreadsafe = map[string]bool{"monkit.IntDist": true, "monkit.FloatDist": true, "monkit.DurationDist": true}

// judged: is this memory something several goroutines may use at once?
func (c *Ctx) judged(a *access) bool {
	if c.P.isInit(a.root) || c.P.isInit(a.fn) {
		return false
	}
	for _, b := range a.bases {
		switch b.Op {
		case "global":
			if g, ok := b.Obj.(*ssa.Global); ok {
				return isRepoPkg(g.Pkg.Pkg)
			}
		case "alloc", "map", "mkslice", "chan":
			if t := pointeeType(b); t != nil && c.P.sharedType(t) {
				return true
			}
			if ai, ok := b.Obj.(*allocInfo); ok && c.P.capturedOut()[ai.instr] {
				return true
			}
			continue
		}
		if t := pointeeType(b); t != nil && c.P.sharedType(t) {
			return true
		}
	}
	return false
}

// sharedType: repository struct types that synchronise themselves, and the
// exported types of the metric and collector packages.
func (p *Program) sharedType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRepoPkg(n.Obj().Pkg()) {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if notThreadsafe[typeName(t)] {
		return false
	}
	if p.hasSync(t, 0) {
		return true
	}
	pk := n.Obj().Pkg().Name()
	return (pk == "monkit" || pk == "collect") && ast.IsExported(n.Obj().Name())
}

// capturedOut: variables captured by a function value that outlives the call.
func (p *Program) capturedOut() map[ssa.Instruction]bool {
	if p.capOut != nil {
		return p.capOut
	}
	p.roots()
	p.capOut = map[ssa.Instruction]bool{}
	var mark func(fn *ssa.Function, i int)
	mark = func(fn *ssa.Function, i int) {
		switch b := bindingOf(fn, i).(type) {
		case ssa.Instruction:
			p.capOut[b] = true
		case *ssa.FreeVar:
			for j, q := range fn.Parent().FreeVars {
				if q == b {
					mark(fn.Parent(), j)
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		// closures inside an escaping closure run when it does
		if p.closEsc[fn] == escOut {
			for i := range fn.FreeVars {
				mark(fn, i)
			}
		}
	}
	return p.capOut
}

// collectAccesses analyses every root and lists accesses to shared memory.
func (c *Ctx) collectAccesses() []*access {
	var out []*access
	seen := map[string]bool{}
	for _, root := range c.P.roots() {
		paths := c.Run(root, Opts{Join: true}, RunOpt{})
		for _, s := range paths {
			assoc := map[*Term]*Term{}
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					if (ev.Kind == "Write" || ev.Kind == "MapWrite") && ev.Val != nil && (ev.Val.Op == "map" || ev.Val.Op == "mkslice" || ev.Val.Op == "alloc") {
						if assoc[ev.Val] == nil && addrRoot(ev.Addr) != ev.Val {
							assoc[ev.Val] = ev.Addr
						}
					}
				}
			})
			c.P.eachEvents(s, func(evs []*Event) {
				for _, ev := range evs {
					if ev.Local || ev.Addr == nil {
						continue
					}
					k := ""
					addr := ev.Addr
					switch ev.Kind {
					case "Read", "MapRead":
						k = "R"
					case "Write", "MapWrite", "MapDelete", "Clear":
						k = "W"
					case "Copy":
						k = "W"
						addr = mkElemAddr(ev.Addr, mkInt(0), types.Typ[types.Int])
					case "AtomicLoad":
						k = "AR"
					case "AtomicStore", "AtomicAdd", "AtomicCAS", "AtomicSwap", "AtomicRMW":
						k = "AW"
					default:
						continue
					}
					for _, a := range expandParts(addr, ev) {
						ac := &access{kind: k, addr: a, fn: ev.Fn, root: root, pos: ev.Pos()}
						ac.keys, ac.bases = suffixKeys(a, assoc)
						ac.guard = guardsOf(ac.keys, ac.bases, ev.Held, k == "W")
						var gs []string
						for x, m := range ac.guard {
							for y := range m {
								gs = append(gs, x+y)
							}
						}
						sort.Strings(gs)
						dk := fmt.Sprintf("%s|%p|%s|%s", k, ev.Instr, strings.Join(ac.keys, ";"), strings.Join(gs, ";"))
						if seen[dk] {
							continue
						}
						seen[dk] = true
						if c.judged(ac) {
							out = append(out, ac)
						}
					}
				}
			})
		}
	}
	return out
}

// expandParts splits an access to a whole struct into its fields.
func expandParts(a *Term, ev *Event) []*Term {
	var t types.Type
	if ev.Kind == "Read" || ev.Kind == "Write" {
		t = pointee(a)
	}
	var out []*Term
	var rec func(a *Term, t types.Type)
	rec = func(a *Term, t types.Type) {
		if t != nil && explodes(t) {
			if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 {
				for i := 0; i < st.NumFields(); i++ {
					rec(mkFieldAddr(a, i, t), st.Field(i).Type())
				}
				return
			}
			if at, ok := t.Underlying().(*types.Array); ok {
				rec(mkElemAddr(a, mkInt(0), at.Elem()), at.Elem())
				return
			}
		}
		out = append(out, a)
	}
	rec(a, t)
	return out
}

func init() {
	register(&checkDef{
		id: "C01",
		rule: "Guarded-by inference: every root of the repository (exported functions and methods, methods of types used as interfaces, escaping closures and goroutine bodies) is analysed with callees inlined, tracking which locks (also embedded, spin and once) are held at each access to memory another goroutine can reach. " +
			"For every location (owner type and field path) written after publication, all accesses must share a guard: a common lock of the same owner (or a package-level or captured lock), atomic operations throughout, or once-only initialisation.",
		quick: []string{"default", "appengine"},
		deep:  []string{"default", "appengine", "windows", "darwin", "tinygo"},
		run:   checkC01,
	})
}

func checkC01(c *Ctx) {
	acc := c.collectAccesses()
	c.Assume("application code follows the documented use of the API (the distribution types are not shared without a lock by the application)")
	// keys at which somebody holds a guard
	levels := map[string]bool{}
	byKey := map[string][]*access{}
	for _, a := range acc {
		for k, g := range a.guard {
			if len(g) > 0 {
				levels[k] = true
			}
		}
		byKey[a.keys[0]] = append(byKey[a.keys[0]], a)
	}
	groups := map[string][]*access{}
	var gkeys []string
	for k, as := range byKey {
		var w, aw, ar, plain bool
		for _, a := range as {
			switch a.kind {
			case "W":
				w, plain = true, true
			case "R":
				plain = true
			case "AW":
				aw = true
			case "AR":
				ar = true
			}
		}
		if !w && !aw {
			continue
		}
		c.Count("locations", 1)
		c.Count("accesses", len(as))
		if (aw || ar) && plain {
			for _, a := range as {
				if a.kind == "W" || a.kind == "R" && aw {
					c.Fail(a.pos, "mixed-atomic", "%s is accessed with atomic operations elsewhere but %s plainly in %s", k, kindWord(a.kind), fnName(a.fn))
				}
			}
			continue
		}
		if !w {
			continue
		}
		// one package-level (or captured) lock around every access
		var common map[string]bool
		for _, a := range as {
			mine := map[string]bool{}
			for x := range a.guard[a.keys[len(a.keys)-1]] {
				if strings.HasPrefix(x, "G:") || strings.HasPrefix(x, "A:") {
					if common == nil || common[x] {
						mine[x] = true
					}
				}
			}
			common = mine
		}
		if len(common) > 0 {
			c.Count("guarded", 1)
			continue
		}
		for _, a := range as {
			for _, kk := range a.keys {
				if levels[kk] {
					a.level = kk
					break
				}
			}
			g := a.level
			if g == "" {
				g = "none:" + k
			}
			if groups[g] == nil {
				gkeys = append(gkeys, g)
			}
			groups[g] = append(groups[g], a)
		}
	}
	sort.Strings(gkeys)
	for _, g := range gkeys {
		as := groups[g]
		if strings.HasPrefix(g, "none:") {
			for _, a := range as {
				if a.kind == "W" {
					c.Fail(a.pos, "unguarded-write", "%s is written in %s (reached from %s) with no lock of its owner held", a.keys[0], fnName(a.fn), fnName(a.root))
				} else {
					c.Fail(a.pos, "unguarded-read", "%s is read in %s (reached from %s) with no lock of its owner held but is written elsewhere", a.keys[0], fnName(a.fn), fnName(a.root))
				}
			}
			continue
		}
		w := false
		for _, a := range as {
			w = w || a.kind == "W"
		}
		if !w {
			// written only where another owner's lock guards it: the same guard must hold here
			// unless this owner is a different object
			continue
		}
		freq := map[string]int{}
		for _, a := range as {
			for x := range a.guard[g] {
				freq[x]++
			}
		}
		best := ""
		for x, n := range freq {
			if best == "" || n > freq[best] || n == freq[best] && x < best {
				best = x
			}
		}
		c.Count("guarded", 1)
		for _, a := range as {
			if !a.guard[g][best] {
				c.Fail(a.pos, "guarded-by", "%s is %s in %s (reached from %s) without the lock that guards it elsewhere (%s)", g, kindWord(a.kind), fnName(a.fn), fnName(a.root), best)
			}
		}
	}
	c.Floor("locations", 40)
	c.Floor("guarded", 20)
}

func kindWord(k string) string {
	switch k {
	case "W":
		return "written"
	case "R":
		return "read"
	}
	return "accessed atomically"
}

func (p *Program) isInit(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return false
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}
