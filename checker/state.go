package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Held is one lock held at a program point.
type Held struct {
	Lock *Term
	Mode string // "W", "R", "once"
	Sec  int    // critical section number
	T    int    // holder
	Pos  token.Pos
}

// Event is one observable effect on an abstract path.
type Event struct {
	Kind   string
	Instr  ssa.Instruction
	Fn     *ssa.Function
	Name   string
	Addr   *Term
	Val    *Term
	Old    *Term
	Args   []*Term
	Res    *Term
	Held   []Held
	Sites  []ssa.Instruction // call sites of the inlined frames, outermost first
	Local  bool              // the memory is not (yet) visible to other goroutines
	App    bool              // may run application code
	Int    []*ssa.Function   // internal functions a dynamic call may reach
	Loop   *LoopInfo
	Mem    map[*Term]*Term // Unlock, Return, App: memory at that point
	Sec    int
	OK     bool
	Callee *Term
	Defer  bool
	Async  bool
}

func (ev *Event) Pos() token.Pos {
	if ev.Instr != nil {
		if ev.Instr.Pos().IsValid() {
			return ev.Instr.Pos()
		}
	}
	for i := len(ev.Sites) - 1; i >= 0; i-- {
		if ev.Sites[i].Pos().IsValid() {
			return ev.Sites[i].Pos()
		}
	}
	if ev.Fn != nil {
		return ev.Fn.Pos()
	}
	return token.NoPos
}

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

type deferred struct {
	instr   *ssa.Defer
	callee  *Term
	invoke  *types.Func
	args    []*Term
	static  *ssa.Function
	builtin *ssa.Builtin
}

// contKind says what happens when a frame returns.
type contKind int

const (
	contNormal contKind = iota
	contDefer           // was running a deferred call
	contOnce            // was running the function of a once
	contDiscard
	contThread // the end of a goroutine
	contRetry  // other activity ran in between: the instruction is executed now
)

type Frame struct {
	fn          *ssa.Function
	block       *ssa.BasicBlock
	prev        *ssa.BasicBlock
	pc          int
	env         []*Term
	defers      []deferred
	call        ssa.Instruction // call site in the caller
	cont        contKind
	onceAddr    *Term
	isDefer     bool // called directly by a defer
	unwind      bool // this frame is being unwound by a panic
	pdepth      int  // for deferred frames: index of panic it may recover (len of panics when started), 0 none
	inRunDefers bool
	t           int // the activity the frame belongs to
}

type loopRun struct {
	def       *loopDef
	depth     int
	undecided bool
	info      *LoopInfo
	condTerm  *Term
}

// LoopInfo summarises a loop explored as "any number of iterations".
type LoopInfo struct {
	ID        int
	Header    *ssa.BasicBlock
	Fn        *ssa.Function
	Cond      *Term             // condition tested by the header, in the arbitrary iteration
	Init      map[*Term]*Term   // loop variable -> value on entry
	Back      map[*Term][]*Term // loop variable -> value after an iteration (one per back edge path)
	Where     map[*Term]*Term   // loop variable -> memory address it stands for (nil for registers)
	Iters     []*State          // states at the back edge
	Base      int               // number of events before the iteration
	Range     *Term             // container of a map/string range
	Key, Elem *Term             // iteration key and value of such a range
	Entry     *State
	Leaves    []*State
}

type panicRec struct {
	val       *Term
	recovered bool
}

type State struct {
	e            *Engine
	stack        []*Frame
	mem          map[*Term]*Term
	mark         map[*Term]int
	facts        *Facts
	held         []Held
	once         map[*Term]bool
	pub          map[*Term]bool
	events       []*Event
	ver          int
	panics       []panicRec
	enter        bool // entering an iteration: skip the back edge test once
	start        bool // at the start of a block
	intr         int  // other activities running in between
	threads      []*thread
	run          []running
	noIntr       bool // the next synchronising operation is not preceded by other activity
	ended        bool
	how          string // "return", "panic", "blocked"
	ret          []*Term
	panicV       *Term
	loopsEntered int
	fuel         int
	isBack       bool
	copies       map[*Term]mapCopy
	obj          *Term // object under analysis in the history rules
}

func (s *State) clone() *State {
	n := *s
	n.stack = make([]*Frame, len(s.stack))
	for i, f := range s.stack {
		g := *f
		g.env = append([]*Term(nil), f.env...)
		g.defers = append([]deferred(nil), f.defers...)
		n.stack[i] = &g
	}
	n.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.mark = make(map[*Term]int, len(s.mark))
	for k, v := range s.mark {
		n.mark[k] = v
	}
	n.facts = s.facts.clone()
	n.held = append([]Held(nil), s.held...)
	n.once = make(map[*Term]bool, len(s.once))
	for k, v := range s.once {
		n.once[k] = v
	}
	n.pub = make(map[*Term]bool, len(s.pub))
	for k, v := range s.pub {
		n.pub[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.panics = append([]panicRec(nil), s.panics...)
	n.run = append([]running(nil), s.run...)
	n.threads = make([]*thread, len(s.threads))
	for i, th := range s.threads {
		c := *th
		c.frames = make([]*Frame, len(th.frames))
		for j, f := range th.frames {
			g := *f
			g.env = append([]*Term(nil), f.env...)
			g.defers = append([]deferred(nil), f.defers...)
			c.frames[j] = &g
		}
		n.threads[i] = &c
	}
	return &n
}

func (s *State) top() *Frame { return s.stack[len(s.stack)-1] }

func (s *State) copyMem() map[*Term]*Term {
	m := make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return m
}

func (s *State) sites() []ssa.Instruction {
	var r []ssa.Instruction
	for _, f := range s.stack[1:] {
		if f.call != nil {
			r = append(r, f.call)
		}
	}
	return r
}

func (s *State) heldNow() []Held {
	h := append([]Held(nil), s.held...)
	for o := range s.once {
		h = append(h, Held{Lock: o, Mode: "once"})
	}
	sort.SliceStable(h, func(i, j int) bool { return h[i].Lock.ID < h[j].Lock.ID })
	return h
}

func (s *State) emit(ev *Event) *Event {
	if ev.Fn == nil && len(s.stack) > 0 {
		ev.Fn = s.top().fn
		if ev.Instr == nil {
			f := s.top()
			if f.pc < len(f.block.Instrs) {
				ev.Instr = f.block.Instrs[f.pc]
			}
		}
	}
	if len(s.stack) > 0 {
		ev.Sites = s.sites()
	}
	ev.Held = s.heldNow()
	s.events = append(s.events, ev)
	if s.e.Opts.Hook != nil {
		s.e.Opts.Hook(s, ev)
	}
	return ev
}

// ---- memory classes ----

// classKey names the memory an address belongs to, independent of the object.
func classKey(a *Term) string {
	switch a.Op {
	case "fa":
		return typeName(a.Obj.(types.Type)) + "." + fieldName(a)
	case "ea":
		return containerKey(a.Args[0]) + "[]"
	case "mv", "mh", "mapc":
		return containerKey(a.Args[0]) + "{}"
	case "content":
		return classKey(a.Args[0]) + "<>"
	case "global":
		return "g:" + a.Aux
	case "alloc":
		return "a:" + allocSite(a)
	}
	return "*" + shortType(a.Typ)
}

// containerKey names where a container value (slice, map) lives.
func containerKey(c *Term) string {
	switch c.Op {
	case "load":
		return classKey(c.Args[0])
	case "fa", "global", "alloc":
		return classKey(c)
	case "slice":
		return containerKey(c.Args[0])
	case "fieldval":
		if c.Args[0].Typ != nil {
			if st, ok := c.Args[0].Typ.Underlying().(*types.Struct); ok {
				i, _ := strconv.Atoi(c.Aux)
				return typeName(c.Args[0].Typ) + "." + st.Field(i).Name()
			}
		}
	case "append", "appendall":
		return containerKey(c.Args[0])
	case "map", "mkslice":
		return "a:" + allocSite(c)
	case "loopvar":
		return "v:" + c.Aux
	}
	return "v:" + c.Op + ":" + c.Aux
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return shortType(t)
}

type allocInfo struct {
	site  string
	seq   int
	instr ssa.Instruction
}

func allocSite(t *Term) string {
	if ai, ok := t.Obj.(*allocInfo); ok {
		return ai.site
	}
	return t.Aux
}

func allocSeq(t *Term) int {
	if ai, ok := t.Obj.(*allocInfo); ok {
		return ai.seq
	}
	return 0
}

// isLocal: the object is fresh and no other goroutine can reach it.
func (s *State) isLocal(a *Term) bool {
	if s.e.Opts.Seq {
		return true
	}
	r := addrRoot(a)
	if r.Op == "struct" || r.Op == "list" || r.Op == "append" || r.Op == "appendall" {
		return r.Op != "appendall" || s.isLocal(r.Args[0]) || r.Args[0].isNil()
	}
	return isFreshObj(r) && !s.pub[r] && !s.e.sharedAlloc[r]
}

func (s *State) isMutable(a *Term) bool {
	if !s.e.P.mutKnown {
		return true
	}
	if a.Op == "mv" || a.Op == "mh" {
		return s.e.P.mutable[classKey(a)]
	}
	for x := a; x != nil; x = addrParent(x) {
		if s.e.P.mutable[classKey(x)] {
			return true
		}
		if x.Op == "ea" {
			break
		}
	}
	return false
}

// ---- reads and writes ----

func (s *State) nextVer() int {
	freshCounter++
	return freshCounter
}

// markOf finds an invalidation marker on an address or its ancestors.
func (s *State) markOf(a *Term) (int, bool) {
	best, ok := 0, false
	for x := a; x != nil; {
		if v, has := s.mark[x]; has && v > best {
			best, ok = v, true
		}
		switch x.Op {
		case "fa", "ea", "mv", "mh", "content", "slice":
			x = x.Args[0]
		default:
			x = nil
		}
	}
	return best, ok
}

func mkLoad(a *Term, ver int, typ types.Type) *Term {
	t := mk("load", strconv.Itoa(ver), typ, nil, a)
	t.F = ver
	return t
}

// read returns the value at an address.
func (s *State) read(a *Term, typ types.Type) *Term {
	if explodes(typ) {
		if v, ok := s.mem[a]; ok {
			return v
		}
		n := numParts(typ)
		args := make([]*Term, n)
		for i := 0; i < n; i++ {
			args[i] = s.read(s.part(a, typ, i), partType(typ, i))
		}
		return mkStruct(typ, args)
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	// part of a whole stored at an ancestor
	if p := addrParent(a); p != nil {
		if v, ok := s.mem[p]; ok && a.Op == "fa" {
			i, _ := strconv.Atoi(a.Aux)
			return fieldVal(v, i, typ)
		}
	}
	// elements of value-like containers
	if a.Op == "ea" {
		if v := elemOf(a.Args[0], a.Args[1]); v != nil {
			return v
		}
	}
	if a.Op == "fa" {
		if v := partOfElem(a); v != nil {
			return v
		}
	}
	root := addrRoot(a)
	if a.Op == "mv" || a.Op == "mh" {
		if v := s.readCopy(a, typ); v != nil {
			s.mem[a] = v
			return v
		}
	}
	if v, ok := s.markOf(a); ok {
		val := mkLoad(a, v, typ)
		if s.isLocal(a) || len(s.held) > 0 {
			s.mem[a] = val
		} else {
			val = mkLoad(a, s.nextVer(), typ)
		}
		return val
	}
	if isFreshObj(root) && !s.e.sharedAlloc[root] {
		if a.Op == "mv" || a.Op == "mh" || a.Op == "ea" {
			for b := range s.mem {
				if b.Op == a.Op && addrRoot(b) == root && s.mayAlias(a, b) {
					v := mkLoad(a, s.nextVer(), typ)
					s.mem[a] = v
					return v
				}
			}
		}
		return zeroOf(typ)
	}
	if (s.e.Opts.Fresh || s.e.Opts.Zero != nil) && root.Op == "global" && !s.writtenAlias(a) {
		if g, ok := root.Obj.(*ssa.Global); ok && (s.e.Opts.Fresh && s.e.P.inRepoPkg(g.Pkg) || g.Pkg == s.e.Opts.Zero) {
			return zeroOf(typ)
		}
	}
	if s.e.Opts.Seq || !s.isMutable(a) {
		v := mkLoad(a, 0, typ)
		if s.writtenAlias(a) {
			v = mkLoad(a, s.nextVer(), typ)
		}
		s.mem[a] = v
		return v
	}
	if len(s.held) > 0 {
		v := mkLoad(a, s.ver, typ)
		s.mem[a] = v
		return v
	}
	return mkLoad(a, s.nextVer(), typ)
}

// writtenAlias says whether a cell that may be the same memory was changed.
func (s *State) writtenAlias(a *Term) bool {
	switch a.Op {
	case "fa", "ea", "mv", "mh":
	default:
		return false
	}
	for b, v := range s.mem {
		if b.Op != a.Op || b == a || v.Op == "load" && v.F == 0 && v.Args[0] == b {
			continue
		}
		if isFreshObj(addrRoot(b)) && !s.pub[addrRoot(b)] {
			continue
		}
		if s.mayAlias(a, b) {
			return true
		}
	}
	return false
}

// mapCopy records that a map was filled with the entries of another.
type mapCopy struct {
	src *Term
	at  *State
	ver int
}

// readCopy reads an entry of a map that is a copy of another one.
func (s *State) readCopy(a *Term, typ types.Type) *Term {
	c, ok := s.copies[a.Args[0]]
	if !ok || s.mark[a.Args[0]] != c.ver {
		return nil
	}
	for b := range s.mem {
		if b.Op == a.Op && b.Args[0] == a.Args[0] && s.mayAlias(a, b) {
			if v := s.mem[b]; v.Op == "load" && v.Args[0] == b {
				continue
			}
			if _, mine := c.at.mem[b]; mine {
				continue
			}
			return nil
		}
	}
	at := c.at.clone()
	at.e = s.e
	at.facts = s.facts
	if a.Op == "mh" {
		return at.read(mk("mh", "", nil, a.Obj, c.src, a.Args[1]), typ)
	}
	return at.read(mk("mv", "", nil, a.Obj, c.src, a.Args[1]), typ)
}

// elemOf indexes containers whose contents are part of the term.
func elemOf(c, idx *Term) *Term {
	switch c.Op {
	case "list":
		if n, ok := idx.intVal(); ok && n >= 0 && int(n) < len(c.Args) {
			return c.Args[n]
		}
	case "append":
		base := mkLen(c.Args[0])
		off := mkSub(idx, base, types.Typ[types.Int])
		if n, ok := off.intVal(); ok && n >= 0 && int(n) < len(c.Args)-1 {
			return c.Args[n+1]
		}
	}
	return nil
}

// partOfElem is the field of an element of a value-like container.
func partOfElem(a *Term) *Term {
	var v *Term
	switch p := a.Args[0]; p.Op {
	case "ea":
		v = elemOf(p.Args[0], p.Args[1])
	case "fa":
		v = partOfElem(p)
	}
	if v == nil {
		return nil
	}
	i, _ := strconv.Atoi(a.Aux)
	st, ok := a.Obj.(types.Type).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return fieldVal(v, i, st.Field(i).Type())
}

func (s *State) part(a *Term, typ types.Type, i int) *Term {
	if _, ok := typ.Underlying().(*types.Struct); ok {
		return mkFieldAddr(a, i, typ)
	}
	return mkElemAddr(a, mkInt(int64(i)), partType(typ, i))
}

// write stores a value.
func (s *State) write(a *Term, v *Term, typ types.Type) {
	if explodes(typ) {
		delete(s.mem, a)
		n := numParts(typ)
		for i := 0; i < n; i++ {
			s.write(s.part(a, typ, i), fieldVal(v, i, partType(typ, i)), partType(typ, i))
		}
		return
	}
	s.invalidateAliases(a)
	s.mem[a] = v
	if !s.isLocal(a) {
		s.publish(v)
	}
}

// mayAlias: could two different address terms be the same memory?
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.Op != b.Op {
		return false
	}
	switch a.Op {
	case "fa":
		if a.Aux != b.Aux || !types.Identical(a.Obj.(types.Type), b.Obj.(types.Type)) {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return false
		}
		return s.ptrMayEq(a.Args[0], b.Args[0])
	case "ea":
		if a.Args[0] == b.Args[0] {
			if v, k := s.facts.truth(mkEqInt(a.Args[1], b.Args[1])); k && !v {
				return false
			}
			return true
		}
		if v, k := s.facts.truth(mkEqInt(a.Args[1], b.Args[1])); k && !v {
			return false
		}
		return s.ptrMayEq(a.Args[0], b.Args[0])
	case "mv", "mh":
		if a.Args[0] != b.Args[0] && !s.ptrMayEq(a.Args[0], b.Args[0]) {
			return false
		}
		kt := a.Args[1].Typ
		if lt := b.Args[1].Typ; kt != nil && lt != nil && !types.IsInterface(kt) && !types.IsInterface(lt) && !types.Identical(kt.Underlying(), lt.Underlying()) {
			return false
		}
		if kt == nil {
			kt = types.Typ[types.UnsafePointer]
		}
		if a.Args[1].Op == "iface" && b.Args[1].Op == "iface" {
			if v, k := s.facts.eqTruth(a.Args[1], b.Args[1]); k && !v {
				return false
			}
		}
		if v, k := s.facts.truth(mkEq(a.Args[1], b.Args[1], kt)); k && !v {
			return false
		}
		return !s.partsDiffer(a.Args[1], b.Args[1])
	case "alloc", "global":
		return false
	}
	return s.ptrMayEq(a, b)
}

// partsDiffer: two structs with a field known to be different.
func (s *State) partsDiffer(x, y *Term) bool {
	if x.Op != "struct" || y.Op != "struct" || len(x.Args) != len(y.Args) {
		return false
	}
	for i := range x.Args {
		t := x.Args[i].Typ
		if t == nil {
			t = types.Typ[types.UnsafePointer]
		}
		if v, k := s.facts.truth(mkEq(x.Args[i], y.Args[i], t)); k && !v || s.partsDiffer(x.Args[i], y.Args[i]) {
			return true
		}
	}
	return false
}

func (s *State) ptrMayEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if (a.Op == "append" || a.Op == "mkslice") && (b.Op == "append" || b.Op == "mkslice") {
		// what was built from different starts is different memory
		x, y := seqStart(a), seqStart(b)
		if x != y && (isFreshObj(x) || x.isNil()) && (isFreshObj(y) || y.isNil()) {
			return false
		}
	}
	if a.Op == "fa" || b.Op == "fa" || a.Op == "ea" || b.Op == "ea" {
		if a.Op == b.Op {
			return s.mayAlias(a, b)
		}
		// an interior pointer and some other pointer: distinct types are
		// handled by the field comparison above
		ra, rb := addrRoot(a), addrRoot(b)
		if isFreshObj(ra) && ra != rb || isFreshObj(rb) && ra != rb {
			return false
		}
		return true
	}
	if v, k := s.facts.eqTruth(a, b); k {
		return v
	}
	la, lb := isFreshObj(a) && !s.pub[a] && !s.e.sharedAlloc[a], isFreshObj(b) && !s.pub[b] && !s.e.sharedAlloc[b]
	if (la || lb) && a != b {
		return false
	}
	if a.Typ != nil && b.Typ != nil {
		pa, oka := a.Typ.Underlying().(*types.Pointer)
		pb, okb := b.Typ.Underlying().(*types.Pointer)
		if oka && okb && !types.Identical(pa.Elem(), pb.Elem()) {
			return false
		}
		ma, oka := a.Typ.Underlying().(*types.Map)
		mb, okb := b.Typ.Underlying().(*types.Map)
		if oka && okb && !types.Identical(ma, mb) {
			return false
		}
	}
	return true
}

func (s *State) invalidateAliases(a *Term) {
	for b := range s.mem {
		if b != a && b.Op == a.Op && s.mayAlias(a, b) {
			s.mem[b] = mkLoad(b, s.nextVer(), pointee(b))
		}
	}
	// a symbolic element store also affects elements not yet seen
	if a.Op == "ea" {
		if _, ok := a.Args[1].intVal(); !ok {
			s.mark[a.Args[0]] = s.nextVer()
		} else if _, seen := s.mem[a]; !seen {
			// nothing
		}
	}
}

func pointee(a *Term) types.Type {
	if a.Op == "mv" {
		if t, ok := a.Obj.(types.Type); ok {
			return t
		}
	}
	if a.Op == "mh" {
		return types.Typ[types.Bool]
	}
	if a.Op == "content" {
		return types.Typ[types.String]
	}
	if a.Op == "chclosed" {
		return types.Typ[types.Bool]
	}
	if a.Op == "chpend" {
		return types.Typ[types.Int]
	}
	if a.Typ == nil {
		panic("no type: " + a.String())
	}
	if p, ok := a.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return a.Typ
}

// havoc forgets everything stored under an address.
func (s *State) havoc(a *Term) {
	for b := range s.mem {
		for x := b; x != nil; {
			if x == a {
				delete(s.mem, b)
				break
			}
			switch x.Op {
			case "fa", "ea", "mv", "mh", "content", "slice":
				x = x.Args[0]
			default:
				x = nil
			}
		}
	}
	s.mark[a] = s.nextVer()
}

// release forgets what other goroutines may change once a lock is dropped.
func (s *State) release() {
	s.ver = s.nextVer()
	if s.e.Opts.Seq {
		return
	}
	for b := range s.mem {
		if s.isLocal(b) || !s.isMutable(b) {
			continue
		}
		delete(s.mem, b)
		if r := addrRoot(b); isFreshObj(r) {
			s.mark[b] = s.ver
		}
	}
}

// publish records that an object becomes reachable by other goroutines.
func (s *State) publish(v *Term) {
	if v == nil {
		return
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "const", "nil", "global", "func", "load", "param":
			return
		}
		if isFreshObj(t) {
			if s.pub[t] {
				return
			}
			s.pub[t] = true
			for a, x := range s.mem {
				if addrRoot(a) == t {
					walk(x)
					if a.Op == "mv" {
						walk(a.Args[1])
					}
				}
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(v)
}

// dumpEvents renders the events of a path for reports.
func dumpEvents(p *Program, evs []*Event) string {
	var b strings.Builder
	if n := len(evs); n > 400 {
		b.WriteString("    ...\n")
		evs = evs[n-400:]
	}
	for _, ev := range evs {
		b.WriteString("    ")
		b.WriteString(p.Pos(ev.Pos()))
		b.WriteString(" ")
		b.WriteString(ev.Kind)
		if ev.Name != "" {
			b.WriteString(" " + ev.Name)
		}
		if ev.Callee != nil {
			b.WriteString(" callee=" + ev.Callee.String())
		}
		if ev.Addr != nil {
			b.WriteString(" " + ev.Addr.String())
		}
		if ev.Old != nil {
			b.WriteString(" old=" + ev.Old.String())
		}
		if ev.Val != nil {
			b.WriteString(" := " + ev.Val.String())
		}
		if len(ev.Args) > 0 {
			var ss []string
			for _, a := range ev.Args {
				ss = append(ss, a.String())
			}
			b.WriteString(" (" + strings.Join(ss, ", ") + ")")
		}
		if ev.Res != nil {
			b.WriteString(" -> " + ev.Res.String())
		}
		if ev.App {
			b.WriteString(" [app]")
		}
		if ev.Local {
			b.WriteString(" [local]")
		}
		if ev.Loop != nil {
			b.WriteString(" loop" + strconv.Itoa(ev.Loop.ID))
		}
		for _, h := range ev.Held {
			b.WriteString(" {" + h.Mode + " " + h.Lock.String() + "}")
		}
		b.WriteString("\n")
	}
	return b.String()
}

func seqStart(t *Term) *Term {
	for t.Op == "append" {
		t = t.Args[0]
	}
	return t
}
