package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Origins is a flow- and context-insensitive inclusion analysis: which function
// values and dynamic types can reach each call, and whether the called code can
// be the application's.
type Origins struct {
	p       *Program
	nodes   map[any]*onode
	work    []*onode
	calls   map[ssa.CallInstruction]*onode
	esc     *onode
	funcs   []*ssa.Function
	escaped map[any]bool
}

type onode struct {
	tok  map[any]bool // appTok, extTok, *ssa.Function, types.Type (string key)
	out  []*onode
	outS map[*onode]bool
	call []ssa.CallInstruction
	inW  bool
}

type tokKind int

const (
	appTok tokKind = iota
	extTok
)

// AppOnly tokens keep the type identity.
type typeTok struct{ key string }

func (o *Origins) node(k any) *onode {
	n := o.nodes[k]
	if n == nil {
		n = &onode{tok: map[any]bool{}, outS: map[*onode]bool{}}
		o.nodes[k] = n
	}
	return n
}

func (o *Origins) add(n *onode, t any) {
	if n.tok[t] {
		return
	}
	n.tok[t] = true
	if !n.inW {
		n.inW = true
		o.work = append(o.work, n)
	}
}

func (o *Origins) flow(a, b *onode) {
	if a == b || a.outS[b] {
		return
	}
	a.outS[b] = true
	a.out = append(a.out, b)
	for t := range a.tok {
		o.add(b, t)
	}
}

func (o *Origins) unify(a, b *onode) { o.flow(a, b); o.flow(b, a) }

var typeByKey = map[string]types.Type{}

func tTok(t types.Type) typeTok {
	k := typeKey(t)
	typeByKey[k] = t
	return typeTok{k}
}

type fieldKey struct {
	t string
	i int
}
type resKey struct {
	fn *ssa.Function
	i  int
}

func (o *Origins) val(v ssa.Value) *onode {
	switch v := v.(type) {
	case *ssa.Function:
		n := o.node(v)
		o.add(n, v)
		return n
	case *ssa.FieldAddr:
		st := v.X.Type().Underlying().(*types.Pointer).Elem()
		return o.node(fieldKey{typeKey(st), v.Field})
	case *ssa.Field:
		return o.node(fieldKey{typeKey(v.X.Type()), v.Field})
	case *ssa.IndexAddr:
		return o.val(v.X)
	case *ssa.Const:
		return o.node("const")
	}
	return o.node(v)
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

func (o *Origins) pass(arg, param ssa.Value) {
	a, b := o.val(arg), o.val(param)
	o.flow(a, b)
	if refLike(param.Type()) && isInterestingPtr(param.Type()) {
		o.flow(b, a)
	}
}

// isInterestingPtr: pointers to structs are field based, no back flow needed
func isInterestingPtr(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		_, isS := p.Elem().Underlying().(*types.Struct)
		return !isS
	}
	return true
}

func buildOrigins(p *Program) *Origins {
	o := &Origins{p: p, nodes: map[any]*onode{}, calls: map[ssa.CallInstruction]*onode{}, escaped: map[any]bool{}}
	o.esc = o.node("escape")
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Blocks == nil {
			continue
		}
		if p.inRepo(fn) {
			o.funcs = append(o.funcs, fn)
		}
	}
	for _, fn := range o.funcs {
		o.seed(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				o.instr(fn, in)
			}
		}
	}
	// exported fields and variables may be set by the application
	for _, sp := range p.SSAPkgs {
		for name, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Global:
				if ast.IsExported(name) {
					// variables hold library values; the application may replace them only
					// where they are meant to be set, which none is documented to be
					_ = m
				}
			case *ssa.Type:
				if st, ok := m.Type().Underlying().(*types.Struct); ok && ast.IsExported(name) {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Exported() && !st.Field(i).Embedded() {
							o.add(o.node(fieldKey{typeKey(m.Type()), i}), appTok)
						}
					}
				}
			}
		}
	}
	for len(o.work) > 0 {
		n := o.work[len(o.work)-1]
		o.work = o.work[:len(o.work)-1]
		n.inW = false
		toks := make([]any, 0, len(n.tok))
		for t := range n.tok {
			toks = append(toks, t)
		}
		for _, t := range toks {
			for _, b := range n.out {
				o.add(b, t)
			}
		}
		for _, c := range n.call {
			o.resolve(c, n)
		}
		if n == o.esc {
			for _, t := range toks {
				o.escape(t)
			}
		}
	}
	return o
}

func (o *Origins) escape(t any) {
	if o.escaped[t] {
		return
	}
	o.escaped[t] = true
	switch t := t.(type) {
	case *ssa.Function:
		for _, p := range t.Params {
			o.add(o.val(p), appTok)
		}
		for i := 0; i < t.Signature.Results().Len(); i++ {
			o.flow(o.node(resKey{t, i}), o.esc)
		}
	case typeTok:
		T := typeByKey[t.key]
		if !isRepoType(T) {
			return
		}
		ms := types.NewMethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if !m.Obj().Exported() {
				continue
			}
			if fn := o.p.SSA.MethodValue(m); fn != nil && fn.Blocks != nil {
				for j, p := range fn.Params {
					if j > 0 {
						o.add(o.val(p), appTok)
					}
				}
			}
		}
	}
}

// exportedAPI: can the application call this function by name?
func (p *Program) exportedAPI(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	if !ast.IsExported(fn.Name()) {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Exported()
		}
		return false
	}
	return true
}

func (o *Origins) seed(fn *ssa.Function) {
	if !o.p.exportedAPI(fn) {
		return
	}
	for i, p := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			// receivers that are themselves functions come from the library or the application
			if _, ok := p.Type().Underlying().(*types.Signature); ok {
				o.add(o.val(p), appTok)
			}
			continue
		}
		o.add(o.val(p), appTok)
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		o.flow(o.node(resKey{fn, i}), o.esc)
	}
}

func (o *Origins) instr(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Phi:
		for _, e := range in.Edges {
			o.flow(o.val(e), o.val(in))
		}
	case *ssa.ChangeType:
		o.unify(o.val(in.X), o.val(in))
	case *ssa.ChangeInterface:
		o.flow(o.val(in.X), o.val(in))
	case *ssa.Convert:
		o.unify(o.val(in.X), o.val(in))
	case *ssa.MakeInterface:
		o.add(o.val(in), tTok(in.X.Type()))
		switch in.X.Type().Underlying().(type) {
		case *types.Signature, *types.Pointer, *types.Slice, *types.Map:
			o.flow(o.val(in.X), o.val(in))
		}
		if st, ok := in.X.Type().Underlying().(*types.Struct); ok && isRepoType(in.X.Type()) {
			_ = st
		}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		o.add(o.val(in), f)
		for i, b := range in.Bindings {
			o.unify(o.val(b), o.val(f.FreeVars[i]))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL || in.Op == token.ARROW {
			o.flow(o.val(in.X), o.val(in))
			if refLike(in.Type()) {
				o.flow(o.val(in), o.val(in.X))
			}
		}
	case *ssa.Store:
		o.flow(o.val(in.Val), o.val(in.Addr))
		if refLike(in.Val.Type()) && isInterestingPtr(in.Val.Type()) {
			o.flow(o.val(in.Addr), o.val(in.Val))
		}
	case *ssa.Send:
		o.flow(o.val(in.X), o.val(in.Chan))
	case *ssa.MapUpdate:
		o.flow(o.val(in.Value), o.val(in.Map))
		o.flow(o.val(in.Key), o.val(in.Map))
	case *ssa.Lookup:
		o.flow(o.val(in.X), o.val(in))
	case *ssa.Index:
		o.flow(o.val(in.X), o.val(in))
	case *ssa.Range:
		o.flow(o.val(in.X), o.val(in))
	case *ssa.Next:
		o.flow(o.val(in.Iter), o.val(in))
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			o.flow(o.node(callRes{c, in.Index}), o.val(in))
		} else {
			o.flow(o.val(in.Tuple), o.val(in))
		}
	case *ssa.Slice:
		o.unify(o.val(in.X), o.val(in))
	case *ssa.Select:
		for _, st := range in.States {
			if st.Send != nil {
				o.flow(o.val(st.Send), o.val(st.Chan))
			} else {
				o.flow(o.val(st.Chan), o.val(in))
			}
		}
	case *ssa.TypeAssert:
		o.flow(o.val(in.X), o.val(in))
	case *ssa.Return:
		for i, r := range in.Results {
			o.flow(o.val(r), o.node(resKey{fn, i}))
		}
	case ssa.CallInstruction:
		o.callInstr(in)
	}
}

type callRes struct {
	c *ssa.Call
	i int
}

func (o *Origins) resNodes(c ssa.CallInstruction, n int) []*onode {
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil
	}
	if n == 1 {
		return []*onode{o.val(call)}
	}
	var r []*onode
	for i := 0; i < n; i++ {
		r = append(r, o.node(callRes{call, i}))
	}
	return r
}

func (o *Origins) callInstr(c ssa.CallInstruction) {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if v := c.Value(); v != nil {
			switch b.Name() {
			case "append":
				for _, a := range com.Args {
					o.flow(o.val(a), o.val(v))
				}
			case "recover":
				o.add(o.val(v), appTok)
			default:
				if b.Name() == "ssa:wrapnilchk" {
					o.flow(o.val(com.Args[0]), o.val(v))
				}
			}
		}
		if b.Name() == "copy" {
			o.flow(o.val(com.Args[1]), o.val(com.Args[0]))
		}
		return
	}
	n := o.val(com.Value)
	n.call = append(n.call, c)
	o.calls[c] = n
	for t := range n.tok {
		o.resolveTok(c, t)
	}
}

func (o *Origins) resolve(c ssa.CallInstruction, n *onode) {
	toks := make([]any, 0, len(n.tok))
	for t := range n.tok {
		toks = append(toks, t)
	}
	for _, t := range toks {
		o.resolveTok(c, t)
	}
}

type rk struct {
	c ssa.CallInstruction
	t any
}

func (o *Origins) resolveTok(c ssa.CallInstruction, t any) {
	if o.escaped[rk{c, t}] {
		return
	}
	o.escaped[rk{c, t}] = true
	com := c.Common()
	res := o.resNodes(c, com.Signature().Results().Len())
	bind := func(fn *ssa.Function, args []ssa.Value) {
		if fn.Blocks == nil || !o.p.inRepo(fn) {
			o.extCall(c, args, res)
			return
		}
		for i, a := range args {
			if i < len(fn.Params) {
				o.pass(a, fn.Params[i])
			}
		}
		for i := range res {
			o.flow(o.node(resKey{fn, i}), res[i])
		}
	}
	switch t := t.(type) {
	case tokKind:
		o.extCall(c, com.Args, res)
		if t == appTok {
			for _, r := range res {
				o.add(r, appTok)
			}
		}
	case *ssa.Function:
		if com.IsInvoke() {
			return
		}
		if !types.Identical(t.Signature, com.Signature()) && com.StaticCallee() == nil {
			// collapsed containers may mix functions of different types
			if t.Signature.Params().Len() != com.Signature().Params().Len() {
				return
			}
		}
		bind(t, com.Args)
	case typeTok:
		if !com.IsInvoke() {
			return
		}
		T := typeByKey[t.key]
		sel := types.NewMethodSet(T).Lookup(com.Method.Pkg(), com.Method.Name())
		if sel == nil {
			return
		}
		fn := o.p.SSA.MethodValue(sel)
		if fn == nil {
			return
		}
		if fn.Blocks == nil || !o.p.inRepo(fn) {
			o.extCall(c, com.Args, res)
			return
		}
		args := append([]ssa.Value{com.Value}, com.Args...)
		bind(fn, args)
	}
}

// extCall: arguments become visible to code outside the repository.
func (o *Origins) extCall(c ssa.CallInstruction, args []ssa.Value, res []*onode) {
	for _, a := range args {
		o.flow(o.val(a), o.esc)
		// objects handed out may be filled in with application values through pointers
		for _, r := range res {
			// results may carry what was passed in (context.WithValue, append-like helpers)
			o.flow(o.val(a), r)
		}
	}
	for _, r := range res {
		o.add(r, extTok)
	}
}

// callTargets says what a dynamic call may run.
func (o *Origins) callTargets(instr ssa.Instruction) (app bool, internal []*ssa.Function) {
	c, ok := instr.(ssa.CallInstruction)
	if !ok {
		return true, nil
	}
	n := o.calls[c]
	if n == nil {
		return true, nil
	}
	com := c.Common()
	seen := map[*ssa.Function]bool{}
	for t := range n.tok {
		switch t := t.(type) {
		case tokKind:
			if t == appTok {
				app = true
			}
		case *ssa.Function:
			if !com.IsInvoke() && t.Blocks != nil && !seen[t] && (types.Identical(t.Signature, com.Signature()) || t.Signature.Params().Len() == com.Signature().Params().Len()) {
				seen[t] = true
				internal = append(internal, t)
			}
		case typeTok:
			if com.IsInvoke() {
				T := typeByKey[t.key]
				sel := types.NewMethodSet(T).Lookup(com.Method.Pkg(), com.Method.Name())
				if sel == nil {
					continue
				}
				fn := o.p.SSA.MethodValue(sel)
				if fn != nil && fn.Blocks != nil && !seen[fn] {
					seen[fn] = true
					internal = append(internal, fn)
				}
			}
		}
	}
	sortFuncs(internal)
	return app, internal
}

func sortFuncs(f []*ssa.Function) {
	for i := 1; i < len(f); i++ {
		for j := i; j > 0 && f[j].String() < f[j-1].String(); j-- {
			f[j], f[j-1] = f[j-1], f[j]
		}
	}
}

var _ = strconv.Itoa
