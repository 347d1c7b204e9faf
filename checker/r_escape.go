package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where untrusted text goes: a backward flow analysis from everything written
// to the strings and writers it is composed of. A piece of text is harmless if
// it is constant, a number, or passed a guard: assuming that the byte at hand
// (or the whole string) is one of (or contains one of) the characters that must
// not come through, no path leads to where it is written, or, where a backslash
// escapes, only paths that wrote one just before.

type escCtx struct {
	c       *Ctx
	rule    string
	bad     string
	prefix  bool // a backslash before it makes it harmless
	measure bool // '=' separates nothing in a measurement
	xml     bool
	done    map[textKey]string
	busy    map[textKey]bool
	points  int
	lost    string
}

type textKey struct {
	v  ssa.Value
	fr *escFrame
}

// escFrame binds parameters to the arguments of a call.
type escFrame struct {
	fn   *ssa.Function
	args []ssa.Value
	up   *escFrame
	n    int
}

func (x *escCtx) bind(fr *escFrame, fn *ssa.Function, args []ssa.Value) *escFrame {
	n := 0
	if fr != nil {
		n = fr.n
	}
	return &escFrame{fn, args, fr, n + 1}
}

func (fr *escFrame) arg(p *ssa.Parameter) (ssa.Value, *escFrame) {
	for f := fr; f != nil; f = f.up {
		if f.fn == p.Parent() {
			for i, q := range f.fn.Params {
				if q == p && i < len(f.args) {
					return f.args[i], f.up
				}
			}
			return nil, nil
		}
	}
	return nil, nil
}

func harmlessType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" {
		return true
	}
	b, ok := t.(*types.Basic)
	return ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.Convert:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeInterface:
			v = y.X
		default:
			return v
		}
	}
}

// unsafe explains why a value may carry one of the characters; "" if it cannot.
func (x *escCtx) unsafe(v ssa.Value, fr *escFrame, at ssa.Instruction) string {
	k := textKey{v, fr}
	if r, ok := x.done[k]; ok {
		return r
	}
	if x.busy[k] {
		return ""
	}
	if fr != nil && fr.n > 12 {
		return "calls are nested too deeply to follow"
	}
	x.busy[k] = true
	r := x.why(v, fr, at)
	delete(x.busy, k)
	x.measure = x.isMeasurement(v, fr)
	if r != "" && at != nil && x.guarded(v, at, fr) {
		r = ""
	} else {
		x.done[k] = r
	}
	return r
}

func (x *escCtx) all(vs []ssa.Value, fr *escFrame, at ssa.Instruction) string {
	for _, v := range vs {
		if r := x.unsafe(v, fr, at); r != "" {
			return r
		}
	}
	return ""
}

func (x *escCtx) why(v ssa.Value, fr *escFrame, at ssa.Instruction) string {
	x.points++
	if _, ok := v.(*ssa.Const); ok {
		return ""
	}
	if t := v.Type(); harmlessType(t) && at == nil {
		return ""
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		if harmlessType(v.X.Type()) {
			return ""
		}
		return x.unsafe(v.X, fr, at)
	case *ssa.ChangeInterface:
		return x.unsafe(v.X, fr, at)
	case *ssa.ChangeType:
		return x.unsafe(v.X, fr, at)
	case *ssa.Convert:
		return x.unsafe(v.X, fr, at)
	case *ssa.Slice:
		if w := x.unsafe(v.X, fr, at); w != "" {
			if x.isMeasurement(v.X, fr) {
				x.measure = true
			}
			if x.freeOf(v, fr) {
				return ""
			}
			return w
		}
		return ""
	case *ssa.MakeSlice:
		return ""
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return x.all([]ssa.Value{v.X, v.Y}, fr, at)
		}
		return ""
	case *ssa.Phi:
		return x.all(v.Edges, fr, at)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return x.result(c, v.Index, fr, at)
		}
	case *ssa.Call:
		return x.result(v, 0, fr, at)
	case *ssa.Alloc:
		return x.stored(v, fr, at)
	case *ssa.FreeVar:
		return x.free(v, fr, at)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return ""
		}
		switch a := v.X.(type) {
		case *ssa.Alloc:
			return x.stored(a, fr, at)
		case *ssa.FreeVar:
			return x.free(a, fr, at)
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok && x.localStruct(al) {
				return x.all(storesOf(al, a.Field), fr, at)
			}
			return x.field(a, fr)
		case *ssa.IndexAddr:
			// an element of a list of texts
			return x.unsafe(a.X, fr, at)
		}
	case *ssa.Parameter:
		if a, up := fr.arg(v); a != nil {
			return x.unsafe(a, up, nil)
		}
	}
	return fmt.Sprintf("%s is text of the application", describe(v))
}

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return "the result of " + fnName(f)
		}
		if v.Call.IsInvoke() {
			return "the result of " + v.Call.Method.Name()
		}
	case *ssa.UnOp:
		if a, ok := v.X.(*ssa.FieldAddr); ok {
			return "the field " + addrField(a)
		}
	}
	return v.String()
}

func addrField(a *ssa.FieldAddr) string {
	if p, ok := a.X.Type().Underlying().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			return st.Field(a.Field).Name()
		}
	}
	return "?"
}

// isMeasurement: the text is the Measurement of a series key.
func (x *escCtx) isMeasurement(v ssa.Value, fr *escFrame) bool {
	for i := 0; i < 20; i++ {
		v = strip(v)
		switch y := v.(type) {
		case *ssa.Parameter:
			a, up := fr.arg(y)
			if a == nil {
				return false
			}
			v, fr = a, up
			continue
		case *ssa.UnOp:
			if a, ok := y.X.(*ssa.FieldAddr); ok {
				return addrField(a) == "Measurement"
			}
		case *ssa.Field:
			if st, ok := y.X.Type().Underlying().(*types.Struct); ok {
				return st.Field(y.Field).Name() == "Measurement"
			}
		}
		return false
	}
	return false
}

func (x *escCtx) localStruct(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func storesOf(al *ssa.Alloc, field int) (vs []ssa.Value) {
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == field {
			for _, u := range *fa.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == fa {
					vs = append(vs, st.Val)
				}
			}
		}
	}
	return
}

// stored: what is put into a local variable, array or text buffer.
func (x *escCtx) stored(addr ssa.Value, fr *escFrame, at ssa.Instruction) string {
	refs := addr.Referrers()
	if refs == nil {
		return "memory that cannot be followed"
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == addr {
				if w := x.unsafe(r.Val, fr, r); w != "" {
					return w
				}
			}
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == r {
					if w := x.unsafe(st.Val, fr, st); w != "" {
						return w
					}
				}
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == addr {
					if w := x.stored(r.Fn.(*ssa.Function).FreeVars[i], fr, nil); w != "" {
						return w
					}
				}
			}
		case ssa.CallInstruction:
			if w := x.into(r, addr, fr); w != "" {
				return w
			}
		case *ssa.MakeInterface:
			// the buffer as a writer
			for _, u := range *r.Referrers() {
				if ci, ok := u.(ssa.CallInstruction); ok {
					if w := x.into(ci, r, fr); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

func (x *escCtx) free(v *ssa.FreeVar, fr *escFrame, at ssa.Instruction) string {
	fn := v.Parent()
	for i, f := range fn.FreeVars {
		if f != v {
			continue
		}
		if fn.Parent() == nil {
			break
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					if w := x.unsafe(mc.Bindings[i], fr, nil); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	return "a captured variable that cannot be followed"
}

// field: what is ever put into a field of the library's own types.
func (x *escCtx) field(a *ssa.FieldAddr, fr *escFrame) string {
	if addrField(a) == "Measurement" {
		return "the field Measurement is text of the application"
	}
	t := a.X.Type()
	n, found := 0, ""
	for _, fn := range x.c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != a.Field || !types.Identical(fa.X.Type(), t) {
					continue
				}
				n++
				if w := x.unsafe(st.Val, nil, st); w != "" {
					found = w
				}
			}
		}
	}
	if n == 0 {
		return fmt.Sprintf("the field %s is text of the application", addrField(a))
	}
	return found
}

// payload lists the texts a call writes, and whether it writes at all.
func (x *escCtx) payload(ci ssa.CallInstruction) (vs []ssa.Value, writes bool) {
	cc := ci.Common()
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return cc.Args, true
		}
		return nil, false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return cc.Args[1:], true
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return nil, false
	}
	switch extName(fn) {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune":
		return cc.Args[1:], true
	case "fmt.Appendf", "fmt.Append", "fmt.Appendln":
		return cc.Args[1:], true
	case "encoding/xml.EscapeText", "text/template.HTMLEscape", "html/template.HTMLEscape":
		if x.xml {
			return nil, true
		}
		return cc.Args[1:], true
	}
	return nil, false
}

// into: what a call puts into the buffer it is given.
func (x *escCtx) into(ci ssa.CallInstruction, buf ssa.Value, fr *escFrame) string {
	if vs, ok := x.payload(ci); ok {
		return x.texts(ci, vs, fr)
	}
	fn := ci.Common().StaticCallee()
	if fn == nil || fn.Blocks == nil || !x.c.P.inRepoPkg(fn.Pkg) {
		return ""
	}
	nf := x.bind(fr, fn, ci.Common().Args)
	for i, a := range ci.Common().Args {
		if a != buf || i >= len(fn.Params) {
			continue
		}
		k := textKey{fn.Params[i], nf}
		if x.busy[k] {
			return ""
		}
		x.busy[k] = true
		w := x.stored(fn.Params[i], nf, nil)
		delete(x.busy, k)
		if w != "" {
			return w
		}
	}
	return ""
}

// texts checks what one call writes.
func (x *escCtx) texts(ci ssa.CallInstruction, vs []ssa.Value, fr *escFrame) string {
	in := ci.(ssa.Instruction)
	for _, v := range vs {
		byteLike := false
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			byteLike = true
		}
		var w string
		if byteLike {
			if _, ok := v.(*ssa.Const); ok {
				continue
			}
			x.measure = false
			if k, ok := charOf(strip(v)); ok && k.b != nil {
				x.measure = x.isMeasurement(k.a, fr)
			}
			if !x.guarded(v, in, fr) {
				w = "a character of unchecked text"
				if x.lost != "" {
					w = x.lost
				}
			}
			x.points++
		} else {
			w = x.unsafe(v, fr, in)
		}
		if w != "" {
			return fmt.Sprintf("%s (written at %s)", w, x.c.P.Pos(in.Pos()))
		}
	}
	return ""
}

func (x *escCtx) result(c *ssa.Call, idx int, fr *escFrame, at ssa.Instruction) string {
	cc := &c.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if w := x.unsafe(cc.Args[0], fr, nil); w != "" {
				return w
			}
			return x.texts(c, cc.Args[1:], fr)
		}
		return ""
	}
	if cc.IsInvoke() {
		return describe(c) + " is text of the application"
	}
	fn := cc.StaticCallee()
	if fn == nil {
		return "the result of a function value is text of the application"
	}
	arg := func(i int) string {
		if i < len(cc.Args) {
			s, _ := constString(cc.Args[i])
			return s
		}
		return ""
	}
	less := func(v ssa.Value, chars string) string {
		y := *x
		y.bad = ""
		for i := 0; i < len(x.bad); i++ {
			if !strings.Contains(chars, x.bad[i:i+1]) {
				y.bad += x.bad[i : i+1]
			}
		}
		if y.bad == "" {
			return ""
		}
		y.done, y.busy = map[textKey]string{}, map[textKey]bool{}
		w := y.unsafe(v, fr, at)
		x.points += y.points
		return w
	}
	switch name := extName(fn); name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if f := arg(0); strings.Contains(f, "%c") || strings.Contains(f, "%q") {
			return "a character formatted as such"
		}
		return x.all(cc.Args, fr, at)
	case "(time.Duration).String", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool", "(*sync.Once).Do":
		return ""
	case "(*strings.Builder).String", "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes":
		b := cc.Args[0]
		return x.stored(b, fr, nil)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.Clone", "bytes.Clone":
		return x.unsafe(cc.Args[0], fr, at)
	case "strings.ReplaceAll":
		if o := arg(1); len(o) == 1 && x.replaced(o, arg(2)) {
			return less(cc.Args[0], o)
		}
		return x.unsafe(cc.Args[0], fr, at)
	case "(*strings.Replacer).Replace":
		return less(cc.Args[1], x.pairs(cc.Args[0]))
	case "html.EscapeString", "text/template.HTMLEscapeString", "html/template.HTMLEscapeString", "html/template.JSEscapeString", "text/template.JSEscapeString":
		if x.xml {
			return ""
		}
	}
	if fn.Blocks != nil && x.c.P.inRepoPkg(fn.Pkg) {
		nf := x.bind(fr, fn, cc.Args)
		k := textKey{fn, nil}
		if x.busy[k] {
			return ""
		}
		x.busy[k] = true
		defer delete(x.busy, k)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && idx < len(r.Results) {
					if w := x.unsafe(r.Results[idx], nf, r); w != "" {
						return w
					}
				}
			}
		}
		return ""
	}
	return describe(c) + " is text of the application"
}

// replaced: the replacement of a character is harmless.
func (x *escCtx) replaced(old, repl string) bool {
	if x.prefix && repl == `\`+old {
		return true
	}
	return !strings.Contains(repl, old)
}

// pairs lists the characters a replacer of constant pairs takes care of.
func (x *escCtx) pairs(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok {
			out := ""
			for _, fn := range x.c.P.initsOf(g) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							out = x.pairs(st.Val)
						}
					}
				}
			}
			return out
		}
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil && extName(f) == "strings.NewReplacer" && len(y.Call.Args) == 1 {
			if sl, ok := y.Call.Args[0].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					vals := map[int64]string{}
					for _, r := range *al.Referrers() {
						if ia, ok := r.(*ssa.IndexAddr); ok {
							i, ok := ia.Index.(*ssa.Const)
							if !ok {
								return ""
							}
							for _, u := range *ia.Referrers() {
								if st, ok := u.(*ssa.Store); ok {
									s, ok := constString(st.Val)
									if !ok {
										return ""
									}
									vals[i.Int64()] = s
								}
							}
						}
					}
					out := ""
					for i := int64(0); i+1 < int64(len(vals)); i += 2 {
						if len(vals[i]) == 1 && x.replaced(vals[i], vals[i+1]) {
							out += vals[i]
						}
					}
					return out
				}
			}
		}
	}
	return ""
}

func (p *Program) initsOf(g *ssa.Global) (fns []*ssa.Function) {
	if f := g.Pkg.Func("init"); f != nil {
		fns = append(fns, f)
	}
	return
}

func constString(v ssa.Value) (string, bool) {
	if k, ok := strip(v).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// ---- guards ----

// charKey identifies reading one character: the same element of the same text.
type charKey struct{ a, b ssa.Value }

func charOf(v ssa.Value) (charKey, bool) {
	switch y := v.(type) {
	case *ssa.Lookup:
		return charKey{y.X, y.Index}, isStringType(y.X.Type())
	case *ssa.Index:
		return charKey{y.X, y.Index}, true
	case *ssa.UnOp:
		if ia, ok := y.X.(*ssa.IndexAddr); ok && y.Op == token.MUL {
			return charKey{ia.X, ia.Index}, true
		}
	case *ssa.Extract:
		if _, ok := y.Tuple.(*ssa.Next); ok {
			return charKey{y.Tuple, nil}, true
		}
	case *ssa.Parameter:
		return charKey{y, nil}, true
	}
	return charKey{}, false
}

// guarded: for none of the characters a path leads to the instruction.
func (x *escCtx) guarded(v ssa.Value, at ssa.Instruction, fr *escFrame) bool {
	v = strip(v)
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	fn := at.Parent()
	w := &escWalk{x: x, fn: fn, at: at, fr: fr}
	start := fn.Blocks[0]
	if isStringType(v.Type()) || !harmlessType(v.Type()) {
		// the whole text
		w.text = v
		if p, ok := v.(*ssa.Parameter); ok && p.Parent() != fn {
			return false
		}
	} else {
		k, ok := charOf(v)
		if !ok {
			return false
		}
		w.char, w.isChar = k, true
		var def ssa.Value = k.b
		if def == nil {
			def = k.a
		}
		if in, ok := def.(ssa.Instruction); ok {
			start = in.Block()
		}
		w.start = start
	}
	if w.isChar && x.prefix {
		// and none is left out
		for ch := 0; ch < 256; ch++ {
			w.ch, w.lost, w.find, w.wrote = byte(ch), false, true, false
			w.seen = map[string]bool{}
			w.walk(start, nil, false, map[ssa.Value]constant.Value{}, 0)
			if w.lost && w.char.b != nil {
				// it may be written later on, as part of the text
				text := strip(w.char.a)
				if _, changes := text.(*ssa.Phi); !changes && !x.partHit(fn, nil, text, byte(ch), fr) {
					continue
				}
			}
			if w.lost {
				x.lost = fmt.Sprintf("%s: the character %q is left out", x.c.P.Pos(at.Pos()), string(rune(ch)))
				return false
			}
		}
		w.find = false
	}
	bad := x.bad
	if x.measure {
		bad = strings.ReplaceAll(bad, "=", "")
	}
	for i := 0; i < len(bad); i++ {
		w.ch = bad[i]
		w.hit = false
		w.seen = map[string]bool{}
		w.walk(start, nil, false, map[ssa.Value]constant.Value{}, 0)
		if w.hit {
			return false
		}
	}
	return true
}

// escWalk follows the paths of a function on an assumption.
type escWalk struct {
	x      *escCtx
	fn     *ssa.Function
	at     ssa.Instruction
	start  *ssa.BasicBlock
	text   ssa.Value // contains ch
	char   charKey   // is ch
	isChar bool
	ch     byte
	hit    bool
	find   bool // looking for paths that leave the character out
	fr     *escFrame
	wrote  bool
	lost   bool
	seen   map[string]bool

	// for the relation of indices to the place of the character
	charAt func(charKey) bool
	order  func(ssa.Value) constant.Value
}

var atLeastZero = constant.MakeString("at least zero")

func (w *escWalk) walk(b, prev *ssa.BasicBlock, slash bool, env map[ssa.Value]constant.Value, depth int) {
	if w.hit || w.lost || depth > 200 {
		return
	}
	pi := -1
	if prev != nil {
		pi = prev.Index
	}
	key := fmt.Sprint(b.Index, "/", pi, "/", slash, "/", w.wrote)
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	e := map[ssa.Value]constant.Value{}
	for k, v := range env {
		e[k] = v
	}
	// phis
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		delete(e, phi)
		for i, p := range b.Preds {
			if p == prev && i < len(phi.Edges) {
				if c := w.eval(phi.Edges[i], env, 0); c != nil {
					e[phi] = c
				}
			}
		}
	}
	for _, in := range b.Instrs {
		if ci, ok := in.(ssa.CallInstruction); ok && w.find {
			vs, _ := w.x.payload(ci)
			for _, v := range vs {
				if k, ok := charOf(strip(v)); ok && k == w.char {
					w.wrote = true
				}
				if s, ok := constString(v); ok && strings.IndexByte(s, w.ch) >= 0 {
					w.wrote = true
				}
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == int64(w.ch) {
					w.wrote = true
				}
				if _, isSlice := v.(*ssa.Slice); isSlice {
					w.wrote = true // several bytes at once
				}
			}
			continue
		}
		if in == w.at {
			if w.find {
				w.wrote = true
				continue
			}
			if !(w.x.prefix && slash && w.isChar) {
				w.hit = true
			}
			if w.x.prefix && slash && w.isChar {
				slash = false
			}
			continue
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			if vs, ok := w.x.payload(ci); ok {
				slash = len(vs) > 0 && endsInSlash(vs[len(vs)-1])
			}
		}
	}
	switch last := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.If:
		c := w.eval(last.Cond, e, 0)
		for i, s := range b.Succs {
			if c != nil && c.Kind() == constant.Bool && constant.BoolVal(c) != (i == 0) {
				continue
			}
			w.next(s, b, slash, e, depth)
		}
	default:
		for _, s := range b.Succs {
			w.next(s, b, slash, e, depth)
		}
	}
}

func (w *escWalk) next(s, b *ssa.BasicBlock, slash bool, e map[ssa.Value]constant.Value, depth int) {
	if w.isChar && s == w.start {
		if w.find && !w.wrote {
			w.lost = true
		}
		return // the next character
	}
	wrote := w.wrote
	w.walk(s, b, slash, e, depth+1)
	w.wrote = wrote
}

func endsInSlash(v ssa.Value) bool {
	v = strip(v)
	if k, ok := v.(*ssa.Const); ok && k.Value != nil {
		switch k.Value.Kind() {
		case constant.Int:
			return k.Int64() == '\\'
		case constant.String:
			s := constant.StringVal(k.Value)
			return (len(s)-len(strings.TrimRight(s, `\`)))%2 == 1
		}
	}
	// variadic bytes
	if sl, ok := v.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			n := 0
			last := false
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok {
							n++
							last = endsInSlash(st.Val)
						}
					}
				}
			}
			return n == 1 && last
		}
	}
	return false
}

// eval is the value of an expression as far as the assumption decides it.
func (w *escWalk) eval(v ssa.Value, env map[ssa.Value]constant.Value, d int) constant.Value {
	if d > 20 {
		return nil
	}
	if c, ok := env[v]; ok {
		return c
	}
	if w.charAt != nil {
		if k, ok := charOf(v); ok && w.charAt(k) {
			return constant.MakeInt64(int64(w.ch))
		}
		if c := w.order(v); c != nil {
			return c
		}
	}
	if w.isChar {
		if k, ok := charOf(v); ok && k == w.char {
			if ex, isEx := v.(*ssa.Extract); !isEx || ex.Index == 2 {
				return constant.MakeInt64(int64(w.ch))
			}
		}
	}
	ev := func(y ssa.Value) constant.Value { return w.eval(y, env, d+1) }
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value
	case *ssa.Parameter:
		if a, up := w.fr.arg(v); a != nil {
			for i := 0; i < 12; i++ {
				p, ok := a.(*ssa.Parameter)
				if !ok {
					break
				}
				if a, up = up.arg(p); a == nil {
					return nil
				}
			}
			if k, ok := a.(*ssa.Const); ok {
				return k.Value
			}
		}
	case *ssa.Convert:
		c := ev(v.X)
		if c != nil && c.Kind() == constant.Int && isStringType(v.Type()) {
			if n, ok := constant.Int64Val(c); ok {
				return constant.MakeString(string(rune(n)))
			}
		}
		return c
	case *ssa.ChangeType:
		return ev(v.X)
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok && v.Op == token.MUL && isBool(v.Type()) {
			return w.x.member(ia.X, ev(ia.Index))
		}
		if v.Op == token.NOT {
			if c := ev(v.X); c != nil && c.Kind() == constant.Bool {
				return constant.MakeBool(!constant.BoolVal(c))
			}
		}
	case *ssa.BinOp:
		a, b := ev(v.X), ev(v.Y)
		switch v.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a == nil || b == nil {
				return nil
			}
			if a == atLeastZero || b == atLeastZero {
				op, k := v.Op, b
				if b == atLeastZero {
					k = a
					op = map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
				}
				n, ok := constant.Int64Val(k)
				if k.Kind() != constant.Int || !ok {
					return nil
				}
				switch {
				case op == token.EQL && n < 0, op == token.LSS && n <= 0, op == token.LEQ && n < 0:
					return constant.MakeBool(false)
				case op == token.NEQ && n < 0, op == token.GEQ && n <= 0, op == token.GTR && n < 0:
					return constant.MakeBool(true)
				}
				return nil
			}
			if a.Kind() != b.Kind() {
				return nil
			}
			return constant.MakeBool(constant.Compare(a, v.Op, b))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			return arith(v, a, b)
		}
	case *ssa.Lookup:
		if mt, ok := v.X.Type().Underlying().(*types.Map); ok && !v.CommaOk && isBool(mt.Elem()) {
			return w.x.member(v.X, ev(v.Index))
		}
	case *ssa.Extract:
		if l, ok := v.Tuple.(*ssa.Lookup); ok && l.CommaOk {
			c := w.x.member(l.X, ev(l.Index))
			if v.Index == 1 && c != nil {
				return w.x.present(l.X, ev(l.Index))
			}
			return c
		}
	case *ssa.Call:
		fn := v.Call.StaticCallee()
		if fn == nil {
			return nil
		}
		args := v.Call.Args
		name := extName(fn)
		cs := make([]constant.Value, len(args))
		for i, a := range args {
			cs[i] = ev(a)
		}
		str := func(i int) (string, bool) {
			if i < len(cs) && cs[i] != nil && cs[i] != atLeastZero {
				switch cs[i].Kind() {
				case constant.String:
					return constant.StringVal(cs[i]), true
				case constant.Int:
					n, _ := constant.Int64Val(cs[i])
					return string(rune(n)), true
				}
			}
			return "", false
		}
		if len(args) == 2 && strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "bytes.") && len(args) == 2 {
			set, ok := str(1)
			if !ok {
				return nil
			}
			short := name[strings.IndexByte(name, '.')+1:]
			if w.text != nil && strip(args[0]) == w.text {
				has := strings.IndexByte(set, w.ch) >= 0
				switch short {
				case "IndexByte", "IndexRune", "Index", "LastIndex", "LastIndexByte":
					if set == string(rune(w.ch)) {
						return atLeastZero
					}
				case "Contains", "ContainsRune":
					if set == string(rune(w.ch)) {
						return constant.MakeBool(true)
					}
				case "IndexAny", "LastIndexAny":
					if has {
						return atLeastZero
					}
				case "ContainsAny":
					if has {
						return constant.MakeBool(true)
					}
				}
				return nil
			}
			if s, ok := str(0); ok {
				switch short {
				case "IndexByte", "IndexRune", "Index":
					return constant.MakeInt64(int64(strings.Index(s, set)))
				case "Contains", "ContainsRune":
					return constant.MakeBool(strings.Contains(s, set))
				case "ContainsAny":
					return constant.MakeBool(strings.ContainsAny(s, set))
				}
			}
			return nil
		}
		if fn.Blocks != nil && w.x.c.P.inRepoPkg(fn.Pkg) && len(fn.Params) == len(args) {
			return w.call(fn, args, cs, d)
		}
	}
	return nil
}

// call evaluates a helper of the repository: all paths the assumption allows
// must agree on the result.
func (w *escWalk) call(fn *ssa.Function, args []ssa.Value, cs []constant.Value, d int) constant.Value {
	sub := &escWalk{x: w.x, fn: fn}
	env := map[ssa.Value]constant.Value{}
	for i, p := range fn.Params {
		if cs[i] != nil {
			env[p] = cs[i]
		}
		if w.text != nil && strip(args[i]) == w.text {
			sub.text, sub.ch = p, w.ch
		}
	}
	var res constant.Value
	bad := false
	steps := 0
	seen := map[string]bool{}
	var walk func(b, prev *ssa.BasicBlock, env map[ssa.Value]constant.Value)
	walk = func(b, prev *ssa.BasicBlock, env map[ssa.Value]constant.Value) {
		if steps++; steps > 500 || bad {
			bad = true
			return
		}
		pi := -1
		if prev != nil {
			pi = prev.Index
		}
		k := fmt.Sprint(b.Index, "/", pi)
		if seen[k] {
			return
		}
		seen[k] = true
		e := map[ssa.Value]constant.Value{}
		for k, v := range env {
			e[k] = v
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(e, phi)
			for i, p := range b.Preds {
				if p == prev {
					if c := sub.eval(phi.Edges[i], env, d+1); c != nil {
						e[phi] = c
					}
				}
			}
		}
		switch last := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			if len(last.Results) != 1 {
				bad = true
				return
			}
			c := sub.eval(last.Results[0], e, d+1)
			if c == nil || res != nil && (res == atLeastZero || c == atLeastZero || res.Kind() != c.Kind() || !constant.Compare(res, token.EQL, c)) {
				bad = true
				return
			}
			res = c
		case *ssa.If:
			c := sub.eval(last.Cond, e, d+1)
			for i, s := range b.Succs {
				if c != nil && c.Kind() == constant.Bool && constant.BoolVal(c) != (i == 0) {
					continue
				}
				walk(s, b, e)
			}
		default:
			for _, s := range b.Succs {
				walk(s, b, e)
			}
		}
	}
	walk(fn.Blocks[0], nil, env)
	if bad {
		return nil
	}
	return res
}

// arith computes with constants of at most 64 bits, as the type of the result
// has it.
func arith(v *ssa.BinOp, a, b constant.Value) constant.Value {
	bt, ok := v.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 || a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
		return nil
	}
	m, ok1 := constant.Int64Val(a)
	n, ok2 := constant.Int64Val(b)
	if !ok1 || !ok2 {
		return nil
	}
	var r int64
	switch v.Op {
	case token.ADD:
		r = m + n
	case token.SUB:
		r = m - n
	case token.MUL:
		r = m * n
	case token.AND:
		r = m & n
	case token.OR:
		r = m | n
	case token.XOR:
		r = m ^ n
	case token.AND_NOT:
		r = m &^ n
	case token.SHL, token.SHR:
		if n < 0 || n > 62 {
			return nil
		}
		if v.Op == token.SHL {
			r = m << uint(n)
		} else {
			r = m >> uint(n)
		}
	}
	switch bt.Kind() {
	case types.Uint8:
		r = int64(uint8(r))
	case types.Int8:
		r = int64(int8(r))
	case types.Uint16:
		r = int64(uint16(r))
	case types.Int16:
		r = int64(int16(r))
	case types.Uint32:
		r = int64(uint32(r))
	case types.Int32:
		r = int64(int32(r))
	case types.Uint, types.Uint64, types.Uintptr:
		if r < 0 {
			return nil
		}
	}
	return constant.MakeInt64(r)
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// table lists the constant elements of a package's table of characters that
// only its initialisation fills; nil if they are not all known.
func (x *escCtx) table(v ssa.Value) map[int64]bool {
	var g *ssa.Global
	switch y := v.(type) {
	case *ssa.Global:
		g = y
	case *ssa.UnOp:
		g, _ = y.X.(*ssa.Global)
	}
	if g == nil {
		return nil
	}
	elems := map[int64]bool{}
	known := true
	put := func(k, e ssa.Value) {
		kc, ok1 := strip(k).(*ssa.Const)
		ec, ok2 := e.(*ssa.Const)
		if !ok1 || !ok2 || kc.Value == nil || kc.Value.Kind() != constant.Int || ec.Value == nil || ec.Value.Kind() != constant.Bool {
			known = false
			return
		}
		elems[kc.Int64()] = constant.BoolVal(ec.Value)
	}
	fill := func(holder ssa.Value) {
		if holder.Referrers() == nil {
			known = false
			return
		}
		for _, r := range *holder.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				put(r.Key, r.Value)
			case *ssa.IndexAddr:
				for _, u := range *r.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == r {
						put(r.Index, st.Val)
					} else {
						known = false
					}
				}
			case *ssa.Slice, *ssa.Store, *ssa.DebugRef, *ssa.UnOp:
			default:
				known = false
			}
		}
	}
	for _, fn := range x.c.P.Funcs {
		if fn.Pkg != g.Pkg {
			if g.Object() != nil && g.Object().Exported() {
				return nil
			}
			continue
		}
		x.tableIn(fn, g, put, fill, &known)
	}
	if f := g.Pkg.Func("init"); f != nil && f.Synthetic != "" {
		x.tableIn(f, g, put, fill, &known)
	}
	if !known {
		return nil
	}
	return elems
}

func (x *escCtx) tableIn(fn *ssa.Function, g *ssa.Global, put func(k, e ssa.Value), fill func(ssa.Value), known *bool) {
	isInit := fn == g.Pkg.Func("init")
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g) {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Index, *ssa.DebugRef:
						case *ssa.IndexAddr:
							*known = *known && onlyRead(r)
						default:
							*known = false
						}
					}
				case *ssa.IndexAddr:
					if !onlyRead(in) {
						if !isInit {
							*known = false
							continue
						}
						for _, u := range *in.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == in {
								put(in.Index, st.Val)
							}
						}
					}
				case *ssa.Store:
					if !isInit || in.Addr != g {
						*known = false
						continue
					}
					switch val := in.Val.(type) {
					case *ssa.MakeMap:
						fill(val)
					case *ssa.Slice:
						if al, ok := val.X.(*ssa.Alloc); ok && val.Low == nil && val.High == nil {
							fill(al)
						} else {
							*known = false
						}
					case *ssa.UnOp:
						if al, ok := val.X.(*ssa.Alloc); ok {
							fill(al)
						} else {
							*known = false
						}
					default:
						*known = false
					}
				default:
					*known = false
				}
			}
		}
	}
}

func onlyRead(ia *ssa.IndexAddr) bool {
	for _, u := range *ia.Referrers() {
		if un, ok := u.(*ssa.UnOp); !ok || un.Op != token.MUL {
			return false
		}
	}
	return true
}

func (x *escCtx) member(v ssa.Value, k constant.Value) constant.Value {
	if k == nil || k.Kind() != constant.Int {
		return nil
	}
	if u, ok := v.(*ssa.UnOp); ok {
		if _, ok := u.X.(*ssa.Global); !ok {
			return nil
		}
	} else if _, ok := v.(*ssa.Global); !ok {
		return nil
	}
	t := x.table(v)
	if t == nil {
		return nil
	}
	n, _ := constant.Int64Val(k)
	return constant.MakeBool(t[n])
}

func (x *escCtx) present(v ssa.Value, k constant.Value) constant.Value {
	t := x.table(v)
	if t == nil || k == nil {
		return nil
	}
	n, _ := constant.Int64Val(k)
	_, ok := t[n]
	return constant.MakeBool(ok)
}

// freeOf: a part of a text has none of the characters, whereever in the text
// they are. For an arbitrary place of the character each index is before, at or
// after it; no path leads to cutting out a part that the place is in.
func (x *escCtx) freeOf(sl *ssa.Slice, fr *escFrame) bool {
	if x.bad == "" || sl.Parent() == nil {
		return false
	}
	text := strip(sl.X)
	bad := x.bad
	if x.measure {
		bad = strings.ReplaceAll(bad, "=", "")
	}
	for i := 0; i < len(bad); i++ {
		if x.partHit(sl.Parent(), sl, text, bad[i], fr) {
			return false
		}
	}
	return true
}

const (
	relBefore = 1 << iota
	relAt
	relAfter
	relAny = relBefore | relAt | relAfter
)

// partHit: a path leads to cutting out a part with the place in it; or, without
// a part to look at, a path ends with the character at the place not written.
func (x *escCtx) partHit(fn *ssa.Function, sl *ssa.Slice, text ssa.Value, ch byte, fr *escFrame) bool {
	w := &escWalk{x: x, fn: fn, fr: fr, ch: ch, text: text}
	var env map[ssa.Value]int
	var rel func(v ssa.Value, d int) int
	rel = func(v ssa.Value, d int) int {
		if d > 10 {
			return relAny
		}
		if r, ok := env[v]; ok {
			return r
		}
		switch y := v.(type) {
		case *ssa.Const:
			if y.Value == nil || y.Value.Kind() != constant.Int {
				return relAny
			}
			switch n := y.Int64(); {
			case n < 0:
				return relBefore
			case n == 0:
				return relBefore | relAt
			}
		case *ssa.BinOp:
			k, ok := y.Y.(*ssa.Const)
			o := y.X
			if !ok && y.Op == token.ADD {
				k, ok = y.X.(*ssa.Const)
				o = y.Y
			}
			if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
				return relAny
			}
			n := k.Int64()
			if y.Op == token.SUB {
				n = -n
			} else if y.Op != token.ADD {
				return relAny
			}
			r, out := rel(o, d+1), 0
			if r&relAt != 0 {
				switch {
				case n > 0:
					out |= relAfter
				case n == 0:
					out |= relAt
				default:
					out |= relBefore
				}
			}
			if r&relBefore != 0 {
				out |= relBefore
				if n > 0 {
					out |= relAt
				}
				if n > 1 {
					out |= relAfter
				}
			}
			if r&relAfter != 0 {
				out |= relAfter
				if n < 0 {
					out |= relAt
				}
				if n < -1 {
					out |= relBefore
				}
			}
			return out
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && strip(y.Call.Args[0]) == text {
				return relAfter
			}
			if f := y.Call.StaticCallee(); f != nil && len(y.Call.Args) == 2 && strip(y.Call.Args[0]) == text {
				switch extName(f) {
				case "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny", "bytes.IndexByte", "bytes.IndexAny", "bytes.Index", "bytes.IndexRune":
					set := ""
					if s, ok := constString(y.Call.Args[1]); ok {
						set = s
					} else if k, ok := strip(y.Call.Args[1]).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						set = string(rune(k.Int64()))
					} else if p, ok := y.Call.Args[1].(*ssa.Parameter); ok {
						if c := w.eval(p, nil, 0); c != nil && c.Kind() == constant.String {
							set = constant.StringVal(c)
						}
					}
					any := strings.HasSuffix(extName(f), "Any")
					if any && strings.IndexByte(set, ch) >= 0 || set == string(rune(ch)) {
						// the first such is no later than this one
						return relBefore | relAt
					}
				}
			}
		}
		return relAny
	}
	w.charAt = func(k charKey) bool {
		return k.b != nil && strip(k.a) == text && rel(k.b, 0) == relAt
	}
	w.order = func(v ssa.Value) constant.Value {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil
		}
		if t, ok := b.X.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Int {
			return nil
		}
		switch b.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return nil
		}
		one := func(r int) int {
			switch r {
			case relBefore:
				return -1
			case relAt:
				return 0
			case relAfter:
				return 1
			}
			return 2
		}
		m, n := one(rel(b.X, 0)), one(rel(b.Y, 0))
		if m == 2 || n == 2 || m == n && m != 0 {
			return nil
		}
		return constant.MakeBool(constant.Compare(constant.MakeInt64(int64(m)), b.Op, constant.MakeInt64(int64(n))))
	}
	seen := map[string]bool{}
	steps := 0
	hit := false
	// lesser values than the first that is known to be greater are not told
	// apart: a path that only they would decide is followed either way
	writes := func(v ssa.Value) bool {
		one := func(v ssa.Value) bool {
			if k, ok := charOf(strip(v)); ok && w.charAt(k) {
				return true
			}
			k, ok := strip(v).(*ssa.Const)
			return ok && k.Value != nil && k.Value.Kind() == constant.Int && k.Int64() == int64(ch)
		}
		if s, ok := constString(v); ok {
			return strings.IndexByte(s, ch) >= 0
		}
		if strip(v) == text || one(v) {
			return true
		}
		p, ok := strip(v).(*ssa.Slice)
		if !ok {
			return false
		}
		if al, ok := p.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok && one(st.Val) {
							return true
						}
					}
				}
			}
			return false
		}
		return strip(p.X) == text && (p.Low == nil || rel(p.Low, 0)&relAfter == 0) && (p.High == nil || rel(p.High, 0) == relAfter)
	}
	var walk func(b, prev *ssa.BasicBlock, cur map[ssa.Value]int, wrote bool)
	walk = func(b, prev *ssa.BasicBlock, cur map[ssa.Value]int, wrote bool) {
		if steps++; steps > 20000 {
			hit = true
		}
		if hit {
			return
		}
		env = cur
		type choice struct {
			phi *ssa.Phi
			rel int
		}
		var cs []choice
		def, isIn := text.(ssa.Instruction)
		fresh := isIn && def.Block() == b // another text
		if fresh {
			cur = map[ssa.Value]int{}
		}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if t, ok := phi.Type().Underlying().(*types.Basic); !ok || t.Kind() != types.Int {
				continue
			}
			for i, p := range b.Preds {
				if p == prev {
					r := relAny
					if !fresh {
						r = rel(phi.Edges[i], 0)
					}
					cs = append(cs, choice{phi, r})
					break
				}
			}
		}
		var each func(i int, e map[ssa.Value]int)
		each = func(i int, e map[ssa.Value]int) {
			if i < len(cs) {
				for _, r := range []int{relBefore, relAt, relAfter} {
					if cs[i].rel&r != 0 {
						n := map[ssa.Value]int{}
						for k, v := range e {
							n[k] = v
						}
						n[cs[i].phi] = r
						each(i+1, n)
					}
				}
				return
			}
			key := fmt.Sprint(b.Index, wrote, ":")
			for _, bb := range fn.Blocks {
				for _, in := range bb.Instrs {
					if phi, ok := in.(*ssa.Phi); ok {
						if r, ok := e[phi]; ok {
							key += phi.Name() + fmt.Sprint(r) + ","
						}
					}
				}
			}
			if seen[key] {
				return
			}
			seen[key] = true
			env = e
			wrote := wrote
			for _, in := range b.Instrs {
				if sl == nil {
					if ci, ok := in.(ssa.CallInstruction); ok {
						vs, _ := x.payload(ci)
						for _, v := range vs {
							wrote = wrote || writes(v)
						}
					}
					if _, ok := in.(*ssa.Return); ok && !wrote {
						hit = true
						return
					}
					continue
				}
				if in != ssa.Instruction(sl) {
					continue
				}
				lo, hi := relBefore|relAt, relAfter
				if sl.Low != nil {
					lo = rel(sl.Low, 0)
				}
				if sl.High != nil {
					hi = rel(sl.High, 0)
				}
				if lo&(relBefore|relAt) != 0 && hi&relAfter != 0 {
					hit = true
					return
				}
			}
			taken := [2]bool{true, true}
			if last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if c := w.eval(last.Cond, map[ssa.Value]constant.Value{}, 0); c != nil && c.Kind() == constant.Bool {
					taken[0], taken[1] = constant.BoolVal(c), !constant.BoolVal(c)
				}
			}
			for i, s := range b.Succs {
				if i > 1 || taken[i] {
					walk(s, b, e, wrote)
				}
			}
		}
		each(0, cur)
	}
	walk(fn.Blocks[0], nil, map[ssa.Value]int{}, false)
	return hit
}

// ---- the check ----

func init() {
	register(&checkDef{id: "C24", spec: true, rule: "backward flow analysis of everything the dot outputs write and of everything a series key is composed of: each piece of text is constant, a number, or guarded - assuming a byte is (or a text contains) a character that must not come through, no path of the guards leads to where it is written, except after an escaping backslash; and contract drivers for the SVG output and HTML pages: what reaches a text template is escaped for the place of its field in the template, HTML templates are given no text marked as safe", run: runC24})
}

func runC24(c *Ctx) {
	c.seriesEscapes("series")
	c.Floor("series", 10)
	c.dotEscapes("dot")
	c.Floor("dot", 30)
	c.templateEscapes("template")
	c.Floor("template", 8)
	c.trustedText("trusted")
}

func (c *Ctx) escaper(rule, bad string, prefix bool) *escCtx {
	return &escCtx{c: c, rule: rule, bad: bad, prefix: prefix, done: map[textKey]string{}, busy: map[textKey]bool{}}
}

func (c *Ctx) seriesEscapes(rule string) {
	for _, m := range [][2]string{{"SeriesKey", "String"}, {"SeriesKey", "WithField"}, {"TagSet", "String"}} {
		fn := c.Method("", m[0], m[1])
		if fn == nil {
			continue
		}
		c.funcs[fnName(fn)] = true
		x := c.escaper(rule, ",= ", true)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					if w := x.unsafe(r.Results[0], nil, nil); w != "" {
						c.Fail(fn.Pos(), rule, "%s does not escape every separator: %s", fnName(fn), w)
					}
				}
			}
		}
		c.Count(rule, x.points)
	}
}

func (c *Ctx) dotEscapes(rule string) {
	n := 0
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || extPkg(fn) != modPath+"/present" || fn.Object() == nil || !fn.Object().Exported() || !strings.HasSuffix(fn.Name(), "Dot") {
			continue
		}
		n++
		x := c.escaper(rule, "\"\\", false)
		x.sinks(fn, nil, map[*ssa.Function]bool{})
		c.Count(rule, x.points)
	}
	if n < 2 {
		c.FailAt("-", rule, "", "only %d dot outputs were found", n)
	}
}

// sinks checks everything a function and those it calls write.
func (x *escCtx) sinks(fn *ssa.Function, fr *escFrame, active map[*ssa.Function]bool) {
	if active[fn] || fr != nil && fr.n > 8 {
		return
	}
	active[fn] = true
	defer delete(active, fn)
	x.c.funcs[fnName(fn)] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				x.sinks(mc.Fn.(*ssa.Function), fr, active)
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range ci.Common().Args {
				if f, ok := a.(*ssa.Function); ok && extPkg(f) == modPath+"/present" {
					x.sinks(f, fr, active)
				}
			}
			if _, isB := ci.Common().Value.(*ssa.Builtin); !isB {
				if vs, ok := x.payload(ci); ok {
					for _, v := range vs {
						if s, ok := constString(v); ok && (strings.Contains(s, "%c") || strings.Contains(s, "%q")) {
							x.c.Fail(in.Pos(), x.rule, "%s writes formatted characters", fnName(fn))
						}
					}
					if w := x.texts(ci, vs, fr); w != "" {
						x.c.Fail(in.Pos(), x.rule, "%s can write text that ends a label: %s", fnName(fn), w)
					}
					continue
				}
			}
			g := ci.Common().StaticCallee()
			if g != nil && g.Blocks != nil && extPkg(g) == modPath+"/present" {
				if _, isClosure := ci.Common().Value.(*ssa.MakeClosure); isClosure {
					continue
				}
				if returnsText(g) {
					continue // judged by what becomes of its result
				}
				x.sinks(g, x.bind(fr, g, ci.Common().Args), active)
			}
		}
	}
}

// returnsText: a function that makes text and has no writer.
func returnsText(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if mayWrite(ps.At(i).Type(), 0) {
			return false
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isStringType(rs.At(i).Type()) {
			return true
		}
		if s, ok := rs.At(i).Type().Underlying().(*types.Slice); ok && harmlessType(s.Elem()) {
			return true
		}
	}
	return false
}

// ---- templates ----

// templateText finds the constant text of a template variable.
func (p *Program) templateText(t *Term) string {
	for t.Op == "load" {
		t = t.Args[0]
	}
	out := ""
	anyTerm(t, func(k *Term) bool {
		if k.Op == "pure" && strings.Contains(k.Aux, ").Parse.0") && len(k.Args) > 0 {
			out, _ = k.Args[len(k.Args)-1].strVal()
		}
		return false
	})
	g, _ := t.Obj.(*ssa.Global)
	if t.Op != "global" || g == nil {
		return out
	}
	var find func(v ssa.Value, d int)
	find = func(v ssa.Value, d int) {
		c, ok := v.(*ssa.Call)
		if e, isE := v.(*ssa.Extract); isE {
			find(e.Tuple, d+1)
			return
		}
		if !ok || d > 6 {
			return
		}
		if f := c.Call.StaticCallee(); f != nil && f.Name() == "Parse" {
			if s, ok := constString(c.Call.Args[len(c.Call.Args)-1]); ok {
				out += s
			}
		}
		for _, a := range c.Call.Args {
			find(a, d+1)
		}
	}
	for _, fn := range p.initsOf(g) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					find(st.Val, 0)
				}
			}
		}
	}
	return out
}

// places lists where the fields of a template are put: "text", "attr" or "js"
// (a string of an event attribute).
func places(tmpl string) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	inTag, quote, attr := false, byte(0), ""
	for i := 0; i < len(tmpl); i++ {
		if strings.HasPrefix(tmpl[i:], "{{") {
			j := strings.Index(tmpl[i:], "}}")
			if j < 0 {
				break
			}
			name := strings.TrimPrefix(strings.TrimSpace(tmpl[i+2:i+j]), ".")
			k := "text"
			if quote != 0 {
				k = "attr"
				if strings.HasPrefix(attr, "on") {
					k = "js"
				}
			}
			if m[name] == nil {
				m[name] = map[string]bool{}
			}
			m[name][k] = true
			i += j + 1
			continue
		}
		switch ch := tmpl[i]; {
		case quote != 0:
			if ch == quote {
				quote = 0
			}
		case inTag && (ch == '"' || ch == '\''):
			quote = ch
			h := strings.TrimRight(tmpl[:i], "= ")
			attr = strings.ToLower(h[strings.LastIndexAny(h, " \t\n<")+1:])
		case ch == '<':
			inTag = true
		case ch == '>':
			inTag = false
		}
	}
	return m
}

func (c *Ctx) templateEscapes(rule string) {
	c.executed = map[token.Pos]bool{}
	o := c.specOpts()
	o.Out = true
	model := distinctIds(o.Model)
	o.Model = func(e *Engine, s *State, instr ssa.Instruction, fn *ssa.Function, args []*Term, cont contKind) bool {
		if extName(fn) == "(*text/template.Template).Execute" || extName(fn) == "(*text/template.Template).ExecuteTemplate" {
			c.templateData(rule, e, s, instr, args)
		}
		return model(e, s, instr, fn, args, cont)
	}
	o.Summ = noWriter
	c.SpecAll(rule, o)
	for _, fn := range c.P.Funcs {
		if extPkg(fn) != modPath+"/present" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && strings.HasPrefix(extName(g), "(*text/template.Template).Execute") && !c.executed[in.Pos()] {
					c.Fail(in.Pos(), rule, "%s fills in a template that escapes nothing, and what it is given was not examined", fnName(fn))
				}
			}
		}
	}
}

func (c *Ctx) templateData(rule string, e *Engine, s *State, instr ssa.Instruction, args []*Term) {
	c.executed[instr.Pos()] = true
	tmpl := c.P.templateText(args[0])
	if tmpl == "" {
		c.Fail(instr.Pos(), rule, "the text of the template %v is not known", args[0])
		return
	}
	at := places(tmpl)
	data := unIface(args[len(args)-1])
	check := func(name string, v *Term) {
		where := at[name]
		v = unIface(v)
		if len(where) == 0 || v.Typ == nil || !isStringType(v.Typ) {
			return
		}
		c.Count(rule, 1)
		if bad := rawText(v, where["js"]); bad != nil {
			k := "text"
			for _, w := range []string{"attr", "js"} {
				if where[w] {
					k = map[string]string{"attr": "an attribute", "js": "a script string"}[w]
				}
			}
			c.FailPath(instr.Pos(), rule, s, "the field %s of a template is put into %s but carries %v as it is", name, k, bad)
		}
	}
	if p, ok := data.Typ.Underlying().(*types.Pointer); ok {
		data = s.read(data, p.Elem())
	}
	switch u := data.Typ.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			switch {
			case data.Op == "struct" && i < len(data.Args):
				check(u.Field(i).Name(), data.Args[i])
			case isStringType(u.Field(i).Type()) && len(at[u.Field(i).Name()]) > 0:
				c.Fail(instr.Pos(), rule, "what the field %s of a template carries is not known", u.Field(i).Name())
			}
		}
	case *types.Basic:
		check("", data)
	}
}

// rawText finds a part of a text that is not escaped.
func rawText(v *Term, js bool) *Term {
	switch v.Op {
	case "const", "nil":
		return nil
	case "cat", "ite", "conv":
		for _, a := range v.Args {
			if b := rawText(a, js); b != nil {
				return b
			}
		}
		return nil
	case "pure", "ext":
		switch n := v.Aux; {
		case strings.HasSuffix(n, "template.JSEscapeString") || strings.HasSuffix(n, "template.JSEscaper"):
			return nil
		case !js && (n == "encoding/xml.EscapeText" || n == "html.EscapeString" || strings.HasSuffix(n, "template.HTMLEscapeString")):
			return nil
		case js && (n == "encoding/xml.EscapeText" || n == "html.EscapeString" || strings.HasSuffix(n, "template.HTMLEscapeString")):
			return rawText(v.Args[0], js)
		case n == "(time.Duration).String" || strings.HasPrefix(n, "strconv.") && n != "strconv.Quote":
			return nil
		}
	}
	if v.Typ != nil && harmlessType(v.Typ) {
		return nil
	}
	return v
}

// trustedText: HTML templates escape what they are given, unless it is of a
// type that says it is safe.
func (c *Ctx) trustedText(rule string) {
	for _, fn := range c.P.Funcs {
		if isSpecFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cv, ok := in.(ssa.Value)
				if !ok {
					continue
				}
				n, ok := cv.Type().(*types.Named)
				if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "html/template" || !isStringType(n.Underlying()) {
					continue
				}
				var from ssa.Value
				switch y := in.(type) {
				case *ssa.ChangeType:
					from = y.X
				case *ssa.Convert:
					from = y.X
				}
				if from != nil {
					c.Count(rule, 1)
					if _, k := strip(from).(*ssa.Const); !k {
						c.Fail(in.Pos(), rule, "%s marks text as safe for HTML without escaping it", fnName(fn))
					}
				}
			}
		}
	}
}
