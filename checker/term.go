package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value number: two program values with the same
// Term are equal in every execution the abstract state stands for.
type Term struct {
	ID   int
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	C    constant.Value // Op "const"
	Obj  any            // *ssa.Function, types.Type, *ssa.Global, ...
	Lin  *linForm       // Op "lin"
	F    int            // creation stamp of a term equal to nothing else
}

type tokenPos = token.Pos

type linForm struct {
	c int64
	t []linTerm // sorted by atom id, no zero coefficient
}
type linTerm struct {
	k int64
	a *Term
}

type termTable struct {
	m    map[string]*Term
	next int
}

var tt = &termTable{m: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func mk(op, aux string, typ types.Type, obj any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte('|')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.ID))
		}
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		return t
	}
	tt.next++
	t := &Term{ID: tt.next, Op: op, Aux: aux, Args: args, Typ: typ, Obj: obj}
	tt.m[k] = t
	return t
}

var freshCounter int

// fresh makes a term equal to nothing else.
func fresh(op, aux string, typ types.Type, obj any, args ...*Term) *Term {
	freshCounter++
	t := mk(op, aux+"#"+strconv.Itoa(freshCounter), typ, obj, args...)
	t.F = freshCounter
	return t
}

// ---- constants ----

func mkConstVal(v constant.Value, typ types.Type) *Term {
	key := ""
	if b, ok := typ.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			v = constant.ToInt(v)
			key = "i:" + v.ExactString()
		case b.Info()&types.IsFloat != 0:
			v = constant.ToFloat(v)
			if b.Kind() == types.Float32 {
				f, _ := constant.Float32Val(v)
				v = constant.MakeFloat64(float64(f))
			} else {
				f, _ := constant.Float64Val(v)
				v = constant.MakeFloat64(f)
			}
			key = "f:" + v.ExactString()
		case b.Info()&types.IsString != 0:
			key = "s:" + constant.StringVal(v)
		case b.Info()&types.IsBoolean != 0:
			key = "b:" + v.ExactString()
		default:
			key = "x:" + v.ExactString()
		}
	} else {
		key = "x:" + v.ExactString()
	}
	t := mk("const", key, typ, nil)
	if t.C == nil {
		t.C = v
	}
	return t
}

func (t *Term) typ() types.Type {
	if t.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.Typ
}

func mkInt(n int64) *Term  { return mkConstVal(constant.MakeInt64(n), types.Typ[types.Int]) }
func mkStr(s string) *Term { return mkConstVal(constant.MakeString(s), types.Typ[types.String]) }
func mkBool(b bool) *Term  { return mkConstVal(constant.MakeBool(b), types.Typ[types.Bool]) }
func mkNil() *Term         { return mk("nil", "", types.Typ[types.UntypedNil], nil) }

func (t *Term) isNil() bool  { return t.Op == "nil" }
func (t *Term) isTrue() bool { return t.Op == "const" && t.Aux == "b:true" }
func (t *Term) isFalse() bool {
	return t.Op == "const" && t.Aux == "b:false"
}

// intVal returns the integer constant of a term.
func (t *Term) intVal() (int64, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "i:") {
		if n, ok := constant.Int64Val(t.C); ok {
			return n, true
		}
	}
	return 0, false
}

func (t *Term) boolVal() (val, ok bool) { return t.isTrue(), t.isTrue() || t.isFalse() }

func (t *Term) strVal() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "s:") {
		return t.Aux[2:], true
	}
	return "", false
}

func (t *Term) floatVal() (float64, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, "f:") {
		f, _ := constant.Float64Val(t.C)
		return f, true
	}
	return 0, false
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsInteger != 0:
			return mkConstVal(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return mkConstVal(constant.MakeFloat64(0), t)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsComplex != 0:
			return mk("zero", typeKey(t), t, t)
		}
		return mkNil()
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil()
	case *types.Struct:
		if explodes(t) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = zeroOf(u.Field(i).Type())
			}
			return mkStruct(t, args)
		}
	case *types.Array:
		if explodes(t) {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = zeroOf(u.Elem())
			}
			return mkStruct(t, args)
		}
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = zeroOf(u.At(i).Type())
		}
		return mk("tuple", "", t, nil, args...)
	}
	return mk("zero", typeKey(t), t, t)
}

// explodes says whether a composite value is represented by its parts.
func explodes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !isRepoPkg(n.Obj().Pkg()) {
			switch n.Obj().Pkg().Path() {
			case "runtime", "runtime/debug", "syscall": // plain data
				return true
			}
			return false
		}
		return true
	case *types.Array:
		return u.Len() <= 128
	}
	return false
}

func mkStruct(t types.Type, args []*Term) *Term {
	// a struct made of all the fields of one opaque struct value is that value
	if len(args) > 0 && args[0].Op == "fieldval" && args[0].Aux == "0" {
		base := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "fieldval" || a.Aux != strconv.Itoa(i) || a.Args[0] != base {
				same = false
				break
			}
		}
		if same && base.Typ != nil && types.Identical(base.Typ, t) {
			return base
		}
	}
	return mk("struct", typeKey(t), t, nil, args...)
}

// numParts returns the number of components of an exploding type.
func numParts(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.NumFields()
	case *types.Array:
		return int(u.Len())
	}
	return 0
}

func partType(t types.Type, i int) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.Field(i).Type()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func fieldVal(t *Term, i int, typ types.Type) *Term {
	if t.Op == "struct" && i < len(t.Args) {
		return t.Args[i]
	}
	if t.Op == "zero" {
		return zeroOf(typ)
	}
	return mk("fieldval", strconv.Itoa(i), typ, nil, t)
}

// ---- addresses ----

func mkFieldAddr(base *Term, i int, st types.Type) *Term {
	var ft types.Type
	if s, ok := st.Underlying().(*types.Struct); ok {
		ft = s.Field(i).Type()
	}
	return mk("fa", strconv.Itoa(i), types.NewPointer(ft), st, base)
}

func mkElemAddr(base, idx *Term, et types.Type) *Term {
	return mk("ea", "", types.NewPointer(et), et, base, idx)
}

// addrParent returns the enclosing address of a field or element address.
func addrParent(t *Term) *Term {
	if t.Op == "fa" || t.Op == "ea" {
		return t.Args[0]
	}
	return nil
}

// addrRoot strips field and element steps.
func addrRoot(t *Term) *Term {
	for t.Op == "fa" || t.Op == "ea" || t.Op == "mv" || t.Op == "mh" || t.Op == "slice" || t.Op == "content" {
		t = t.Args[0]
	}
	return t
}

func fieldName(fa *Term) string {
	st, _ := fa.Obj.(types.Type)
	if st == nil {
		return fa.Aux
	}
	i, _ := strconv.Atoi(fa.Aux)
	return st.Underlying().(*types.Struct).Field(i).Name()
}

// ---- linear integer arithmetic ----

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func toLin(t *Term) *linForm {
	if t.Lin != nil {
		return t.Lin
	}
	if n, ok := t.intVal(); ok {
		return &linForm{c: n}
	}
	return &linForm{t: []linTerm{{1, t}}}
}

func fromLin(l *linForm, typ types.Type) *Term {
	if len(l.t) == 0 {
		return mkConstVal(constant.MakeInt64(l.c), intTypeOr(typ))
	}
	if len(l.t) == 1 && l.t[0].k == 1 && l.c == 0 {
		return l.t[0].a
	}
	var b strings.Builder
	args := make([]*Term, len(l.t))
	for i, x := range l.t {
		fmt.Fprintf(&b, "%d,", x.k)
		args[i] = x.a
	}
	fmt.Fprintf(&b, "+%d", l.c)
	t := mk("lin", b.String(), typ, nil, args...)
	t.Lin = l
	return t
}

func intTypeOr(t types.Type) types.Type {
	if isIntType(t) {
		return t
	}
	return types.Typ[types.Int]
}

func linAdd(a, b *linForm, kb int64) *linForm {
	m := map[*Term]int64{}
	for _, x := range a.t {
		m[x.a] += x.k
	}
	for _, x := range b.t {
		m[x.a] += kb * x.k
	}
	r := &linForm{c: a.c + kb*b.c}
	for t, k := range m {
		if k != 0 {
			r.t = append(r.t, linTerm{k, t})
		}
	}
	sort.Slice(r.t, func(i, j int) bool { return r.t[i].a.ID < r.t[j].a.ID })
	return r
}

func mkAdd(a, b *Term, typ types.Type) *Term { return fromLin(linAdd(toLin(a), toLin(b), 1), typ) }
func mkSub(a, b *Term, typ types.Type) *Term { return fromLin(linAdd(toLin(a), toLin(b), -1), typ) }

func mkMul(a, b *Term, typ types.Type) *Term {
	if n, ok := a.intVal(); ok {
		return fromLin(linAdd(&linForm{}, toLin(b), n), typ)
	}
	if n, ok := b.intVal(); ok {
		return fromLin(linAdd(&linForm{}, toLin(a), n), typ)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("mul", "", typ, nil, a, b)
}

// ---- strings ----

func mkCat(parts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.Op == "cat" {
			for _, a := range t.Args {
				push(a)
			}
			return
		}
		if s, ok := t.strVal(); ok {
			if s == "" {
				return
			}
			if n := len(out); n > 0 {
				if p, ok := out[n-1].strVal(); ok {
					out[n-1] = mkStr(p + s)
					return
				}
			}
		}
		out = append(out, t)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", types.Typ[types.String], nil, out...)
}

// ---- boolean structure ----

func mkNot(t *Term) *Term {
	if t.isTrue() {
		return mkBool(false)
	}
	if t.isFalse() {
		return mkBool(true)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", "", types.Typ[types.Bool], nil, t)
}

// homogeneous splits a linear form into sign-normalised variable part and
// constant: l = s*(h) + c with the leading coefficient of h positive.
func homogeneous(l *linForm) (h *Term, s int64, c int64) {
	s = 1
	if len(l.t) > 0 && l.t[0].k < 0 {
		s = -1
	}
	r := &linForm{}
	for _, x := range l.t {
		r.t = append(r.t, linTerm{x.k * s, x.a})
	}
	return fromLin(r, types.Typ[types.Int]), s, l.c
}

// mkLeInt is a <= b over the integers, as an atom hle(h,k): h <= k, or its negation.
func mkLeInt(a, b *Term) *Term {
	d := linAdd(toLin(a), toLin(b), -1) // a-b <= 0
	if len(d.t) == 0 {
		return mkBool(d.c <= 0)
	}
	h, s, c := homogeneous(d)
	if s > 0 { // h + c <= 0
		return mk("hle", strconv.FormatInt(-c, 10), types.Typ[types.Bool], -c, h)
	}
	// -h + c <= 0  <=>  h >= c  <=> !(h <= c-1)
	return mkNot(mk("hle", strconv.FormatInt(c-1, 10), types.Typ[types.Bool], c-1, h))
}

// sameBits is what an integer was converted from without losing bits.
func sameBits(t *Term, n int64) *Term {
	for n >= 0 && t.Op == "conv" && len(t.Args) == 1 && t.Typ != nil && t.Args[0].Typ != nil && isIntType(t.Typ) && isIntType(t.Args[0].Typ) &&
		sizeOf(t.Typ.Underlying().(*types.Basic)) == sizeOf(t.Args[0].Typ.Underlying().(*types.Basic)) {
		t = t.Args[0]
	}
	return t
}

func mkEqInt(a, b *Term) *Term {
	if n, ok := b.intVal(); ok {
		a = sameBits(a, n)
	} else if n, ok := a.intVal(); ok {
		b = sameBits(b, n)
	}
	d := linAdd(toLin(a), toLin(b), -1)
	if len(d.t) == 0 {
		return mkBool(d.c == 0)
	}
	h, s, c := homogeneous(d)
	k := -c
	if s < 0 {
		k = c
	}
	if k == 0 && h.Op == "and" && (isOne(h.Args[0]) || isOne(h.Args[1])) {
		// a single bit is one or zero
		return mkNot(mk("heq", "1", types.Typ[types.Bool], int64(1), h))
	}
	return mk("heq", strconv.FormatInt(k, 10), types.Typ[types.Bool], k, h)
}

func isOne(t *Term) bool {
	n, ok := t.intVal()
	return ok && n == 1
}

func mkEq(a, b *Term, typ types.Type) *Term {
	if isIntType(typ) {
		return mkEqInt(a, b)
	}
	if a == b && !isFloatType(typ) {
		return mkBool(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return mkBool(a == b)
	}
	// values of different dynamic types
	if a.Op == "iface" && b.Op == "iface" {
		ta, ok1 := a.Obj.(types.Type)
		tb, ok2 := b.Obj.(types.Type)
		if ok1 && ok2 && !types.Identical(ta, tb) {
			return mkBool(false)
		}
	}
	// the standard library's contexts are nobody else's objects
	if a, b := unIface(a), unIface(b); a.Op == "withvalue" && (b.Op == "withvalue" || b.Op == "alloc" || b.Op == "new" || b.Aux == "context.Background") ||
		b.Op == "withvalue" && (a.Op == "alloc" || a.Op == "new" || a.Aux == "context.Background") {
		return mkBool(false)
	}
	if b0, ok := typ.Underlying().(*types.Basic); ok && b0.Info()&types.IsBoolean != 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return mkNot(b)
		}
		if b.isFalse() {
			return mkNot(a)
		}
	}
	// s == "" and len(s) == 0 are the same test
	if isStringType(typ) {
		if s, ok := a.strVal(); ok && s == "" {
			return mkEqInt(mkLen(b), mkInt(0))
		}
		if s, ok := b.strVal(); ok && s == "" {
			return mkEqInt(mkLen(a), mkInt(0))
		}
		if r := mkEqStr(a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], typ, a, b)
}

func mkLt(a, b *Term, typ types.Type) *Term {
	if isIntType(typ) {
		return mkNot(mkLeInt(b, a))
	}
	if a.Op == "const" && b.Op == "const" && a.C != nil && b.C != nil {
		if x, ok := a.floatVal(); ok {
			if y, ok := b.floatVal(); ok {
				return mkBool(x < y)
			}
		}
		if x, ok := a.strVal(); ok {
			if y, ok := b.strVal(); ok {
				return mkBool(x < y)
			}
		}
	}
	if isFloatType(typ) {
		return mk("flt", "", types.Typ[types.Bool], typ, a, b)
	}
	if a == b {
		return mkBool(false)
	}
	return mk("slt", "", types.Typ[types.Bool], typ, a, b)
}

func mkLe(a, b *Term, typ types.Type) *Term {
	if isIntType(typ) {
		return mkLeInt(a, b)
	}
	if isFloatType(typ) {
		if x, ok := a.floatVal(); ok {
			if y, ok := b.floatVal(); ok {
				return mkBool(x <= y)
			}
		}
		return mk("fle", "", types.Typ[types.Bool], typ, a, b)
	}
	return mkNot(mkLt(b, a, typ))
}

// ---- lengths ----

func mkLen(t *Term) *Term {
	switch t.Op {
	case "nil":
		return mkInt(0)
	case "const":
		if s, ok := t.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case "list":
		return mkInt(int64(len(t.Args)))
	case "append":
		return mkAdd(mkLen(t.Args[0]), mkInt(int64(len(t.Args)-1)), types.Typ[types.Int])
	case "appendall":
		return mkAdd(mkLen(t.Args[0]), mkLen(t.Args[1]), types.Typ[types.Int])
	case "slice":
		return mkSub(t.Args[2], t.Args[1], types.Typ[types.Int])
	case "substr":
		return mkSub(t.Args[2], t.Args[1], types.Typ[types.Int])
	case "mkslice":
		return t.Args[0]
	case "cat":
		r := mkInt(0)
		for _, a := range t.Args {
			r = mkAdd(r, mkLen(a), types.Typ[types.Int])
		}
		return r
	case "conv":
		// string <-> []byte keeps the length
		if t.Args[0].Typ != nil && isBytesOrString(t.Args[0].Typ) && isBytesOrString(t.Typ) {
			return mkLen(t.Args[0])
		}
	}
	return mk("len", "", types.Typ[types.Int], nil, t)
}

func isBytesOrString(t types.Type) bool {
	if isStringType(t) {
		return true
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 9 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	list := func(ts []*Term) string {
		var s []string
		for _, x := range ts {
			s = append(s, x.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if s, ok := t.strVal(); ok {
			if len(s) > 60 {
				s = s[:57] + "..."
			}
			return strconv.Quote(s)
		}
		return t.Aux[2:]
	case "nil":
		return "nil"
	case "param", "global":
		if i := strings.Index(t.Aux, ":"); i >= 0 {
			return t.Aux[:i]
		}
		return t.Aux
	case "lin":
		var b strings.Builder
		for i, x := range t.Lin.t {
			if i > 0 {
				b.WriteString(" + ")
			}
			if x.k != 1 {
				fmt.Fprintf(&b, "%d*", x.k)
			}
			b.WriteString(x.a.str(d + 1))
		}
		if t.Lin.c != 0 {
			fmt.Fprintf(&b, " + %d", t.Lin.c)
		}
		return "(" + b.String() + ")"
	case "fa":
		return "&" + strings.TrimPrefix(a(0), "&") + "." + fieldName(t)
	case "ea":
		return "&" + strings.TrimPrefix(a(0), "&") + "[" + a(1) + "]"
	case "mv":
		return a(0) + "{" + a(1) + "}"
	case "mh":
		return "has " + a(0) + "{" + a(1) + "}"
	case "load":
		s := strings.TrimPrefix(a(0), "&")
		if t.Args[0].Op != "fa" && t.Args[0].Op != "ea" && t.Args[0].Op != "global" {
			s = "*" + s
		}
		if t.Aux != "0" {
			s += "@" + t.Aux
		}
		return s
	case "hle":
		return fmt.Sprintf("%s <= %s", a(0), t.Aux)
	case "heq":
		return fmt.Sprintf("%s == %s", a(0), t.Aux)
	case "eq":
		return a(0) + " == " + a(1)
	case "flt", "slt":
		return a(0) + " < " + a(1)
	case "fle":
		return a(0) + " <= " + a(1)
	case "not":
		return "!(" + a(0) + ")"
	case "closure", "func":
		if f, ok := t.Obj.(*ssa.Function); ok {
			return "func<" + fnName(f) + ">"
		}
	case "iface":
		return a(0)
	case "conv":
		return shortType(t.Typ) + "(" + a(0) + ")"
	case "struct":
		return shortType(t.Typ) + "{" + list(t.Args) + "}"
	case "cat":
		return list(t.Args)
	case "alloc":
		return "new(" + t.Aux + ")"
	}
	s := t.Op
	if t.Aux != "" {
		s += ":" + t.Aux
	}
	if len(t.Args) > 0 {
		s += "(" + list(t.Args) + ")"
	}
	return s
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
