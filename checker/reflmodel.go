package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of package reflect for values whose type is known: the term "rv"
// stands for a reflect.Value of a static type, holding a value or the address
// of a variable; the term "rtype" for a reflect.Type.

type rv struct {
	T     types.Type
	x     *Term // value, or address
	addr  bool
	ro    string // "", "s" (unexported field), "e" (unexported embedded field)
	valid bool
}

func mkRV(typ types.Type, v rv) *Term {
	if !v.valid {
		return mk("rv", "invalid", typ, rv{})
	}
	aux := "v"
	if v.addr {
		aux = "a"
	}
	return mk("rv", aux+v.ro+":"+typeKey(v.T), typ, v, v.x)
}

func mkRType(typ, T types.Type) *Term { return mk("rtype", typeKey(T), typ, T) }

func reflKind(T types.Type) reflect.Kind {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// reflConv: a value of the type can surely be converted to the other.
func reflConv(from, to types.Type) bool {
	if types.IsInterface(from.Underlying()) && !types.IsInterface(to.Underlying()) {
		return false
	}
	return types.ConvertibleTo(from, to)
}

func kindTerm(k reflect.Kind, typ types.Type) *Term {
	return mkConstVal(constant.MakeInt64(int64(k)), typ)
}

// structField builds the reflect.StructField of a field.
func structField(e *Engine, typ types.Type, T types.Type, i int) *Term {
	st := T.Underlying().(*types.Struct)
	ft := st.Field(i)
	rt := typ.Underlying().(*types.Struct)
	var parts []*Term
	for j := 0; j < rt.NumFields(); j++ {
		f := rt.Field(j)
		var v *Term
		switch f.Name() {
		case "Name":
			v = mkStr(ft.Name())
		case "PkgPath":
			v = mkStr("")
			if !ft.Exported() {
				v = mkStr(ft.Pkg().Path())
			}
		case "Tag":
			v = mkConstVal(constant.MakeString(st.Tag(i)), f.Type())
		case "Type":
			v = mkRType(f.Type(), ft.Type())
		case "Anonymous":
			v = mkBool(ft.Embedded())
		default:
			v = mk("pure", "reflect.StructField."+f.Name()+"."+strconv.Itoa(i)+"."+typeKey(T), f.Type(), nil)
		}
		parts = append(parts, v)
	}
	return mkStruct(typ, parts)
}

// reflCall models a call of package reflect; false if it is not one of those
// that are known.
func (e *Engine) reflCall(s *State, instr ssa.Instruction, name string, sig *types.Signature, args []*Term, cont contKind) ([]*State, bool) {
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	done := func(s *State, t *Term) ([]*State, bool) {
		e.finishCall(s, instr, t, cont)
		return nil, true
	}
	fail := func() ([]*State, bool) {
		if cont != contNormal {
			return nil, false
		}
		e.startPanic(s, fresh("reflectpanic", name, nil, nil, args[0]), instr)
		return nil, true
	}
	switch name {
	case "reflect.ValueOf", "reflect.TypeOf":
		x := args[0]
		if v, ok := s.facts.eqc[x]; ok && v.isNil() {
			x = v
		}
		if x.isNil() {
			if name == "reflect.TypeOf" {
				return done(s, mkNil())
			}
			return done(s, mkRV(rt, rv{}))
		}
		T, _ := x.Obj.(types.Type)
		if x.Op != "iface" || T == nil {
			return nil, false
		}
		if name == "reflect.TypeOf" {
			return done(s, mkRType(rt, T))
		}
		return done(s, mkRV(rt, rv{T: T, x: x.Args[0], valid: true}))
	case "(reflect.StructTag).Get", "(reflect.StructTag).Lookup":
		t, ok := tagVal(args[0])
		k, ok2 := args[1].strVal()
		if !ok || !ok2 {
			return nil, false
		}
		v, has := reflect.StructTag(t).Lookup(k)
		if strings.HasSuffix(name, "Get") {
			return done(s, mkStr(v))
		}
		return done(s, mk("tuple", "", nil, nil, mkStr(v), mkBool(has)))
	case "(reflect.StructField).IsExported":
		if x := args[0]; x.Op == "struct" {
			return done(s, mkEq(x.Args[1], mkStr(""), types.Typ[types.String]))
		}
		return nil, false
	}
	if strings.HasPrefix(name, "(reflect.Type).") {
		T, _ := args[0].Obj.(types.Type)
		if args[0].Op != "rtype" || T == nil {
			return nil, false
		}
		other := func() types.Type {
			if len(args) > 1 && args[1].Op == "rtype" {
				return args[1].Obj.(types.Type)
			}
			return nil
		}
		st, isStruct := T.Underlying().(*types.Struct)
		switch strings.TrimPrefix(name, "(reflect.Type).") {
		case "Kind":
			return done(s, kindTerm(reflKind(T), rt))
		case "NumField":
			if !isStruct {
				return fail()
			}
			return done(s, mkInt(int64(st.NumFields())))
		case "Field":
			if !isStruct {
				return fail()
			}
			if i, ok := args[1].intVal(); ok {
				if i < 0 || int(i) >= st.NumFields() {
					return fail()
				}
				return done(s, structField(e, rt, T, int(i)))
			}
		case "ConvertibleTo":
			if U := other(); U != nil {
				return done(s, mkBool(reflConv(T, U)))
			}
		case "AssignableTo":
			if U := other(); U != nil {
				return done(s, mkBool(types.AssignableTo(T, U)))
			}
		case "Implements":
			if U := other(); U != nil {
				if it, ok := U.Underlying().(*types.Interface); ok {
					return done(s, mkBool(types.Implements(T, it)))
				}
				return fail()
			}
		case "Name":
			n := ""
			if nt, ok := types.Unalias(T).(*types.Named); ok {
				n = nt.Obj().Name()
			} else if b, ok := types.Unalias(T).(*types.Basic); ok {
				n = b.Name()
			}
			return done(s, mkStr(n))
		case "Elem":
			switch u := T.Underlying().(type) {
			case *types.Pointer:
				return done(s, mkRType(rt, u.Elem()))
			case *types.Slice:
				return done(s, mkRType(rt, u.Elem()))
			case *types.Array:
				return done(s, mkRType(rt, u.Elem()))
			case *types.Map:
				return done(s, mkRType(rt, u.Elem()))
			case *types.Chan:
				return done(s, mkRType(rt, u.Elem()))
			}
			return fail()
		}
		return nil, false
	}
	if name != "reflect.Indirect" && !strings.HasPrefix(name, "(reflect.Value).") || len(args) == 0 {
		return nil, false
	}
	if args[0].Op == "zero" {
		args = append([]*Term{mkRV(args[0].Typ, rv{})}, args[1:]...)
	}
	v, ok := args[0].Obj.(rv)
	if args[0].Op != "rv" || !ok {
		return nil, false
	}
	k := reflect.Invalid
	if v.valid {
		k = reflKind(v.T)
	}
	get := func() *Term {
		if v.addr {
			return s.read(v.x, v.T)
		}
		return v.x
	}
	op := strings.TrimPrefix(name, "(reflect.Value).")
	switch op {
	case "Kind":
		return done(s, kindTerm(k, rt))
	case "IsValid":
		return done(s, mkBool(v.valid))
	case "CanInterface":
		if !v.valid {
			return fail()
		}
		return done(s, mkBool(v.ro == ""))
	case "CanAddr":
		return done(s, mkBool(v.valid && v.addr))
	case "CanSet":
		return done(s, mkBool(v.valid && v.addr && v.ro == ""))
	case "CanInt":
		return done(s, mkBool(k >= reflect.Int && k <= reflect.Int64))
	case "CanUint":
		return done(s, mkBool(k >= reflect.Uint && k <= reflect.Uintptr))
	case "CanFloat":
		return done(s, mkBool(k == reflect.Float32 || k == reflect.Float64))
	case "Elem", "reflect.Indirect":
		if op == "reflect.Indirect" && k != reflect.Ptr {
			return done(s, args[0])
		}
		switch k {
		case reflect.Ptr:
			p := get()
			E := v.T.Underlying().(*types.Pointer).Elem()
			in := rv{T: E, x: p, addr: true, ro: v.ro, valid: true}
			c := mkEq(p, mkNil(), v.T)
			isNil, known := s.facts.truth(c)
			if p.isNil() {
				isNil, known = true, true
			}
			if known {
				if isNil {
					return done(s, mkRV(rt0(args[0]), rv{}))
				}
				return done(s, mkRV(rt0(args[0]), in))
			}
			n := s.clone()
			var out []*State
			if n.facts.assume(c, true) {
				e.finishCall(n, instr, mkRV(rt0(args[0]), rv{}), cont)
				out = append(out, n)
			}
			if s.facts.assume(c, false) {
				e.finishCall(s, instr, mkRV(rt0(args[0]), in), cont)
				out = append(out, s)
			}
			return out, true
		case reflect.Interface:
			p := get()
			if x, ok := s.facts.eqc[p]; ok && x.isNil() {
				p = x
			}
			if p.isNil() {
				return done(s, mkRV(rt0(args[0]), rv{}))
			}
			if T, _ := p.Obj.(types.Type); p.Op == "iface" && T != nil {
				return done(s, mkRV(rt0(args[0]), rv{T: T, x: p.Args[0], ro: v.ro, valid: true}))
			}
			return nil, false
		}
		return fail()
	}
	if !v.valid {
		switch op {
		case "String":
			return done(s, mkStr("<invalid Value>"))
		}
		return fail()
	}
	st, isStruct := v.T.Underlying().(*types.Struct)
	switch op {
	case "Type":
		return done(s, mkRType(rt, v.T))
	case "NumField":
		if !isStruct {
			return fail()
		}
		return done(s, mkInt(int64(st.NumFields())))
	case "Field":
		if !isStruct {
			return fail()
		}
		i, ok := args[1].intVal()
		if !ok {
			return nil, false
		}
		if i < 0 || int(i) >= st.NumFields() {
			return fail()
		}
		f := st.Field(int(i))
		in := rv{T: f.Type(), addr: v.addr, valid: true}
		if v.ro == "s" {
			in.ro = "s"
		}
		if !f.Exported() {
			in.ro = "s"
			if f.Embedded() {
				in.ro = "e"
			}
		}
		if v.addr {
			in.x = mkFieldAddr(v.x, int(i), v.T)
		} else {
			in.x = fieldVal(v.x, int(i), f.Type())
		}
		return done(s, mkRV(rt0(args[0]), in))
	case "Interface":
		if v.ro != "" {
			return fail()
		}
		x := get()
		if k == reflect.Interface {
			return done(s, x)
		}
		return done(s, mk("iface", typeKey(v.T), v.T, v.T, x))
	case "IsNil":
		switch k {
		case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.Slice, reflect.UnsafePointer:
			return done(s, mkEq(get(), mkNil(), v.T))
		}
		return fail()
	case "Convert", "CanConvert":
		if args[1].Op != "rtype" {
			return nil, false
		}
		U := args[1].Obj.(types.Type)
		if op == "CanConvert" {
			return done(s, mkBool(reflConv(v.T, U)))
		}
		if !reflConv(v.T, U) {
			return fail()
		}
		x := get()
		if !types.Identical(v.T.Underlying(), U.Underlying()) {
			x = e.convert(s, x, v.T, U)
		}
		return done(s, mkRV(rt0(args[0]), rv{T: U, x: x, ro: v.ro, valid: true}))
	case "Float":
		if k != reflect.Float32 && k != reflect.Float64 {
			return fail()
		}
		if k == reflect.Float64 {
			return done(s, get())
		}
		return done(s, e.convert(s, get(), v.T, types.Typ[types.Float64]))
	case "Int":
		if k < reflect.Int || k > reflect.Int64 {
			return fail()
		}
		return done(s, e.convert(s, get(), v.T, types.Typ[types.Int64]))
	case "Uint":
		if k < reflect.Uint || k > reflect.Uintptr {
			return fail()
		}
		return done(s, e.convert(s, get(), v.T, types.Typ[types.Uint64]))
	case "Bool":
		if k != reflect.Bool {
			return fail()
		}
		return done(s, get())
	case "Len":
		if k == reflect.Array {
			return done(s, mkInt(v.T.Underlying().(*types.Array).Len()))
		}
	case "UnsafeAddr", "Addr":
		if !v.addr {
			return fail()
		}
	case "Index", "MapRange", "MapKeys", "Complex", "Bytes", "Cap":
		return nil, false
	}
	return nil, false
}

func rt0(v *Term) types.Type { return v.Typ }

func tagVal(t *Term) (string, bool) {
	if t.Op == "const" && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	if t.Op == "zero" {
		return "", true
	}
	return t.strVal()
}
