package main

import (
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// outCall models what writes text, as writes of composed texts to the writer
// of a contract driver.
func (e *Engine) outCall(s *State, instr ssa.Instruction, name string, args []*Term, cont contKind) bool {
	S := types.Typ[types.String]
	switch name {
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		if isBuilderIface(args[0]) {
			return false
		}
		var text *Term
		switch name {
		case "fmt.Fprintf":
			text = e.sprintf(s, args[1], args[2])
		case "fmt.Fprint":
			text = e.sprint(s, args[1])
		case "fmt.Fprintln":
			text = e.sprintln(s, args[1])
		default:
			text = args[1]
		}
		return e.redirect(s, instr, "writeText", []*Term{args[0], text}, cont)
	case "(*text/template.Template).Execute", "(*html/template.Template).Execute":
		return e.redirect(s, instr, "writeTextErr", []*Term{args[1], mk("pure", name, S, nil, args[0], unIface(args[2]))}, cont)
	case "math.IsNaN":
		e.finishCall(s, instr, isNaN(args[0]), cont)
		return true
	case "math.IsInf":
		return e.redirect(s, instr, "isInf", args, cont)
	case "encoding/json.Marshal":
		return e.redirect(s, instr, "jsonMarshal", args, cont)
	case "encoding/json.NewEncoder":
		return e.redirect(s, instr, "jsonNewEncoder", args, cont)
	case "(*encoding/json.Encoder).Encode":
		return e.redirect(s, instr, "jsonEncode", args, cont)
	case "bufio.NewWriter":
		return e.redirect(s, instr, "bufioNew", args, cont)
	case "bufio.NewWriterSize":
		return e.redirect(s, instr, "bufioNew", args[:1], cont)
	case "(*bufio.Writer).Write":
		return e.redirect(s, instr, "bufioWrite", []*Term{args[0], e.convert(s, args[1], types.NewSlice(types.Typ[types.Byte]), S)}, cont)
	case "(*bufio.Writer).WriteString":
		return e.redirect(s, instr, "bufioWrite", args, cont)
	case "(*bufio.Writer).Flush":
		return e.redirect(s, instr, "bufioFlush", args, cont)
	case "(*bytes.Buffer).WriteTo":
		return e.redirect(s, instr, "bufferWriteTo", args, cont)
	case "io.Copy":
		if x := args[1]; isBuilderIface(x) {
			return e.redirect(s, instr, "bufferWriteTo", []*Term{x.Args[0], args[0]}, cont)
		}
	case "encoding/xml.EscapeText":
		text := mk("pure", name, S, nil, e.convert(s, args[1], types.NewSlice(types.Typ[types.Byte]), S))
		if isBuilderIface(args[0]) {
			c := contentAddr(args[0].Args[0])
			s.mem[c] = mkCat(s.read(c, S), text)
			e.finishCall(s, instr, mkNil(), cont)
			return true
		}
		return e.redirect(s, instr, "writeTextErr", []*Term{args[0], text}, cont)
	}
	return false
}

func isBuilderIface(w *Term) bool {
	if w.Op != "iface" {
		return false
	}
	t, ok := w.Obj.(types.Type)
	return ok && isBuilderPtr(t)
}

// encodable says whether encoding/json surely accepts a value.
func (e *Engine) encodable(s *State, v *Term, t types.Type, depth int) bool {
	if depth > 8 || v == nil {
		return false
	}
	if v.isNil() {
		return true
	}
	if v.Op == "iface" {
		return e.encodable(s, v.Args[0], v.Typ, depth+1)
	}
	if t == nil {
		return false
	}
	if ms := types.NewMethodSet(t); ms.Lookup(nil, "MarshalJSON") != nil || ms.Lookup(nil, "MarshalText") != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsComplex != 0 || u.Kind() == types.UnsafePointer {
			return false
		}
		if u.Info()&types.IsFloat != 0 {
			return s.finite(v)
		}
		return true
	case *types.Pointer:
		return e.encodable(s, s.read(v, u.Elem()), u.Elem(), depth+1)
	case *types.Slice, *types.Array:
		el := types.Type(nil)
		if sl, ok := u.(*types.Slice); ok {
			el = sl.Elem()
		} else {
			el = u.(*types.Array).Elem()
		}
		if es, ok := e.knownElems(s, v); ok {
			for _, x := range es {
				if !e.encodable(s, x, el, depth+1) {
					return false
				}
			}
			return true
		}
		return plainData(el, depth)
	case *types.Map:
		if k, ok := u.Key().Underlying().(*types.Basic); !ok || k.Info()&(types.IsString|types.IsInteger) == 0 {
			return false
		}
		return plainData(u.Elem(), depth)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() && !u.Field(i).Embedded() || reflect.StructTag(u.Tag(i)).Get("json") == "-" {
				continue
			}
			if !e.encodable(s, fieldVal(v, i, u.Field(i).Type()), u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Interface:
		return false
	}
	return false
}

// plainData: every value of the type can be encoded.
func plainData(t types.Type, depth int) bool {
	if depth > 8 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsComplex|types.IsFloat) == 0 && u.Kind() != types.UnsafePointer
	case *types.Slice:
		return plainData(u.Elem(), depth+1)
	case *types.Array:
		return plainData(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainData(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Map:
		return plainData(u.Elem(), depth+1)
	}
	return false
}

func isNaN(v *Term) *Term {
	if v.Op == "const" || v.Op == "conv" && len(v.Args) == 1 && v.Args[0].Typ != nil && isIntType(v.Args[0].Typ) {
		return mkBool(false)
	}
	return mk("pure", "math.IsNaN", types.Typ[types.Bool], nil, v)
}

// finite: on this path a floating point value is known to be a number.
func (s *State) finite(v *Term) bool {
	if v.Op == "const" {
		return true
	}
	if v.Op == "conv" && v.Args[0].Typ != nil && isIntType(v.Args[0].Typ) {
		return true
	}
	is := func(c *Term, want bool) bool {
		b, known := s.facts.truth(c)
		return known && b == want
	}
	F := types.Typ[types.Float64]
	top := mkConstVal(constant.MakeFloat64(math.MaxFloat64), F)
	low := mkConstVal(constant.MakeFloat64(-math.MaxFloat64), F)
	return is(isNaN(v), false) && is(mkLt(top, v, F), false) && is(mkLt(v, low, F), false)
}

// jsonVal is a value as it is encoded: pointers are followed.
func (e *Engine) jsonVal(s *State, x *Term, t types.Type) *Term {
	if types.IsInterface(t) {
		if x.Op == "iface" {
			return e.jsonVal(s, x.Args[0], x.Typ)
		}
		return x
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if x.isNil() {
			return mkNil()
		}
		return e.jsonVal(s, s.read(x, p.Elem()), p.Elem())
	}
	return mk("iface", typeKey(t), t, t, x)
}

// jsonField finds what is encoded under a key.
func (e *Engine) jsonField(s *State, v *Term, key *Term) *Term {
	if v.Op != "iface" {
		return nil
	}
	v = e.jsonVal(s, v, types.NewInterfaceType(nil, nil))
	if v.Op != "iface" {
		return nil
	}
	t, x := v.Typ, v.Args[0]
	k, _ := key.strVal()
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			name, _, _ := strings.Cut(tag, ",")
			if name == "" {
				if f.Embedded() {
					if r := e.jsonField(s, e.jsonVal(s, fieldVal(x, i, f.Type()), f.Type()), key); r != nil {
						return r
					}
				}
				name = f.Name()
			}
			if f.Exported() && tag != "-" && name == k {
				return e.jsonVal(s, fieldVal(x, i, f.Type()), f.Type())
			}
		}
	case *types.Map:
		if h := s.read(mapHas(x, key), types.Typ[types.Bool]); h != nil {
			if b, ok := h.boolVal(); !ok || !b {
				return nil
			}
		}
		return e.jsonVal(s, s.read(mapVal(x, key, u), u.Elem()), u.Elem())
	}
	return nil
}

// jsonElems are the elements of a list, or the values of a map, if known.
func (e *Engine) jsonElems(s *State, v *Term) ([]*Term, bool) {
	if v.Op != "iface" {
		return nil, v.isNil()
	}
	v = e.jsonVal(s, v, types.NewInterfaceType(nil, nil))
	if v.Op != "iface" {
		return nil, v.isNil()
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		if v.Args[0].isNil() {
			return nil, true
		}
		el, ok := e.knownElems(s, v.Args[0])
		for i := range el {
			el[i] = e.jsonVal(s, el[i], u.Elem())
		}
		return el, ok
	case *types.Map:
		if v.Args[0].isNil() {
			return nil, true
		}
		keys, ok := e.mapKeys(s, v.Args[0])
		if !ok {
			return nil, false
		}
		var el []*Term
		for _, k := range keys {
			el = append(el, e.jsonVal(s, s.read(mapVal(v.Args[0], k, u), u.Elem()), u.Elem()))
		}
		return el, true
	}
	return nil, false
}

// isJSONList: a text is a JSON list of the given elements.
func isJSONList(text *Term, elems []*Term) bool {
	var toks []*Term
	for _, x := range segs(text) {
		v, ok := x.strVal()
		if !ok {
			toks = append(toks, x)
			continue
		}
		for _, r := range v {
			switch r {
			case ' ', '\n', '\t', '\r':
			default:
				toks = append(toks, mkStr(string(r)))
			}
		}
	}
	want := []*Term{mkStr("[")}
	for i, x := range elems {
		if i > 0 {
			want = append(want, mkStr(","))
		}
		want = append(want, x)
	}
	want = append(want, mkStr("]"))
	if len(want) != len(toks) {
		return false
	}
	for i := range want {
		if want[i] != toks[i] {
			return false
		}
	}
	return true
}

// deepVal is a value together with what it refers to.
func (e *Engine) deepVal(s *State, v *Term, depth int) *Term {
	if v == nil || depth > 6 {
		return v
	}
	if v.Op == "iface" {
		x := v.Args[0]
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok && !x.isNil() && explodes(p.Elem()) {
			return e.deepVal(s, s.read(x, p.Elem()), depth+1)
		}
		return mk("iface", v.Aux, v.Typ, v.Obj, e.deepVal(s, x, depth+1))
	}
	if v.Op == "struct" {
		args := make([]*Term, len(v.Args))
		for i, a := range v.Args {
			args[i] = e.deepVal(s, a, depth+1)
		}
		return mk("struct", v.Aux, v.Typ, v.Obj, args...)
	}
	if v.Typ != nil {
		if _, ok := v.Typ.Underlying().(*types.Slice); ok {
			if el, ok := e.knownElems(s, v); ok {
				args := make([]*Term, len(el))
				for i, a := range el {
					args[i] = e.deepVal(s, a, depth+1)
				}
				return mk("list", "", v.Typ, nil, args...)
			}
		}
		if m, ok := v.Typ.Underlying().(*types.Map); ok && v.Op == "map" {
			if keys, ok := e.mapKeys(s, v); ok {
				var args []*Term
				for _, k := range keys {
					args = append(args, k, e.deepVal(s, s.read(mapVal(v, k, m), m.Elem()), depth+1))
				}
				return mk("list", "map", v.Typ, nil, args...)
			}
		}
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok && v.Op == "alloc" && explodes(p.Elem()) {
			return e.deepVal(s, s.read(v, p.Elem()), depth+1)
		}
		if p, ok := v.Typ.Underlying().(*types.Pointer); ok && v.Op == "alloc" {
			if _, basic := p.Elem().Underlying().(*types.Basic); basic {
				return mk("list", "ptr", v.Typ, nil, s.read(v, p.Elem()))
			}
		}
	}
	return v
}
