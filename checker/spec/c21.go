package zzverifspec

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// noted is what a source has emitted.
type noted struct {
	n    int
	left int
	e    [96]stat
	seen [96]bool
}

func note(src monkit.StatSource, key monkit.SeriesKey) *noted {
	l := &noted{}
	src.Stats(func(k monkit.SeriesKey, field string, val float64) {
		assert(k == key, "everything is emitted under the key of the source")
		if l.n < 96 {
			l.e[l.n] = stat{k, field, val}
		}
		l.n++
	})
	l.left = l.n
	return l
}

// has: the field was emitted once, with this value.
func (l *noted) has(field string, val float64) {
	n := 0
	ok := true
	for i := 0; i < l.n; i++ {
		if l.e[i].field == field {
			n++
			ok = ok && isVal(l.e[i].val, val)
			l.left--
		}
	}
	assert(n == 1, "every numeric or boolean field is emitted once under its name")
	assert(ok, "with its value")
}

func (l *noted) bool(field string, val bool) {
	if val {
		l.has(field, 1)
	} else {
		l.has(field, 0)
	}
}

func (l *noted) not(field string) {
	for i := 0; i < l.n; i++ {
		assert(l.e[i].field != field, "what is to be ignored, or is nil, is not emitted")
	}
}

// end: nothing else was emitted.
func (l *noted) end() { assert(l.left == 0, "nothing else is emitted") }

func ofStruct(x interface{}) *noted {
	key := monkit.NewSeriesKey("m")
	return note(monkit.StatSourceFromStruct(key, x), key)
}

type (
	number  int16
	measure float32
	truth   bool
)

type numbersOnly struct {
	I   int
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	UP  uintptr
	F32 float32
	F64 float64
	D   time.Duration
	N   number
	M   measure
}

func (v *numbersOnly) in(l *noted, under string) {
	l.has(under+"I", float64(v.I))
	l.has(under+"I8", float64(v.I8))
	l.has(under+"I16", float64(v.I16))
	l.has(under+"I32", float64(v.I32))
	l.has(under+"I64", float64(v.I64))
	l.has(under+"U", float64(v.U))
	l.has(under+"U8", float64(v.U8))
	l.has(under+"U16", float64(v.U16))
	l.has(under+"U32", float64(v.U32))
	l.has(under+"U64", float64(v.U64))
	l.has(under+"UP", float64(v.UP))
	l.has(under+"F32", float64(v.F32))
	l.has(under+"F64", v.F64)
	l.has(under+"D", float64(v.D))
	l.has(under+"N", float64(v.N))
	l.has(under+"M", float64(v.M))
}

func C21_Numbers(v numbersOnly) {
	l := ofStruct(v)
	v.in(l, "")
	l.end()
}

func C21_NumbersPtr(v numbersOnly) {
	p := &v
	l := ofStruct(&p)
	v.in(l, "")
	l.end()
}

type booleans struct {
	A bool
	B truth
	C *bool
}

func C21_Booleans(v booleans) {
	l := ofStruct(v)
	l.bool("A", v.A)
	l.bool("B", bool(v.B))
	if v.C != nil {
		l.bool("C", *v.C)
	} else {
		l.not("C")
	}
	l.end()
}

type others struct {
	First int
	S     string
	C     complex128
	M     map[string]int
	L     []int
	By    []byte
	Fn    func()
	Ch    chan int
	Err   error
	X     interface{}
	Y     interface{}
	A     [3]int
	T     *string
	Last  int
}

func C21_Others(v others) {
	v.Y = 5
	l := ofStruct(&v)
	l.has("First", float64(v.First))
	l.has("Last", float64(v.Last))
}

type tagged struct {
	Skip   int  `monkit:"ignore"`
	Also   int  `monkit:"whatever,ignore"`
	Before int  `monkit:"ignore,whatever"`
	Near   int  `monkit:"ignored"`
	Other  int  `json:"ignore"`
	Both   int  `json:"x" monkit:"ignore"`
	None   int  `monkit:""`
	P      *int `monkit:"ignore"`
	Sub    struct {
		N int
	} `monkit:"ignore"`
	Flag bool `monkit:"ignore"`
	End  int
}

func C21_Tagged(v tagged) {
	l := ofStruct(v)
	l.has("Near", float64(v.Near))
	l.has("Other", float64(v.Other))
	l.has("None", float64(v.None))
	l.has("End", float64(v.End))
	l.end()
}

type hidden struct {
	number  int
	flag    bool
	ptr     *int
	nested  struct{ N int }
	np      *innermost
	text    string
	iface   interface{}
	when    time.Time
	Visible int
}

func C21_Unexported(v hidden) {
	l := ofStruct(v)
	l.has("number", float64(v.number))
	l.bool("flag", v.flag)
	l.has("Visible", float64(v.Visible))
	if v.ptr != nil {
		l.has("ptr", float64(*v.ptr))
	}
}

func C21_UnexportedPtr(v hidden) {
	l := ofStruct(&v)
	l.has("Visible", float64(v.Visible))
}

type innermost struct {
	N int
	P *int
	B bool
}

type middle struct {
	In  innermost
	Ptr *innermost
	F   float64
}

type outermost struct {
	Mid middle
	PP  **int
	M   *middle
	N   uint8
}

func (v *innermost) in(l *noted, under string) {
	l.has(under+"N", float64(v.N))
	l.bool(under+"B", v.B)
	if v.P != nil {
		l.has(under+"P", float64(*v.P))
	} else {
		l.not(under + "P")
	}
}

func C21_Nested(v middle) {
	l := ofStruct(v)
	v.In.in(l, "In.")
	l.has("F", v.F)
	if v.Ptr != nil {
		v.Ptr.in(l, "Ptr.")
	} else {
		l.not("Ptr")
	}
	l.end()
}

func C21_Deep(v outermost, n int) {
	v.Mid.Ptr = nil
	v.Mid.In.P = &n
	v.M = &middle{Ptr: &innermost{N: 1}}
	l := ofStruct(&v)
	v.Mid.In.in(l, "Mid.In.")
	l.has("Mid.F", v.Mid.F)
	l.has("M.F", 0)
	v.M.In.in(l, "M.In.")
	v.M.Ptr.in(l, "M.Ptr.")
	l.has("N", float64(v.N))
	if v.PP != nil && *v.PP != nil {
		l.has("PP", float64(**v.PP))
	} else {
		l.not("PP")
	}
	l.end()
}

// Embedded types are fields named after their type.
type Base struct{ A int }

type based struct{ Z int }

type derived struct {
	Base
	*innermost
	based
	error
	B int
}

func C21_Embedded(v derived) {
	l := ofStruct(&v)
	l.has("Base.A", float64(v.A))
	l.has("B", float64(v.B))
}

// chain is a list that ends.
type chain struct {
	V    int
	Next *chain
}

func C21_Chain(a, b, c int) {
	l := ofStruct(chain{a, &chain{b, &chain{V: c}}})
	l.has("V", float64(a))
	l.has("Next.V", float64(b))
	l.has("Next.Next.V", float64(c))
	l.end()
}

// Whatever is no struct has no fields.
func C21_NoStruct(kind int, n int, s string) {
	var x interface{}
	var noInt *int
	var noStruct *middle
	var noStructs ***middle
	switch kind {
	case 0:
	case 1:
		x = n
	case 2:
		x = s
	case 3:
		x = &n
	case 4:
		x = noInt
	case 5:
		x = noStruct
	case 6:
		x = &noStruct
	case 7:
		x = noStructs
	case 8:
		x = map[string]int{"a": n}
	case 9:
		x = []int{n}
	case 10:
		x = func() {}
	case 12:
		x = make(chan int)
	case 13:
		x = [2]int{n}
	case 14:
		x = true
	case 15:
		x = 1.5
	case 16:
		x = struct{}{}
	case 17:
		x = map[string]int(nil)
	case 18:
		x = (func())(nil)
	default:
		x = complex(1, 2)
	}
	l := ofStruct(x)
	assert(l.n == 0, "what is no struct has nothing to emit")
}

// A struct value reports what it observed last, as it is now.
func C21_StructVal(v, w numbersOnly) {
	key := monkit.NewSeriesKey("m")
	val := monkit.NewStructVal(key)
	l := note(val, key)
	assert(l.n == 0, "nothing was observed")
	val.Observe(v)
	l = note(val, key)
	v.in(l, "")
	l.end()
	val.Observe(&w)
	w.I64++
	l = note(val, key)
	w.in(l, "")
	l.end()
	val.Observe(nil)
	l = note(val, key)
	assert(l.n == 0, "nil has no fields")
	val.Observe((*middle)(nil))
	l = note(val, key)
	assert(l.n == 0, "nil has no fields")
}

// Sources of the same type are independent, and can be collected repeatedly.
func C21_Again(v, w middle) {
	v.Ptr, w.Ptr = nil, &innermost{}
	v.In.P, w.In.P = nil, nil
	k1, k2 := monkit.NewSeriesKey("a"), monkit.NewSeriesKey("b")
	s1, s2 := monkit.StatSourceFromStruct(k1, v), monkit.StatSourceFromStruct(k2, &w)
	for i := 0; i < 2; i++ {
		l := note(s1, k1)
		v.In.in(l, "In.")
		l.has("F", v.F)
		l.end()
		l = note(s2, k2)
		w.In.in(l, "In.")
		w.Ptr.in(l, "Ptr.")
		l.has("F", w.F)
		l.end()
	}
}
