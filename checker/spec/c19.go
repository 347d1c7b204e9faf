package zzverifspec

import (
	"github.com/spacemonkeygo/monkit/v3"
)

// stat is one value handed to a callback.
type stat struct {
	key   monkit.SeriesKey
	field string
	val   float64
}

// sink collects values.
type sink struct {
	n    int
	last stat
	prev stat
}

func (s *sink) take(key monkit.SeriesKey, field string, val float64) {
	s.n++
	s.prev = s.last
	s.last = stat{key, field, val}
}

// source emits one value.
type source struct{ s stat }

func (s *source) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cb(s.s.key, s.s.field, s.s.val)
}

// tracer is a transformer that notes when it sees a value.
type tracer struct {
	clock *int
	at    int
	n     int
	seen  stat
	wraps int
}

func (t *tracer) Transform(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
	t.wraps++
	return func(key monkit.SeriesKey, field string, val float64) {
		t.n++
		*t.clock++
		t.at = *t.clock
		t.seen = stat{key, field, val}
		cb(key, field, val)
	}
}

// doubler is a transformer that changes the value and emits more than one.
type doubler struct{}

func (doubler) Transform(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
	return func(key monkit.SeriesKey, field string, val float64) {
		cb(key, "first", val)
		cb(key, "second", val)
	}
}

func sameStat(a, b stat, scope string) bool {
	return a.key.Measurement == b.key.Measurement && a.field == b.field && a.val == b.val && a.key.Tags.Get("scope") == scope
}

func C19_Order(scope, m, field string, val float64) {
	r := monkit.NewRegistry()
	in := stat{monkit.NewSeriesKey(m), field, val}
	r.ScopeNamed(scope).Chain(&source{in})
	clock := 0
	a, b, c := &tracer{clock: &clock}, &tracer{clock: &clock}, &tracer{clock: &clock}
	s := &sink{}
	r.Stats(s.take)
	assert(s.n == 1 && sameStat(s.last, in, scope), "without transformers the value arrives as it is")
	r1 := r.WithTransformers(a)
	r1.Stats(s.take)
	assert(s.n == 2 && sameStat(s.last, in, scope), "the value arrives unchanged, once")
	assert(a.n == 1 && sameStat(a.seen, in, scope), "having passed the transformer once")
	r2 := r1.WithTransformers(b, c)
	clock = 0
	r2.Stats(s.take)
	assert(s.n == 3 && sameStat(s.last, in, scope), "the value arrives unchanged, once")
	assert(a.n == 2 && b.n == 1 && c.n == 1, "having passed each transformer once")
	assert(c.at == 1 && b.at == 2 && a.at == 3, "the last configured first")
	// deriving changed nothing else
	r1.Stats(s.take)
	assert(s.n == 4 && a.n == 3 && b.n == 1 && c.n == 1, "the registry derived from is unchanged")
	r.Stats(s.take)
	assert(s.n == 5 && a.n == 3 && b.n == 1 && c.n == 1, "and so is the first")
	assert(sameStat(s.last, in, scope), "the value arrives unchanged, once")
}

func C19_Siblings(m, field string, val float64) {
	r := monkit.NewRegistry()
	in := stat{monkit.NewSeriesKey(m), field, val}
	r.ScopeNamed("s").Chain(&source{in})
	clock := 0
	a, b, c, d := &tracer{clock: &clock}, &tracer{clock: &clock}, &tracer{clock: &clock}, &tracer{clock: &clock}
	base := r.WithTransformers(a).WithTransformers(b)
	x := base.WithTransformers(c)
	y := base.WithTransformers(d)
	s := &sink{}
	x.Stats(s.take)
	assert(a.n == 1 && b.n == 1 && c.n == 1 && d.n == 0, "each sibling has its own transformers")
	y.Stats(s.take)
	assert(a.n == 2 && b.n == 2 && c.n == 1 && d.n == 1, "each sibling has its own transformers")
	base.Stats(s.take)
	assert(a.n == 3 && b.n == 3 && c.n == 1 && d.n == 1, "and the one they were derived from has neither")
	// metrics are shared
	assert(x.ScopeNamed("s") == r.ScopeNamed("s") && y.ScopeNamed("t") == base.ScopeNamed("t"), "derived registries share all metrics")
}

func C19_Change(m, field string, val float64) {
	r := monkit.NewRegistry().WithTransformers(doubler{})
	r.ScopeNamed("s").Chain(&source{stat{monkit.NewSeriesKey(m), field, val}})
	s := &sink{}
	r.Stats(s.take)
	assert(s.n == 2 && s.prev.field == "first" && s.last.field == "second" && s.last.val == val, "what a transformer emits arrives")
}

func C19_Source(m, field string, val float64) {
	in := stat{monkit.NewSeriesKey(m), field, val}
	clock := 0
	a, b, c := &tracer{clock: &clock}, &tracer{clock: &clock}, &tracer{clock: &clock}
	ss := monkit.TransformStatSource(&source{in}, a, b, c)
	s := &sink{}
	ss.Stats(s.take)
	assert(s.n == 1 && s.last.val == val && s.last.field == field && s.last.key == in.key, "the value arrives unchanged, once")
	assert(a.n == 1 && b.n == 1 && c.n == 1, "having passed each transformer once")
	assert(c.at == 1 && b.at == 2 && a.at == 3, "the last configured first")
	ss.Stats(s.take)
	assert(s.n == 2 && a.n == 2 && b.n == 2 && c.n == 2, "and again the same")
	plain := monkit.TransformStatSource(&source{in})
	plain.Stats(s.take)
	assert(s.n == 3 && s.last.val == val, "without transformers the value arrives as it is")
}

// The function adapter is the function.
func C19_Func(m, field string, val float64) {
	a := &tracer{clock: new(int)}
	s := &sink{}
	in := stat{monkit.NewSeriesKey(m), field, val}
	cb := monkit.CallbackTransformerFunc(a.Transform).Transform(s.take)
	cb(in.key, field, val)
	assert(a.n == 1 && s.n == 1 && s.last.val == val && s.last.field == field && s.last.key == in.key, "the function is applied once")
}

// seriesOf is one of a few series that differ in little.
func seriesOf(which int) monkit.SeriesKey {
	k := monkit.NewSeriesKey("m")
	switch which {
	case 0:
		return k
	case 1:
		return monkit.NewSeriesKey("n")
	case 2:
		return k.WithTag("a", "x")
	case 3:
		return k.WithTag("a", "y")
	}
	assume(which == 4)
	return k.WithTag("b", "x")
}

// Any value but a total passes through and has no effect.
func C19_DeltaOther(which int, field string, a, b, c float64) {
	assume(field != "total")
	dt := monkit.NewDeltaTransformer()
	s := &sink{}
	k := seriesOf(which)
	cb := dt.Transform(s.take)
	cb(k, field, a)
	assert(s.n == 1 && s.last.field == field && s.last.val == a && s.last.key == k, "the value passes through")
	cb(k, "total", b)
	assert(s.n == 2 && s.last.field == "total" && s.last.val == b && s.last.key == k, "the first total passes through alone")
	cb(k, field, c)
	assert(s.n == 3 && s.last.field == field && s.last.val == c && s.last.key == k, "the value passes through")
}

// Each series has its own previous total.
func C19_Delta(which, other int, a, b, c, d float64) {
	k, l := seriesOf(which), seriesOf(other)
	assume(which != other)
	dt := monkit.NewDeltaTransformer()
	s := &sink{}
	cb := dt.Transform(s.take)
	cb(k, "total", a)
	assert(s.n == 1 && s.last.field == "total" && s.last.val == a && s.last.key == k, "the first total passes through alone")
	cb(l, "total", b)
	assert(s.n == 2 && s.last.field == "total" && s.last.val == b && s.last.key == l, "as does that of another series")
	cb(k, "total", c)
	assert(s.n == 4 && s.prev.field == "total" && s.prev.val == c && s.prev.key == k, "the next total passes through")
	assert(s.last.field == "delta" && s.last.val == c-a && s.last.key == k, "followed by its change")
	cb(l, "total", d)
	assert(s.n == 6 && s.prev.field == "total" && s.prev.val == d && s.prev.key == l, "the next total passes through")
	assert(s.last.field == "delta" && s.last.val == d-b && s.last.key == l, "followed by its change")
	// collecting again goes through a new callback
	cb = dt.Transform(s.take)
	cb(k, "total", b)
	assert(s.n == 8 && s.prev.val == b && s.last.field == "delta" && s.last.val == b-c && s.last.key == k, "the change is since the previous total")
}

// Two delta transformers do not share their state.
func C19_TwoDeltas(which int, a, b float64) {
	k := seriesOf(which)
	s := &sink{}
	monkit.NewDeltaTransformer().Transform(s.take)(k, "total", a)
	monkit.NewDeltaTransformer().Transform(s.take)(k, "total", b)
	assert(s.n == 2, "each transformer has its own totals")
}
