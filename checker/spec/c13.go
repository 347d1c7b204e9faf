package zzverifspec

import (
	"github.com/spacemonkeygo/monkit/v3"
)

const kinds = 9

// metric asks a scope for a metric of a kind.
func metric(sc *monkit.Scope, kind int, name string, tags ...monkit.SeriesTag) interface{} {
	switch kind {
	case 0:
		return sc.Meter(name, tags...)
	case 1:
		return sc.IntVal(name, tags...)
	case 2:
		return sc.FloatVal(name, tags...)
	case 3:
		return sc.BoolVal(name, tags...)
	case 4:
		return sc.StructVal(name, tags...)
	case 5:
		return sc.DurationVal(name, tags...)
	case 6:
		return sc.Timer(name, tags...)
	case 7:
		return sc.Counter(name, tags...)
	}
	assume(kind == 8)
	return sc.FuncNamed(name, tags...)
}

// The same name is the same metric, a different one is another.
func C13_Names(kind int, a, b string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	x := metric(sc, kind, a)
	y := metric(sc, kind, b)
	if a == b {
		assert(x == y, "the same name is the same metric")
	} else {
		assert(x != y, "another name is another metric")
	}
	assert(metric(sc, kind, a) == x, "the first metric is still there")
	assert(metric(sc, kind, b) == y, "so is the second")
}

// Tags belong to the identity, in their order; no text in them can make
// different ones look the same.
func C13_Tags(kind int, a, ka, va, b, kb, vb string) {
	assume(kind == 1 || kind == 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	x := metric(sc, kind, a, monkit.NewSeriesTag(ka, va))
	y := metric(sc, kind, b, monkit.NewSeriesTag(kb, vb))
	if a == b && ka == kb && va == vb {
		assert(x == y, "the same name and tag is the same metric")
	} else {
		assert(x != y, "another name or tag is another metric")
	}
	assert(metric(sc, kind, a, monkit.NewSeriesTag(ka, va)) == x, "the first metric is still there")
}

func C13_TagCount(kind int, a, k, v, b, k1, v1, k2, v2 string) {
	assume(kind == 1 || kind == 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	x := metric(sc, kind, a, monkit.NewSeriesTag(k, v))
	none := metric(sc, kind, a)
	two := metric(sc, kind, b, monkit.NewSeriesTag(k1, v1), monkit.NewSeriesTag(k2, v2))
	assert(x != none, "with a tag it is another metric than without")
	assert(x != two && none != two, "with two tags it is another metric than with one or none")
	assert(metric(sc, kind, b, monkit.NewSeriesTag(k1, v1), monkit.NewSeriesTag(k2, v2)) == two, "the same tags are the same metric")
}

func C13_AllKindsTagged(kind int, name, k, v string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	plain := metric(sc, kind, name)
	x := metric(sc, kind, name, monkit.NewSeriesTag(k, v))
	assert(x != plain, "tags belong to the identity")
	assert(x == metric(sc, kind, name, monkit.NewSeriesTag(k, v)), "the same name and tag is the same metric")
	assert(plain == metric(sc, kind, name), "the untagged one is still there")
}

// A name in use for one kind of value is not available to another.
func C13_Kinds(first, second int, a, b string) {
	assume(first < 8 && second < 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	x := metric(sc, first, a)
	panicked := true
	func() {
		defer func() { recover() }()
		metric(sc, second, b)
		panicked = false
	}()
	assume(first != second)
	assert(panicked == (a == b), "asking for another kind under a used name panics, and only then")
	assert(metric(sc, first, a) == x, "the metric is still there")
}

// A function never collides with a value.
func C13_Func(kind int, a, b string) {
	assume(kind < 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	f := sc.FuncNamed(a)
	x := metric(sc, kind, b)
	assert(sc.FuncNamed(a) == f, "the function is still there")
	assert(metric(sc, kind, b) == x, "so is the value")
}

func C13_DiffMeter(kind int, a, b string) {
	assume(kind < 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	m1, m2 := monkit.NewMeter(monkit.NewSeriesKey("m1")), monkit.NewMeter(monkit.NewSeriesKey("m2"))
	sc.DiffMeter(a, m1, m2)
	panicked := true
	func() {
		defer func() { recover() }()
		metric(sc, kind, b)
		panicked = false
	}()
	assert(panicked == (a == b), "asking for another kind under a used name panics, and only then")
	sc.DiffMeter(a, m1, m2)
}

// Gauges replace gauges and nothing else.
func C13_Gauge(kind int, a, b string, gaugeFirst bool) {
	assume(kind < 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	one := func() float64 { return 1 }
	panicked := true
	if gaugeFirst {
		sc.Gauge(a, one)
		sc.Gauge(a, one)
		func() {
			defer func() { recover() }()
			metric(sc, kind, b)
			panicked = false
		}()
		assert(panicked == (a == b), "a gauge's name is not available to others")
		sc.Gauge(a, one)
		return
	}
	x := metric(sc, kind, a)
	func() {
		defer func() { recover() }()
		sc.Gauge(b, one)
		panicked = false
	}()
	assert(panicked == (a == b), "a gauge replaces no other metric")
	assert(metric(sc, kind, a) == x, "the metric is still there")
}

// A replaced gauge reports the new value only.
func C13_GaugeReplace(name string, again bool) {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	sc.Gauge(name, func() float64 { return 1 })
	sc.Gauge(name, func() float64 { return 2 })
	n := 0
	sc.Stats(func(key monkit.SeriesKey, field string, val float64) {
		n++
		assert(val == 2, "the latest gauge is reported")
		assert(key.Measurement == name && field == "value", "under its name")
	})
	assert(n == 1, "once")
}

// One scope per name; two scopes share nothing.
func C13_Scopes(a, b string, kind int, name string) {
	assume(kind == 1 || kind == 8)
	r := monkit.NewRegistry()
	x := r.ScopeNamed(a)
	y := r.ScopeNamed(b)
	assert((x == y) == (a == b), "one scope per name")
	assert(r.ScopeNamed(a) == x && r.ScopeNamed(b) == y, "for ever")
	assert(x.Name() == a && y.Name() == b, "with its name")
	m := metric(x, kind, name)
	assert((metric(y, kind, name) == m) == (a == b), "metrics belong to one scope")
	assert(r.WithTransformers().ScopeNamed(a) == x, "also through a derived registry")
}

func C13_Registries(a string, kind int, name string) {
	assume(kind == 1 || kind == 8)
	x := monkit.NewRegistry().ScopeNamed(a)
	y := monkit.NewRegistry().ScopeNamed(a)
	assert(x != y, "registries share nothing")
	assert(metric(x, kind, name) != metric(y, kind, name), "registries share nothing")
}

// The metric carries its name and tags.
func C13_SeriesOfFunc(name, k, v string) {
	assume(k != "name")
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed(name, monkit.NewSeriesTag(k, v))
	assert(f.ShortName() == name, "a function has its name")
	assert(f.Scope().Name() == "s", "and scope")
}
