package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

// scopeList collects up to three scopes.
type scopeList struct {
	n int
	s [4]*monkit.Scope
}

func (l *scopeList) take(s *monkit.Scope) {
	if l.n < 4 {
		l.s[l.n] = s
	}
	l.n++
}

func (l *scopeList) count(s *monkit.Scope) (n int) {
	for i := 0; i < 3 && i < l.n; i++ {
		if l.s[i] == s {
			n++
		}
	}
	return n
}

func C15_NoScopes() {
	l := &scopeList{}
	monkit.NewRegistry().Scopes(l.take)
	assert(l.n == 0, "a new registry has no scopes")
}

func C15_Scopes(a, b string) {
	r := monkit.NewRegistry()
	x, y := r.ScopeNamed(a), r.ScopeNamed(b)
	l := &scopeList{}
	r.Scopes(l.take)
	if a == b {
		assert(l.n == 1, "a scope is visited once")
	} else {
		assert(l.n == 2, "every scope is visited once")
		assert(l.s[0].Name() <= l.s[1].Name(), "scopes come sorted by name")
	}
	assert(l.count(x) == 1 && l.count(y) == 1, "every scope is visited once")
}

func C15_ThreeScopes(a, b, c string) {
	assume(a != b)
	assume(b != c)
	assume(a != c)
	r := monkit.NewRegistry()
	x, y, z := r.ScopeNamed(a), r.ScopeNamed(b), r.ScopeNamed(c)
	l := &scopeList{}
	r.WithTransformers().Scopes(l.take)
	assert(l.n == 3, "every scope is visited once")
	assert(l.count(x) == 1 && l.count(y) == 1 && l.count(z) == 1, "every scope is visited once")
	assert(l.s[0].Name() <= l.s[1].Name(), "scopes come sorted by name")
	assert(l.s[1].Name() <= l.s[2].Name(), "scopes come sorted by name")
}

type funcList struct {
	n int
	f [4]*monkit.Func
}

func (l *funcList) take(f *monkit.Func) {
	if l.n < 4 {
		l.f[l.n] = f
	}
	l.n++
}

func (l *funcList) count(f *monkit.Func) (n int) {
	for i := 0; i < 3 && i < l.n; i++ {
		if l.f[i] == f {
			n++
		}
	}
	return n
}

func C15_ScopeFuncs(kind int, a, b, other string) {
	assume(kind != 8)
	sc := monkit.NewRegistry().ScopeNamed("s")
	l := &funcList{}
	sc.Funcs(l.take)
	assert(l.n == 0, "a new scope has no functions")
	f := sc.FuncNamed(a)
	g := sc.FuncNamed(b)
	metric(sc, kind, other)
	sc.Funcs(l.take)
	if a == b {
		assert(l.n == 1, "a function is visited once")
	} else {
		assert(l.n == 2, "every function is visited once, and nothing else")
	}
	assert(l.count(f) == 1 && l.count(g) == 1, "every function is visited once")
}

func C15_Funcs(a, b, c string) {
	r := monkit.NewRegistry()
	s, t := r.ScopeNamed("s"), r.ScopeNamed("t")
	assume(a != c)
	f, g, h := s.FuncNamed(a), t.FuncNamed(b), s.FuncNamed(c)
	l := &funcList{}
	r.Funcs(l.take)
	assert(l.n == 3, "every function of every scope is visited once")
	assert(l.count(f) == 1 && l.count(g) == 1 && l.count(h) == 1, "every function of every scope is visited once")
}

// statList collects stats.
type statList struct {
	n int
	s [4]stat
}

func (l *statList) take(key monkit.SeriesKey, field string, val float64) {
	if l.n < 4 {
		l.s[l.n] = stat{key, field, val}
	}
	l.n++
}

// arrived: the value arrived as it was emitted, with the name of the scope.
func (l *statList) arrived(i int, in stat, scope string) bool {
	got := l.s[i]
	return got.key.Measurement == in.key.Measurement && got.field == in.field && got.val == in.val &&
		got.key.Tags.Get("scope") == scope && got.key.Tags.Get("own") == in.key.Tags.Get("own") && got.key.Tags.Len() == in.key.Tags.Len()+1
}

func C15_Chains(scope, m1, m2, t1, t2, f1, f2 string, v1, v2 float64) {
	sc := monkit.NewRegistry().ScopeNamed(scope)
	l := &statList{}
	sc.Stats(l.take)
	assert(l.n == 0, "an empty scope has no stats")
	a := stat{monkit.NewSeriesKey(m1).WithTag("own", t1), f1, v1}
	b := stat{monkit.NewSeriesKey(m2).WithTag("own", t2), f2, v2}
	sc.Chain(&source{a})
	sc.Stats(l.take)
	assert(l.n == 1 && l.arrived(0, a, scope), "the value of a chained source arrives with the scope's name added")
	sc.Chain(&source{b})
	l = &statList{}
	sc.Stats(l.take)
	assert(l.n == 2, "every chained source is visited once")
	assert(l.arrived(0, a, scope) && l.arrived(1, b, scope) || l.arrived(0, b, scope) && l.arrived(1, a, scope), "and its values arrive with the scope's name added")
	assert(a.key.Tags.Len() == 1, "the key of the source is unchanged")
}

// Registered metrics, gauges and chained sources are all visited.
func C15_Sources(scope, name, m, f string, x, v float64) {
	sc := monkit.NewRegistry().ScopeNamed(scope)
	assume(name != "other")
	calls := 0
	sc.Gauge(name, func() float64 { calls++; return x })
	a := stat{monkit.NewSeriesKey(name), "value", x}
	b := stat{monkit.NewSeriesKey(m), f, v}
	sc.Chain(&source{b})
	l := &statList{}
	sc.Stats(l.take)
	assert(calls == 1, "a gauge is read once")
	assert(l.n == 2, "the gauge and the chained source are visited once")
	assert(l.arrived(0, a, scope) && l.arrived(1, b, scope) || l.arrived(0, b, scope) && l.arrived(1, a, scope), "and their values arrive with the scope's name added")
	y := 2.5
	sc.Gauge("other", func() float64 { return y })
	l = &statList{}
	sc.Stats(l.take)
	assert(l.n == 3, "every registered source is visited once")
	c := stat{monkit.NewSeriesKey("other"), "value", y}
	// the registered sources in any order, then the chained ones
	assert(l.arrived(2, b, scope) && (l.arrived(0, a, scope) && l.arrived(1, c, scope) || l.arrived(0, c, scope) && l.arrived(1, a, scope)) ||
		l.arrived(0, b, scope) && (l.arrived(1, a, scope) && l.arrived(2, c, scope) || l.arrived(1, c, scope) && l.arrived(2, a, scope)) ||
		l.arrived(1, b, scope) && (l.arrived(0, a, scope) && l.arrived(2, c, scope) || l.arrived(0, c, scope) && l.arrived(2, a, scope)), "each with its own value")
}

// A metric created through a scope is among the scope's sources.
func C15_Metrics(kind int, name string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	metric(sc, kind, name)
	seen, all := 0, 0
	sc.Stats(func(key monkit.SeriesKey, field string, val float64) {
		all++
		if key.Tags.Get("scope") == "s" {
			seen++
		}
	})
	if kind != 4 {
		assert(seen >= 1, "every metric is among the stats of its scope")
	}
	assert(seen == all, "with the scope's name added")
}

func C15_Registry(m1, m2, f1, f2, other string, v1, v2 float64) {
	r := monkit.NewRegistry()
	assume(other != "s")
	s, t := r.ScopeNamed("s"), r.ScopeNamed(other)
	a := stat{monkit.NewSeriesKey(m1), f1, v1}
	b := stat{monkit.NewSeriesKey(m2), f2, v2}
	s.Chain(&source{a})
	t.Chain(&source{b})
	l := &statList{}
	r.Stats(l.take)
	assert(l.n == 2, "every scope is visited once")
	if "s" < other {
		assert(l.arrived(0, a, "s") && l.arrived(1, b, other), "the values of every scope arrive with its name added, in the order of the scopes")
	} else {
		assert(l.arrived(1, a, "s") && l.arrived(0, b, other), "the values of every scope arrive with its name added, in the order of the scopes")
	}
}

// spanList collects spans.
type spanList struct {
	n int
	s [6]*monkit.Span
}

func (l *spanList) take(s *monkit.Span) {
	if l.n < 6 {
		l.s[l.n] = s
	}
	l.n++
}

func (l *spanList) count(s *monkit.Span) (n int) {
	for i := 0; i < 5 && i < l.n; i++ {
		if l.s[i] == s {
			n++
		}
	}
	return n
}

func (l *spanList) pos(s *monkit.Span) int {
	for i := 0; i < 5 && i < l.n; i++ {
		if l.s[i] == s {
			return i
		}
	}
	return -1
}

// before: the order of sibling spans.
func before(a, b *monkit.Span) bool {
	x, y := a.Func().FullName(), b.Func().FullName()
	return x < y || x == y && !(b.Id() < a.Id())
}

func run(sc *monkit.Scope, name string, ctx context.Context) (context.Context, *monkit.Span, func(*error)) {
	exit := sc.FuncNamed(name).Task(&ctx)
	return ctx, monkit.SpanFromCtx(ctx), exit
}

func C15_RootSpans(a, b string) {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	l := &spanList{}
	r.RootSpans(l.take)
	assert(l.n == 0, "a new registry has no spans")
	_, x, _ := run(sc, a, context.Background())
	_, y, _ := run(sc, b, context.Background())
	r.RootSpans(l.take)
	assert(l.n == 2 && l.count(x) == 1 && l.count(y) == 1, "every root span is visited once")
	assert(before(l.s[0], l.s[1]), "root spans come sorted")
}

func C15_Orphans(a, b, c string) {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	ctx, p, exit := run(sc, a, context.Background())
	_, x, _ := run(sc, b, ctx)
	_, y, _ := run(sc, c, context.Background())
	exit(nil)
	l := &spanList{}
	r.RootSpans(l.take)
	assert(l.n == 2 && l.count(x) == 1 && l.count(y) == 1 && l.count(p) == 0, "root spans and orphans are visited once")
	assert(before(l.s[0], l.s[1]), "root spans come sorted")
}

func C15_Children(a, b string) {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	ctx, p, _ := run(sc, "p", context.Background())
	l := &spanList{}
	p.Children(l.take)
	assert(l.n == 0, "a new span has no children")
	_, x, _ := run(sc, a, ctx)
	_, y, _ := run(sc, b, ctx)
	p.Children(l.take)
	assert(l.n == 2 && l.count(x) == 1 && l.count(y) == 1, "every child is visited once")
	assert(before(l.s[0], l.s[1]), "children come sorted")
}

func C15_AllSpans() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	ctx1, a, exit := run(sc, "a", context.Background())
	ctx2, b, _ := run(sc, "b", ctx1)
	_, c, _ := run(sc, "c", ctx2)
	l := &spanList{}
	r.AllSpans(l.take)
	assert(l.n == 3 && l.s[0] == a && l.s[1] == b && l.s[2] == c, "every descendant is visited once, after its parent")
	exit(nil)
	l = &spanList{}
	r.AllSpans(l.take)
	assert(l.n == 2 && l.s[0] == b && l.s[1] == c, "and so are orphans and their descendants")
}

func C15_AllSpansTree() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	ctx, a, _ := run(sc, "a", context.Background())
	_, b, _ := run(sc, "b", ctx)
	_, c, _ := run(sc, "c", ctx)
	_, d, _ := run(sc, "d", context.Background())
	l := &spanList{}
	r.AllSpans(l.take)
	assert(l.n == 4 && l.count(a) == 1 && l.count(b) == 1 && l.count(c) == 1 && l.count(d) == 1, "every span is visited once")
	assert(l.pos(a) < l.pos(b) && l.pos(b) < l.pos(c) && l.pos(c) < l.pos(d), "siblings in order, each with its descendants")
}

// A source cannot pass for one of another scope.
func C15_OwnScopeTag(scope, m, own string, v float64) {
	sc := monkit.NewRegistry().ScopeNamed(scope)
	sc.Chain(&source{stat{monkit.NewSeriesKey(m).WithTag("scope", own), "f", v}})
	l := &statList{}
	sc.Stats(l.take)
	assert(l.n == 1 && l.s[0].key.Tags.Get("scope") == scope && l.s[0].key.Tags.Len() == 1, "the scope tag is the scope's name")
}

// The functions of the package work on the default registry.
func C15_Default(name, fn string, v float64) {
	a := stat{monkit.NewSeriesKey("m"), "f", v}
	sc := monkit.ScopeNamed(name)
	sc.Chain(&source{a})
	assert(monkit.Default.ScopeNamed(name) == sc, "scopes belong to the default registry")
	l := &scopeList{}
	monkit.Scopes(l.take)
	assert(l.n == 1 && l.s[0] == sc, "all scopes of the default registry are visited")
	t := &statList{}
	monkit.Stats(t.take)
	assert(t.n == 1 && t.arrived(0, a, name), "all stats of the default registry are visited")
	f := sc.FuncNamed(fn)
	g := &funcList{}
	monkit.Funcs(g.take)
	assert(g.n == 1 && g.f[0] == f, "all functions of the default registry are visited")
	ctx := context.Background()
	f.Task(&ctx)
	r := monkit.SpanFromCtx(ctx)
	f.Task(&ctx)
	p := &spanList{}
	monkit.RootSpans(p.take)
	assert(p.n == 1 && p.s[0] == r, "all root spans of the default registry are visited")
}
