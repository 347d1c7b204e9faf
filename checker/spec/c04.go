package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

type ctxTag int

// rootsOf counts how often a span is among the root spans, and how many there
// are.
func rootsOf(r *monkit.Registry, s *monkit.Span) (n, all int) {
	r.RootSpans(func(x *monkit.Span) {
		all++
		if x == s {
			n++
		}
	})
	return n, all
}

func childrenOf(p *monkit.Span, s *monkit.Span) (n, all int) {
	p.Children(func(x *monkit.Span) {
		all++
		if x == s {
			n++
		}
	})
	return n, all
}

func parentsOf(f *monkit.Func, g *monkit.Func) (n, all int) {
	f.Parents(func(x *monkit.Func) {
		all++
		if x == g {
			n++
		}
	})
	return n, all
}

// begin starts a span in one of the possible ways.
func begin(kind int, f *monkit.Func, ctx *context.Context, id int64, tr *monkit.Trace) func(*error) {
	switch kind {
	case 0:
		return f.Task(ctx)
	case 1:
		return f.ResetTrace(ctx)
	}
	assume(kind == 2)
	return f.RemoteTrace(ctx, id, tr)
}

// someCtx is one of the shapes a context can have: none, plain, a span, or
// something wrapped around a span.
func someCtx(shape int, val interface{}) context.Context {
	switch shape {
	case 0:
		return nil
	case 1:
		return context.Background()
	}
	ctx := context.Background()
	monkit.NewRegistry().ScopeNamed("s").FuncNamed("caller").Task(&ctx)
	if shape == 2 {
		return ctx
	}
	assume(shape == 3)
	return context.WithValue(ctx, ctxTag(1), val)
}

// finish ends it in one of the possible ways.
func finish(exit func(*error), how int, err error, val interface{}) {
	switch how {
	case 0:
		exit(nil)
	case 1:
		exit(&err)
	default:
		assume(how == 2 && val != nil)
		func() {
			defer func() { recover() }()
			defer exit(&err)
			panic(val)
		}()
	}
}

// The number of running calls, for any function in any state, started in any
// way from any context, whatever the outcome.
func C04_Current(f, g *monkit.Func, shape int, v interface{}, kind int, id int64, how int, err error, val interface{}) {
	assume(f != g)
	tr := monkit.NewTrace(id)
	ctx := someCtx(shape, v)
	c0, h0 := f.Current(), f.Highwater()
	gc, gh := g.Current(), g.Highwater()
	exit := begin(kind, f, &ctx, id, tr)
	c1 := f.Current()
	assert(c1 == c0+1, "one more call runs")
	if c1 > h0 {
		assert(f.Highwater() == c1, "a new highest concurrency is noted")
	} else {
		assert(f.Highwater() == h0, "the highest concurrency stays")
	}
	h1 := f.Highwater()
	finish(exit, how, err, val)
	assert(f.Current() == c0, "the call no longer runs")
	assert(f.Highwater() == h1, "finishing does not change the highest concurrency")
	assert(g.Current() == gc && g.Highwater() == gh, "other functions are not affected")
}

func C04_CurrentObserve(f, g *monkit.FuncStats, how int, err error, val interface{}) {
	assume(f != g)
	c0, h0 := f.Current(), f.Highwater()
	gc, gh := g.Current(), g.Highwater()
	exit := f.Observe()
	c1 := f.Current()
	assert(c1 == c0+1, "one more call runs")
	if c1 > h0 {
		assert(f.Highwater() == c1, "a new highest concurrency is noted")
	} else {
		assert(f.Highwater() == h0, "the highest concurrency stays")
	}
	h1 := f.Highwater()
	finish(exit, how, err, val)
	assert(f.Current() == c0, "the call no longer runs")
	assert(f.Highwater() == h1, "finishing does not change the highest concurrency")
	assert(g.Current() == gc && g.Highwater() == gh, "other functions are not affected")
}

func C04_CurrentScopeTask(shape int, v interface{}, how int, err error, val interface{}) {
	t := monkit.NewRegistry().ScopeNamed("s").Task()
	ctx := someCtx(shape, v)
	exit := t(&ctx)
	f := monkit.SpanFromCtx(ctx).Func()
	assert(f.Current() == 1 && f.Highwater() == 1, "one call runs")
	ctx2 := ctx
	exit2 := t(&ctx2)
	assert(monkit.SpanFromCtx(ctx2).Func() == f, "a task is about one function")
	assert(f.Current() == 2 && f.Highwater() == 2, "one more call runs")
	finish(exit2, how, err, val)
	assert(f.Current() == 1 && f.Highwater() == 2, "one call still runs")
	finish(exit, how, err, val)
	assert(f.Current() == 0 && f.Highwater() == 2, "no call runs")
	exit = t(nil)
	assert(f.Current() == 1 && f.Highwater() == 2, "one call runs again")
	exit(nil)
	assert(f.Current() == 0 && f.Highwater() == 2, "no call runs")
}

// The spans of a trace: a span of the parent's trace, of a new trace, of a
// given trace.
func C04_TraceInherited(f *monkit.Func, wrapped bool, v interface{}, id int64, how int, err error, val interface{}) {
	ctx := someCtx(2, v)
	tr := monkit.SpanFromCtx(ctx).Trace()
	other := monkit.NewTrace(id)
	if wrapped {
		ctx = context.WithValue(ctx, ctxTag(1), v)
	}
	assert(tr.Spans() == 1 && other.Spans() == 0, "before")
	exit := f.Task(&ctx)
	assert(tr.Spans() == 2, "the trace has one more span")
	exit2 := f.Task(&ctx)
	assert(tr.Spans() == 3, "the trace has one more span")
	assert(other.Spans() == 0, "other traces are not affected")
	finish(exit2, how, err, val)
	assert(tr.Spans() == 2, "the trace has one span less")
	exit(&err)
	assert(tr.Spans() == 1, "the trace has one span less")
	assert(other.Spans() == 0, "other traces are not affected")
}

func C04_TraceFresh(f *monkit.Func, reset bool, shape int, v interface{}, how int, err error, val interface{}) {
	pctx := someCtx(2, nil)
	tr := monkit.SpanFromCtx(pctx).Trace()
	ctx := context.Background()
	var exit func(*error)
	if reset {
		ctx = pctx
		exit = f.ResetTrace(&ctx)
	} else {
		exit = f.Task(&ctx)
	}
	nt := monkit.SpanFromCtx(ctx).Trace()
	assert(nt != tr, "the trace is new")
	assert(nt.Spans() == 1, "the new trace has one span")
	assert(tr.Spans() == 1, "other traces are not affected")
	finish(exit, how, err, val)
	assert(nt.Spans() == 0, "the new trace has no span left")
	assert(tr.Spans() == 1, "other traces are not affected")
}

func C04_TraceRemote(f *monkit.Func, shape int, v interface{}, id, tid int64, how int, err error, val interface{}) {
	tr := monkit.NewTrace(tid)
	ctx := someCtx(shape, v)
	var old *monkit.Trace
	if shape >= 2 {
		old = monkit.SpanFromCtx(ctx).Trace()
	}
	exit := f.RemoteTrace(&ctx, id, tr)
	assert(tr.Spans() == 1, "the trace has one more span")
	exit2 := f.Task(&ctx)
	assert(tr.Spans() == 2, "the trace has one more span")
	finish(exit2, how, err, val)
	assert(tr.Spans() == 1, "the trace has one span less")
	finish(exit, how, err, val)
	assert(tr.Spans() == 0, "the trace has one span less")
	if old != nil {
		assert(old.Spans() == 1, "other traces are not affected")
	}
}

// Findability: root spans.
func C04_FindRoots(kind0, kind1 int, id, tid int64, order bool, how int, err error, val interface{}) {
	tr := monkit.NewTrace(tid)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	_, all := rootsOf(r, nil)
	assert(all == 0, "a new registry has no spans")
	ctx0, ctx1 := context.Background(), context.Background()
	exit0 := begin(kind0, f, &ctx0, id, tr)
	exit1 := begin(kind1, f, &ctx1, id, tr)
	s0, s1 := monkit.SpanFromCtx(ctx0), monkit.SpanFromCtx(ctx1)
	if order {
		exit0, exit1, s0, s1 = exit1, exit0, s1, s0
	}
	n0, all := rootsOf(r, s0)
	n1, _ := rootsOf(r, s1)
	assert(n0 == 1 && n1 == 1 && all == 2, "both running spans are root spans, once")
	finish(exit0, how, err, val)
	n0, all = rootsOf(r, s0)
	n1, _ = rootsOf(r, s1)
	assert(n0 == 0 && n1 == 1 && all == 1, "only the running span is a root span")
	finish(exit1, how, err, val)
	_, all = rootsOf(r, nil)
	assert(all == 0, "a finished span is no root span")
}

// A remote or reset span has no local parent: it is a root span even when it is
// started from a context with a span.
func C04_FindDetached(kind int, id, tid int64, how int, err error, val interface{}) {
	assume(kind != 0)
	tr := monkit.NewTrace(tid)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	ctx0 := context.Background()
	exit0 := f.Task(&ctx0)
	ctx1 := ctx0
	exit1 := begin(kind, f, &ctx1, id, tr)
	s0, s1 := monkit.SpanFromCtx(ctx0), monkit.SpanFromCtx(ctx1)
	n1, all := rootsOf(r, s1)
	assert(n1 == 1 && all == 2, "a detached span is a root span")
	_, all = childrenOf(s0, s1)
	assert(all == 0, "a detached span is no child")
	finish(exit1, how, err, val)
	n0, all := rootsOf(r, s0)
	assert(n0 == 1 && all == 1, "it is gone when finished")
	exit0(nil)
	_, all = rootsOf(r, s0)
	assert(all == 0, "it is gone when finished")
}

// Findability: children, started and finished in any order, up to three at a
// time.
func C04_FindChildren(order int, mid bool, how int, err error, val interface{}) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	exit := f.Task(&ctx)
	p := monkit.SpanFromCtx(ctx)
	_, all := childrenOf(p, nil)
	assert(all == 0, "a new span has no children")
	ctxA, ctxB, ctxC := ctx, ctx, ctx
	exitA := f.Task(&ctxA)
	exitB := f.Task(&ctxB)
	a, b := monkit.SpanFromCtx(ctxA), monkit.SpanFromCtx(ctxB)
	na, all := childrenOf(p, a)
	nb, _ := childrenOf(p, b)
	assert(na == 1 && nb == 1 && all == 2, "both running children are listed, once")
	if order&1 != 0 {
		exitA, exitB, a, b = exitB, exitA, b, a
	}
	if mid {
		finish(exitA, how, err, val)
		na, all = childrenOf(p, a)
		nb, _ = childrenOf(p, b)
		assert(na == 0 && nb == 1 && all == 1, "only the running child is listed")
	}
	exitC := f.Task(&ctxC)
	c := monkit.SpanFromCtx(ctxC)
	nc, all := childrenOf(p, c)
	na, _ = childrenOf(p, a)
	nb, _ = childrenOf(p, b)
	assert(nc == 1 && nb == 1, "the running children are listed, once")
	if mid {
		assert(na == 0 && all == 2, "a finished child is not listed")
	} else {
		assert(na == 1 && all == 3, "all running children are listed")
		finish(exitA, how, err, val)
	}
	if order&2 != 0 {
		exitC, exitB, c, b = exitB, exitC, b, c
	}
	finish(exitB, how, err, val)
	nc, all = childrenOf(p, c)
	assert(nc == 1 && all == 1, "only the running child is listed")
	finish(exitC, how, err, val)
	_, all = childrenOf(p, nil)
	assert(all == 0, "no child is listed when all have finished")
	n, all := rootsOf(r, p)
	assert(n == 1 && all == 1, "children are no root spans")
	exit(nil)
	_, all = rootsOf(r, nil)
	assert(all == 0, "nothing is listed at the end")
}

// The calling functions.
func C04_Parents(how int, err error, val interface{}) {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
	_, all := parentsOf(f, nil)
	assert(all == 0, "nothing called the function yet")
	ctx := context.Background()
	exit := f.Task(&ctx)
	n, all := parentsOf(f, nil)
	assert(n == 1 && all == 1, "the entry is a parent, once")
	finish(exit, how, err, val)
	ctx = context.Background()
	exit = f.Task(&ctx)
	n, all = parentsOf(f, nil)
	assert(n == 1 && all == 1, "the entry is a parent, once")
	exit(nil)
	n, all = parentsOf(g, nil)
	assert(all == 0, "nothing called the other function yet")
}

func C04_ParentsCaller() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
	ctx := context.Background()
	exit0 := f.Task(&ctx)
	exit0(nil)
	ctx = context.Background()
	exit := g.Task(&ctx)
	ctx1 := ctx
	exit1 := f.Task(&ctx1)
	n, all := parentsOf(f, g)
	m, _ := parentsOf(f, nil)
	assert(n == 1 && m == 1 && all == 2, "the caller is a parent, once, and the entry still is")
	exit1(nil)
	ctx1 = ctx
	exit1 = f.Task(&ctx1)
	n, all = parentsOf(f, g)
	m, _ = parentsOf(f, nil)
	assert(n == 1 && m == 1 && all == 2, "the caller is a parent, once, and the entry still is")
	exit1(nil)
	exit(nil)
	n, all = parentsOf(g, nil)
	assert(n == 1 && all == 1, "the parent of another function")
}

func C04_ParentsThree() {
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
	ctx := context.Background()
	exit := g.Task(&ctx)
	exit2 := f.Task(&ctx)
	exit3 := f.Task(&ctx)
	nf, all := parentsOf(f, f)
	ng, _ := parentsOf(f, g)
	assert(nf == 1 && ng == 1 && all == 2, "a recursive function is its own parent")
	exit4 := f.ResetTrace(&ctx)
	n, all := parentsOf(f, nil)
	assert(n == 1 && all == 3, "and the entry is a third one")
	exit4(nil)
	exit3(nil)
	exit2(nil)
	exit(nil)
}

// The calling function comes first: an entry that is the second kind of caller.
func C04_ParentsEntryLater(kind int, id, tid int64) {
	assume(kind != 0)
	tr := monkit.NewTrace(tid)
	r := monkit.NewRegistry()
	sc := r.ScopeNamed("s")
	f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
	ctx := context.Background()
	exit := g.Task(&ctx)
	ctx2 := ctx
	exit2 := f.Task(&ctx2)
	n, all := parentsOf(f, g)
	assert(n == 1 && all == 1, "the caller is a parent")
	exit3 := begin(kind, f, &ctx, id, tr)
	n, all = parentsOf(f, nil)
	assert(n == 1 && all == 2, "the entry is a parent too")
	exit3(nil)
	exit2(nil)
	exit(nil)
}

// The parent finishes first.
func C04_FindChildOfFinished(how int, err error, val interface{}) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	exit := f.Task(&ctx)
	p := monkit.SpanFromCtx(ctx)
	exitA := f.Task(&ctx)
	a := monkit.SpanFromCtx(ctx)
	finish(exit, how, err, val)
	n, all := childrenOf(p, a)
	assert(n == 1 && all == 1, "a running child stays listed with its parent")
	finish(exitA, how, err, val)
	n, all = childrenOf(p, a)
	assert(n == 0 && all == 0, "a finished child is not listed")
	_, all = rootsOf(r, nil)
	assert(all == 0, "a finished span is no root span")
	assert(f.Current() == 0, "no call runs")
	assert(p.Trace().Spans() == 0, "the trace has no spans left")
}
