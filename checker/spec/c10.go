package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

type watcher struct {
	n    int
	last *monkit.Trace
}

func (w *watcher) watch(t *monkit.Trace) {
	w.n++
	w.last = t
}

// newTrace starts and finishes a span of a trace that is new to the registry.
func newTrace(kind int, f *monkit.Func, ctx context.Context, tid int64) *monkit.Trace {
	exit := begin(kind, f, &ctx, 1, monkit.NewTrace(tid))
	t := monkit.SpanFromCtx(ctx).Trace()
	exit(nil)
	return t
}

func C10_One(kind, kind2 int, tid int64) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	w := &watcher{}
	newTrace(kind, f, context.Background(), tid)
	cancel := r.ObserveTraces(w.watch)
	assert(w.n == 0, "earlier traces are not reported")
	t := newTrace(kind, f, context.Background(), tid)
	assert(w.n == 1 && w.last == t, "the new trace is reported once")
	// a span within a trace is no new trace
	ctx := context.Background()
	exit := f.Task(&ctx)
	assert(w.n == 2, "the new trace is reported once")
	exit2 := f.Task(&ctx)
	assert(w.n == 2, "a child span is no new trace")
	exit2(nil)
	exit(nil)
	assert(w.n == 2, "finishing reports nothing")
	// below another span
	ctx = context.Background()
	f.Task(&ctx)
	if kind2 != 0 {
		t = newTrace(kind2, f, ctx, tid)
		assert(w.n == 4 && w.last == t, "a trace begun below another is reported once")
	}
	n := w.n
	cancel()
	newTrace(kind, f, context.Background(), tid)
	assert(w.n == n, "nothing is reported after cancelling")
	cancel()
	newTrace(kind, f, context.Background(), tid)
	assert(w.n == n, "nothing is reported after cancelling again")
}

func C10_NilPointer(tid int64) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	w := &watcher{}
	r.ObserveTraces(w.watch)
	f.Task(nil)(nil)
	assert(w.n == 1, "the new trace is reported once")
	r.ScopeNamed("other").Task()(nil)(nil)
	assert(w.n == 2, "the new trace is reported once")
}

// Several watchers, registered and cancelled in any order.
func C10_Three(first, second int, again bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	var w [3]watcher
	var c [3]func()
	c[0] = r.ObserveTraces(w[0].watch)
	c[1] = r.ObserveTraces(w[1].watch)
	newTrace(0, f, context.Background(), 0)
	assert(w[0].n == 1 && w[1].n == 1, "both are told, once")
	c[2] = r.ObserveTraces(w[2].watch)
	t := newTrace(0, f, context.Background(), 0)
	assert(w[0].n == 2 && w[1].n == 2 && w[2].n == 1, "all are told, once")
	assert(w[0].last == t && w[1].last == t && w[2].last == t, "about the very trace")
	w[0].n, w[1].n, w[2].n = 0, 0, 0
	i := pick3(first)
	c[i]()
	if again {
		c[i]()
	}
	newTrace(1, f, context.Background(), 0)
	assert(w[i].n == 0, "the cancelled one is told nothing")
	assert(w[(i+1)%3].n == 1 && w[(i+2)%3].n == 1, "the others are told, once")
	j, k := (i+1)%3, (i+2)%3
	if second == 1 {
		j, k = k, j
	}
	c[j]()
	newTrace(0, f, context.Background(), 0)
	assert(w[i].n == 0 && w[j].n == 1, "the cancelled ones are told nothing")
	assert(w[k].n == 2, "the remaining one is told, once")
	var x watcher
	r.ObserveTraces(x.watch)
	newTrace(0, f, context.Background(), 0)
	assert(w[i].n == 0 && w[j].n == 1 && w[k].n == 3 && x.n == 1, "a new one leaves the remaining one in effect")
	c[k]()
	newTrace(0, f, context.Background(), 0)
	assert(w[i].n == 0 && w[j].n == 1 && w[k].n == 3 && x.n == 2, "only the new one is left")
}

// What a watcher attaches to a trace sees the trace's first span.
func C10_BeforeFirstSpan(kind int, tid int64) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	o := &plain{}
	r.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(o) })
	newTrace(kind, f, context.Background(), tid)
	assert(o.starts == 1 && o.finishes == 1, "the first span of the trace is seen")
}

func C10_Registries(kind int, tid int64) {
	r, q := monkit.NewRegistry(), monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	w, x := &watcher{}, &watcher{}
	r.ObserveTraces(w.watch)
	q.ObserveTraces(x.watch)
	newTrace(kind, f, context.Background(), tid)
	assert(w.n == 1 && x.n == 0, "only the registry the trace goes through reports it")
	r.WithTransformers().ScopeNamed("s2").FuncNamed("g").Task(nil)(nil)
	assert(w.n == 2, "a derived registry is the same registry")
}

// ObserveAllTraces: live and future traces, until cancelled.
func C10_All(kind int, tid int64, root bool) {
	assume(kind == 0 || kind == 2)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	exitL := f.Task(&live)
	inner := live
	exitI := f.Task(&inner)
	o := &plain{}
	cancel := collect.ObserveAllTraces(r, o)
	assert(o.starts == 0, "nothing has started yet")
	exitI(nil)
	assert(o.starts == 0 && o.finishes == 1, "a span of a live trace is seen, once")
	ctx := live
	exit := f.Task(&ctx)
	assert(o.starts == 1, "a span of a live trace is seen, once")
	exit(nil)
	assert(o.finishes == 2, "a span of a live trace is seen, once")
	newTrace(kind, f, context.Background(), tid)
	assert(o.starts == 2 && o.finishes == 3, "a span of a new trace is seen, once")
	fut := context.Background()
	exitF := f.Task(&fut)
	assert(o.starts == 3, "a span of a new trace is seen, once")
	cancel()
	exitF(nil)
	exitL(nil)
	assert(o.starts == 3 && o.finishes == 3, "nothing is seen after cancelling")
	newTrace(kind, f, context.Background(), tid)
	assert(o.starts == 3 && o.finishes == 3, "nothing is seen after cancelling")
}

// The same trace adopted twice, or live in two root spans, is observed once.
func C10_AllOnce(tid int64, before bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(tid)
	o := &plain{}
	var cancel func()
	if !before {
		cancel = collect.ObserveAllTraces(r, o)
	}
	ctx, ctx2 := context.Background(), context.Background()
	exit := f.RemoteTrace(&ctx, 1, tr)
	exit2 := f.RemoteTrace(&ctx2, 1, tr)
	if before {
		cancel = collect.ObserveAllTraces(r, o)
	} else {
		assert(o.starts == 2, "each span is seen once")
	}
	exit(nil)
	exit2(nil)
	assert(o.finishes == 2, "each span is seen once")
	exit = f.RemoteTrace(&ctx, 1, tr)
	exit(nil)
	assert(o.finishes == 3, "each span is seen once")
	cancel()
	f.RemoteTrace(&ctx, 1, tr)(nil)
	assert(o.finishes == 3, "nothing is seen after cancelling")
}

// A trace that is just being announced while the observation is cancelled is
// not observed afterwards.
func C10_AllCancelRace(first bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	o := &plain{}
	var cancel func()
	stop := func(*monkit.Trace) {
		if cancel != nil {
			cancel()
		}
	}
	if first {
		r.ObserveTraces(stop)
	}
	cancel = collect.ObserveAllTraces(r, o)
	if !first {
		r.ObserveTraces(stop)
	}
	ctx := context.Background()
	exit := f.Task(&ctx)
	exit2 := f.Task(&ctx)
	exit2(nil)
	exit(nil)
	assert(o.starts == 0 && o.finishes == 0, "nothing is seen after cancelling")
}
