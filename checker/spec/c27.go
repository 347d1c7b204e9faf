package zzverifspec

import (
	"context"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

// watchCtx is a context that ends when it is told to.
type watchCtx struct {
	context.Context
	done chan struct{}
	err  error
}

func newWatch() *watchCtx {
	return &watchCtx{Context: context.Background(), done: make(chan struct{})}
}

func (w *watchCtx) Done() <-chan struct{} { return w.done }
func (w *watchCtx) Err() error            { return w.err }

func (w *watchCtx) end(err error) {
	w.err = err
	close(w.done)
}

// settle runs the other activity that has not come in between.
func settle() {
	for i := 0; i < 3; i++ {
		if interrupt == nil {
			return
		}
		f := interrupt
		interrupt = nil
		f()
	}
}

func closed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func C27_WatchMatch(kind int, err error, tid int64) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	f.Task(&live)
	var matched *monkit.Span
	calls := 0
	tries := 0
	var activity func()
	activity = func() {
		ctx := context.Background()
		exit := begin(kind, f, &ctx, 1, monkit.NewTrace(tid))
		exit(&err)
		if tries++; matched == nil && tries < 8 {
			interrupt = activity
		}
	}
	interrupt = activity
	spans, e := collect.WatchForSpans(newWatch(), r, func(s *monkit.Span) bool {
		calls++
		matched = s
		return true
	})
	assert(e == nil, "a completed match is no error")
	assert(len(spans) == 1 && spans[0].Span == matched, "the matched span is listed")
	assert(spans[0].Err == err && !spans[0].Panicked, "with its own outcome")
	assert(calls == 1, "the matcher is asked no more")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(live).Trace(), "collect"), "nothing is left in a live trace")
	assert(!leftIn(matched.Trace(), "collect"), "nothing is left in the matched trace")
	interrupt = nil
	f.Task(nil)(nil)
	assert(calls == 1, "the matcher is asked no more")
}

func C27_WatchLive(err error) {
	r := monkit.NewRegistry()
	f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
	live := context.Background()
	exitL := f.Task(&live)
	var matched *monkit.Span
	tries := 0
	var activity func()
	activity = func() {
		ctx := live
		exit := g.Task(&ctx)
		inner := ctx
		exitI := f.Task(&inner)
		exitI(nil)
		exit(&err)
		if tries++; matched == nil && tries < 8 {
			interrupt = activity
		}
	}
	interrupt = activity
	spans, e := collect.WatchForSpans(newWatch(), r, func(s *monkit.Span) bool {
		if s.Func() == g {
			matched = s
			return true
		}
		return false
	})
	assert(e == nil, "a completed match is no error")
	assert(len(spans) == 2 && spans[0].Span == matched && spans[0].Err == err, "the matched span is listed")
	p, ok := spans[1].Span.ParentId()
	assert(ok && p == matched.Id() && spans[1].Err == nil, "and the one below it")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(matched.Trace(), "collect"), "nothing is left in the trace")
	interrupt = nil
	exitL(nil)
}

// A trace that begins while the watch is set up and goes on.
func C27_WatchBegun(kind int, err error) {
	assume(kind != 1)
	r := monkit.NewRegistry()
	f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
	ctx := context.Background()
	var matched *monkit.Span
	calls := 0
	tries := 0
	var activity func()
	activity = func() {
		c := ctx
		exit := g.Task(&c)
		f.Task(&c)(nil)
		exit(&err)
		if tries++; matched == nil && tries < 8 {
			interrupt = activity
		}
	}
	interrupt = func() {
		begin(kind, f, &ctx, 1, monkit.NewTrace(1))
		interrupt = activity
	}
	spans, e := collect.WatchForSpans(newWatch(), r, func(s *monkit.Span) bool {
		if s.Func() == g {
			calls++
			matched = s
			return true
		}
		return false
	})
	assert(e == nil && len(spans) == 2 && spans[0].Span == matched && spans[0].Err == err, "the spans are listed")
	assert(calls == 1, "each span is shown once")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(matched.Trace(), "collect"), "nothing is left in the trace")
}

func C27_WatchEnds(why error, before bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	f.Task(&live)
	w := newWatch()
	if before {
		w.end(why)
	} else {
		interrupt = func() { w.end(why) }
	}
	calls := 0
	spans, e := collect.WatchForSpans(w, r, func(s *monkit.Span) bool {
		calls++
		return true
	})
	assert(len(spans) == 0 && e == why, "the reason the context ended is returned")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(live).Trace(), "collect"), "nothing is left in a live trace")
	f.Task(&live)(nil)
	f.Task(nil)(nil)
	assert(calls == 0, "the matcher is asked no more")
}

// The match and the end of the context, in either order.
func C27_WatchBoth(why, err error, first bool) {
	assume(why != nil)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	w := newWatch()
	var matched *monkit.Span
	act := func() {
		ctx := context.Background()
		f.Task(&ctx)(&err)
	}
	if first {
		interrupt = func() {
			act()
			interrupt = func() { w.end(why) }
		}
	} else {
		interrupt = func() {
			w.end(why)
			interrupt = act
		}
	}
	spans, e := collect.WatchForSpans(w, r, func(s *monkit.Span) bool {
		matched = s
		return true
	})
	if e != nil {
		assert(e == why && w.err == why && len(spans) == 0, "the reason the context ended is returned")
	} else {
		assert(len(spans) == 1 && spans[0].Span == matched && spans[0].Err == err, "the matched span is listed")
	}
	settle()
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	if matched != nil {
		assert(!leftIn(matched.Trace(), "collect"), "nothing is left in the matched trace")
	}
}

// The context ends while the matched span is running.
func C27_WatchHalf(why error) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	w := newWatch()
	ctx := context.Background()
	var exit func(*error)
	interrupt = func() {
		exit = f.Task(&ctx)
		interrupt = func() { w.end(why) }
	}
	spans, e := collect.WatchForSpans(w, r, func(s *monkit.Span) bool { return true })
	assert(len(spans) == 0 && e == why, "the reason the context ended is returned")
	settle()
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(ctx).Trace(), "collect"), "nothing is left in the trace")
	exit(nil)
}

func C27_Find(kind int, tid int64) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	f.Task(&live)
	var matched *monkit.Span
	calls := 0
	tries := 0
	var activity func()
	activity = func() {
		ctx := context.Background()
		exit := begin(kind, f, &ctx, 1, monkit.NewTrace(tid))
		if tries++; matched == nil && tries < 8 {
			interrupt = activity
		}
		exit(nil)
	}
	interrupt = activity
	collect.FindSpan(newWatch(), r, func(s *monkit.Span) bool {
		calls++
		matched = s
		return true
	})
	interrupt = nil
	assert(matched != nil && calls == 1, "it ends with the first match")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(live).Trace(), "collect"), "nothing is left in a live trace")
	assert(!leftIn(matched.Trace(), "collect"), "nothing is left in the matched trace")
	f.Task(&live)(nil)
	f.Task(nil)(nil)
	assert(calls == 1, "the matcher is asked no more")
}

func C27_FindEnds(why error, before bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	f.Task(&live)
	w := newWatch()
	end := func() {
		f.Task(&live)(nil)
		w.end(why)
	}
	if before {
		end()
	} else {
		interrupt = end
	}
	after, late := false, 0
	collect.FindSpan(w, r, func(s *monkit.Span) bool {
		if after {
			late++
		}
		return false
	})
	after = true
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(live).Trace(), "collect"), "nothing is left in a live trace")
	f.Task(&live)(nil)
	f.Task(nil)(nil)
	assert(late == 0, "the matcher is asked no more")
	collect.FindSpan(newWatch(), r, nil)
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
}

func C27_Collect(err error, kind int) {
	r := monkit.NewRegistry()
	f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("t").FuncNamed("g")
	ctx := context.Background()
	begin(kind, f, &ctx, 1, monkit.NewTrace(1))
	s := monkit.SpanFromCtx(ctx)
	calls := 0
	var inner, child *monkit.Span
	spans := collect.CollectSpans(ctx, func(ctx context.Context) {
		calls++
		inner = monkit.SpanFromCtx(ctx)
		exit := g.Task(&ctx)
		child = monkit.SpanFromCtx(ctx)
		exit(&err)
	})
	assert(calls == 1, "the work is done once")
	pid, ok := inner.ParentId()
	assert(inner != s && ok && pid == s.Id(), "in a span of its own")
	assert(len(spans) == 2 && spans[0].Span == inner && spans[1].Span == child, "the work's spans are listed")
	assert(spans[1].Err == err && !spans[1].Panicked, "with their own outcome")
	assert(spans[0].Err == nil && !spans[0].Panicked, "with their own outcome")
	assert(!leftIn(r, "collect") && !leftIn(s.Trace(), "collect"), "nothing is left")
}

func C27_CollectPanics(kind int, v interface{}) {
	assume(v != nil)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	begin(kind, f, &ctx, 1, monkit.NewTrace(1))
	s := monkit.SpanFromCtx(ctx)
	func() {
		defer func() { assert(recover() == v, "the panic passes") }()
		collect.CollectSpans(ctx, func(ctx context.Context) { panic(v) })
		unreachable()
	}()
	assert(!leftIn(r, "collect") && !leftIn(s.Trace(), "collect"), "nothing is left")
}

func C27_CollectNoSpan(v interface{}) {
	ctx := context.WithValue(context.Background(), ctxTag(1), v)
	calls := 0
	spans := collect.CollectSpans(ctx, func(c context.Context) {
		calls++
		assert(c == ctx, "the work gets the context")
	})
	assert(calls == 1 && len(spans) == 0, "the work is done once, and nothing collected")
}

// fam is a span, a child and a grandchild of it, a sibling and a stranger.
type fam struct{ end, child, grand, sibling, stranger *monkit.Span }

func family() *fam {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	root := context.Background()
	f.Task(&root)
	x := &fam{}
	ctx := root
	f.Task(&ctx)
	x.end = monkit.SpanFromCtx(ctx)
	f.Task(&ctx)
	x.child = monkit.SpanFromCtx(ctx)
	f.Task(&ctx)
	x.grand = monkit.SpanFromCtx(ctx)
	ctx = root
	f.Task(&ctx)
	x.sibling = monkit.SpanFromCtx(ctx)
	ctx = context.Background()
	f.RemoteTrace(&ctx, x.end.Id(), monkit.NewTrace(monkit.NewId()))
	x.stranger = monkit.SpanFromCtx(ctx)
	return x
}

func C27_Contents(e1, e2, e3 error, p1, p2, p3 bool, t1, t2, t3 time.Time, force bool) {
	x := family()
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s == x.end })
	c.Start(x.sibling)
	c.Finish(x.grand, nil, false, t1)
	assert(len(c.Spans()) == 0 && !closed(c.Done()), "nothing is collected yet")
	if force {
		c.ForceStart(x.end)
	} else {
		c.Start(x.end)
	}
	c.Start(x.end)
	c.Start(x.child)
	c.Finish(x.grand, e3, p3, t3)
	c.Finish(x.stranger, e3, p3, t3)
	c.Finish(x.sibling, e3, p3, t3)
	c.Finish(x.child, e2, p2, t2)
	assert(len(c.Spans()) == 0 && !closed(c.Done()), "nothing is listed before the end")
	c.Finish(x.end, e1, p1, t1)
	assert(closed(c.Done()), "completion is signalled")
	s := c.Spans()
	assert(len(s) == 3 && s[0].Span == x.end && s[1].Span == x.child && s[2].Span == x.grand, "the spans below the end span are listed")
	assert(s[0].Err == e1 && s[1].Err == e2 && s[2].Err == e3, "with their own error")
	assert(s[0].Panicked == p1 && s[1].Panicked == p2 && s[2].Panicked == p3, "with their own panic flag")
	assert(identical(s[0].Finish, t1) && identical(s[1].Finish, t2) && identical(s[2].Finish, t3), "with their own finish time")
	c.Start(x.end)
	c.ForceStart(x.end)
	c.Finish(x.sibling, e2, p2, t2)
	c.Finish(x.child, e2, p2, t2)
	c.Finish(x.end, e2, p2, t2)
	c.Stop()
	c.Stop()
	s = c.Spans()
	assert(len(s) == 3 && s[0].Err == e1, "later ones are not")
	assert(closed(c.Done()), "completion stays signalled")
}

func C27_Stopped(e error, p bool, t time.Time, started, some bool) {
	x := family()
	c := collect.NewSpanCollector(nil)
	c.Start(x.end)
	if started {
		c.ForceStart(x.end)
	}
	if some {
		c.Finish(x.child, e, p, t)
	}
	assert(!closed(c.Done()), "not complete")
	c.Stop()
	assert(closed(c.Done()), "completion is signalled")
	c.Stop()
	c.ForceStart(x.end)
	c.Finish(x.child, e, p, t)
	c.Finish(x.end, e, p, t)
	assert(len(c.Spans()) == 0, "nothing is collected after stopping")
	assert(closed(c.Done()), "completion stays signalled")
}

// A span finishes while the end span does.
func C27_FinishRace(e1, e2 error, p1, p2 bool, t1, t2 time.Time, turn bool) {
	x := family()
	c := collect.NewSpanCollector(nil)
	c.ForceStart(x.end)
	n := 0
	end := func() {
		c.Finish(x.end, e1, p1, t1)
		n = len(c.Spans())
	}
	child := func() { c.Finish(x.child, e2, p2, t2) }
	if turn {
		interrupt = end
		child()
	} else {
		interrupt = child
		end()
	}
	settle()
	assert(closed(c.Done()), "completion is signalled")
	s := c.Spans()
	assert(len(s) >= 1 && len(s) <= 2 && s[0].Span == x.end, "the end span is listed")
	assert(len(s) == n, "nothing is added after the end")
	assert(s[0].Err == e1 && s[0].Panicked == p1, "with its own outcome")
	if len(s) == 2 {
		assert(s[1].Span == x.child && s[1].Err == e2 && s[1].Panicked == p2, "with its own outcome")
	}
}

// Listing while spans finish.
func C27_ListRace(e1, e2 error, p bool, t time.Time) {
	x := family()
	c := collect.NewSpanCollector(nil)
	c.ForceStart(x.end)
	c.Finish(x.child, e2, p, t)
	interrupt = func() { c.Finish(x.end, e1, p, t) }
	s := c.Spans()
	assert(len(s) == 0 || len(s) == 2, "all or nothing")
	settle()
	s = c.Spans()
	assert(len(s) == 2 && s[0].Err == e1 && s[1].Err == e2, "all")
}

func C27_StopRace(e error, p bool, t time.Time, what int) {
	x := family()
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s == x.end })
	if what != 1 {
		c.ForceStart(x.end)
	}
	interrupt = c.Stop
	switch what {
	case 1:
		c.Start(x.end)
	case 2:
		c.Stop()
	case 3:
		c.Finish(x.child, e, p, t)
	case 4:
		c.Finish(x.end, e, p, t)
	default:
		c.ForceStart(x.end)
	}
	settle()
	assert(closed(c.Done()), "completion is signalled")
	n := len(c.Spans())
	assert(n == 0 || what == 4 && n == 1, "only what finished before")
	c.Finish(x.end, e, p, t)
	c.Finish(x.child, e, p, t)
	assert(len(c.Spans()) == n, "nothing is collected after stopping")
}

// Two spans match at the same time.
func C27_StartRace(e1, e2 error, p bool, t time.Time, turn, force bool) {
	x := family()
	c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s != x.child })
	interrupt = func() { c.Start(x.sibling) }
	if force {
		c.ForceStart(x.end)
	} else {
		c.Start(x.end)
	}
	settle()
	first, second := x.end, x.sibling
	if turn {
		first, second = second, first
	}
	c.Finish(first, e1, p, t)
	if closed(c.Done()) {
		s := c.Spans()
		assert(len(s) == 1 && s[0].Span == first && s[0].Err == e1, "it ends with the matched one")
	}
	c.Finish(second, e2, p, t)
	s := c.Spans()
	assert(closed(c.Done()), "completion is signalled")
	assert(len(s) == 1 && (s[0].Span == first && s[0].Err == e1 || s[0].Span == second && s[0].Err == e2), "one of them is the end")
}

// Once completion is signalled the spans are there.
func C27_DoneRace(e1, e2 error, p bool, t time.Time) {
	x := family()
	c := collect.NewSpanCollector(nil)
	c.ForceStart(x.end)
	c.Finish(x.child, e2, p, t)
	tries := 0
	var look func()
	look = func() {
		tries++
		if !closed(c.Done()) {
			if tries < 8 {
				interrupt = look
			}
			return
		}
		s := c.Spans()
		assert(len(s) == 2 && s[0].Err == e1 && s[1].Err == e2, "all spans are listed on completion")
	}
	interrupt = look
	c.Finish(x.end, e1, p, t)
	settle()
	assert(closed(c.Done()), "completion is signalled")
}

// Two spans match a search at the same time.
func C27_FindRace(turn bool) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	n := 0
	found := false
	second := func() {
		f.Task(nil)(nil)
	}
	tries := 0
	var first func()
	first = func() {
		interrupt = second
		f.Task(nil)(nil)
		if tries++; !found && tries < 8 {
			interrupt = first
		}
	}
	interrupt = first
	collect.FindSpan(newWatch(), r, func(s *monkit.Span) bool {
		n++
		found = true
		return true
	})
	settle()
	assert(found, "it ends with a match")
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
}

// A trace begins while the observation of all traces is cancelled.
func C27_CancelRace(kind int, turn, some bool) {
	assume(kind != 1)
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	live := context.Background()
	exit := f.Task(&live)
	if !some {
		exit(nil)
	}
	o := collect.NewSpanCollector(nil)
	cancel := collect.ObserveAllTraces(r, o)
	ctx := context.Background()
	start := func() { begin(kind, f, &ctx, 1, monkit.NewTrace(1)) }
	if turn {
		interrupt = start
		cancel()
	} else {
		interrupt = cancel
		start()
	}
	settle()
	assert(!leftIn(r, "collect"), "nothing is left in the registry")
	assert(!leftIn(monkit.SpanFromCtx(ctx).Trace(), "collect"), "nothing is left in the new trace")
	assert(!leftIn(monkit.SpanFromCtx(live).Trace(), "collect"), "nothing is left in a live trace")
	cancel()
}
