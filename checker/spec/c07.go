package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

// A span started from a context that carries one.
func C07_Child(f *monkit.Func, wrapped bool, v interface{}) {
	pctx := someCtx(2, v)
	p := monkit.SpanFromCtx(pctx)
	ctx := pctx
	if wrapped {
		ctx = context.WithValue(pctx, ctxTag(1), v)
	}
	f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && s != p, "the context carries the new span")
	assert(ctx == context.Context(s), "the context is the new span")
	assert(s.Func() == f, "of the function")
	assert(s.Trace() == p.Trace(), "in the same trace")
	id, ok := s.ParentId()
	assert(ok && id == p.Id(), "reports the parent's id")
	if wrapped {
		assert(ctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
	n := 0
	p.Children(func(x *monkit.Span) {
		if x == s {
			n++
		}
	})
	assert(n == 1, "is a child of the parent")
}

// ... and its own child, and a sibling: the ancestry is that of the contexts,
// not that of time.
func C07_Ancestry() {
	scope := monkit.NewRegistry().ScopeNamed("s")
	f, g := scope.FuncNamed("f"), scope.FuncNamed("g")
	ctx0 := someCtx(2, nil)
	p := monkit.SpanFromCtx(ctx0)
	ctxA := ctx0
	exitA := f.Task(&ctxA)
	a := monkit.SpanFromCtx(ctxA)
	ctxB := ctxA
	g.Task(&ctxB)
	b := monkit.SpanFromCtx(ctxB)
	exitA(nil)
	ctxC := ctx0
	g.Task(&ctxC)
	c := monkit.SpanFromCtx(ctxC)
	ctxD := ctxA
	f.Task(&ctxD)
	d := monkit.SpanFromCtx(ctxD)
	ib, okb := b.ParentId()
	ic, okc := c.ParentId()
	id, okd := d.ParentId()
	assert(okb && ib == a.Id(), "a grandchild reports its parent's id")
	assert(okc && ic == p.Id(), "a sibling reports the common parent's id")
	assert(okd && id == a.Id(), "the child of a finished span reports its id")
	assert(a.Trace() == p.Trace() && b.Trace() == p.Trace() && c.Trace() == p.Trace() && d.Trace() == p.Trace(), "all in the same trace")
}

// No span in the context.
func C07_Root(f *monkit.Func, shape int, v interface{}, wrapped bool) {
	assume(shape < 2)
	q := monkit.SpanFromCtx(someCtx(2, nil))
	ctx := someCtx(shape, v)
	if wrapped {
		assume(shape == 1)
		ctx = context.WithValue(ctx, ctxTag(1), v)
	}
	f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && ctx == context.Context(s), "the context is the new span")
	assert(s.Func() == f, "of the function")
	_, ok := s.ParentId()
	assert(!ok, "a root span has no parent id")
	assert(s.Trace() != nil && s.Trace() != q.Trace(), "in a fresh trace")
	if wrapped {
		assert(ctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
}

// A nil pointer: nothing to update, nothing to inherit.
func C07_NilPointer(kind int, id int64, v interface{}) {
	r := monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	var a, b *monkit.Span
	tr := monkit.NewTrace(id)
	begin(kind, f, nil, id, tr)
	r.RootSpans(func(s *monkit.Span) { a = s })
	assert(a != nil, "the span runs")
	begin(kind, f, nil, id, tr)
	n := 0
	r.RootSpans(func(s *monkit.Span) {
		n++
		if s != a {
			b = s
		}
	})
	assert(b != nil && n == 2, "another span runs, and it is no child of the first")
	if kind == 2 {
		assert(b.Trace() == tr && a.Trace() == tr, "in the given trace")
	} else {
		assert(b.Trace() != a.Trace(), "in its own trace")
		_, ok := b.ParentId()
		assert(!ok, "a root span has no parent id")
	}
	ctx := context.Background()
	f.Task(&ctx)
	_, ok := monkit.SpanFromCtx(ctx).ParentId()
	assert(!ok, "a plain context stays a plain context")
}

func C07_Reset(f *monkit.Func, shape int, v interface{}) {
	ctx := someCtx(shape, v)
	old := ctx
	f.ResetTrace(&ctx)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && ctx == context.Context(s), "the context is the new span")
	assert(s.Func() == f, "of the function")
	assert(s.Trace() != nil, "in a trace")
	_, ok := s.ParentId()
	assert(!ok, "a root span has no parent id")
	if shape >= 2 {
		p := monkit.SpanFromCtx(old)
		assert(p != s && s.Trace() != p.Trace(), "in a fresh trace")
		_, all := childrenOf(p, s)
		assert(all == 0, "not a child of the span in the context")
	}
	if shape == 3 {
		assert(ctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
	// what is started below is in the new trace
	f.Task(&ctx)
	c := monkit.SpanFromCtx(ctx)
	id, ok := c.ParentId()
	assert(c.Trace() == s.Trace() && ok && id == s.Id(), "its children are in the fresh trace")
}

func C07_Remote(f *monkit.Func, shape int, v interface{}, pid, tid int64) {
	ctx := someCtx(shape, v)
	old := ctx
	tr := monkit.NewTrace(tid)
	assert(tr.Id() == tid, "a trace has its id")
	f.RemoteTrace(&ctx, pid, tr)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && ctx == context.Context(s), "the context is the new span")
	assert(s.Func() == f, "of the function")
	assert(s.Trace() == tr, "in exactly the given trace")
	id, ok := s.ParentId()
	assert(ok && id == pid, "with exactly the given parent id")
	if shape >= 2 {
		_, all := childrenOf(monkit.SpanFromCtx(old), s)
		assert(all == 0, "with no local parent")
	}
	if shape == 3 {
		assert(ctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
	f.Task(&ctx)
	c := monkit.SpanFromCtx(ctx)
	id, ok = c.ParentId()
	assert(c.Trace() == tr && ok && id == s.Id(), "its children are in the given trace, below it")
}

// Without a trace the span joins that of the context, but still has no local
// parent.
func C07_RemoteNoTrace(shape int, v interface{}, pid int64) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := someCtx(shape, v)
	old := ctx
	f.RemoteTrace(&ctx, pid, nil)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && ctx == context.Context(s), "the context is the new span")
	id, ok := s.ParentId()
	assert(ok && id == pid, "with exactly the given parent id")
	assert(s.Trace() != nil, "in a trace")
	if shape >= 2 {
		p := monkit.SpanFromCtx(old)
		_, all := childrenOf(p, s)
		assert(all == 0, "with no local parent")
		assert(s.Trace() == p.Trace(), "in the trace of the context")
	}
}

// The caller's context becomes the one the observer returned.
func C07_ObserverContext(kind int, id int64) {
	assume(kind != 1)
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	o := &recorder{id: 7}
	ctx := context.Background()
	f.RemoteTrace(&ctx, id, tr)
	p := monkit.SpanFromCtx(ctx)
	tr.ObserveSpansCtx(o)
	begin(kind, f, &ctx, id, tr)
	assert(ctx == o.out, "the context is what the observer returned")
	s := monkit.SpanFromCtx(ctx)
	assert(s == o.span, "and it carries the span")
	assert(ctx.Value(ctxTag(2)) == 7, "with the observer's value")
	if kind == 0 {
		pid, ok := s.ParentId()
		assert(ok && pid == p.Id(), "below its parent")
	}
}

func C07_ScopeTask(shape int, v interface{}, named bool, name string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	t := sc.Task()
	if named {
		t = sc.TaskNamed(name)
	}
	ctx := someCtx(shape, v)
	old := ctx
	t(&ctx)
	s := monkit.SpanFromCtx(ctx)
	assert(s != nil && ctx == context.Context(s), "the context is the new span")
	assert(s.Func() == t.Func(), "of the task's function")
	id, ok := s.ParentId()
	if shape >= 2 {
		p := monkit.SpanFromCtx(old)
		assert(s.Trace() == p.Trace() && ok && id == p.Id(), "below the span in the context")
	} else {
		assert(!ok, "a root span has no parent id")
	}
	if shape == 3 {
		assert(ctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
	t(nil)
}

func C07_ResetContextSpan(f *monkit.Func, shape int, v interface{}) {
	assume(shape != 0)
	ctx := someCtx(shape, v)
	rctx := monkit.ResetContextSpan(ctx)
	assert(monkit.SpanFromCtx(rctx) == nil, "no span is visible any more")
	if shape == 3 {
		assert(rctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
	old := monkit.SpanFromCtx(ctx)
	if shape >= 2 {
		assert(old != nil, "the original context is not changed")
	}
	f.Task(&rctx)
	s := monkit.SpanFromCtx(rctx)
	_, ok := s.ParentId()
	assert(!ok, "a span started from it is a root span")
	if shape >= 2 {
		assert(s.Trace() != old.Trace(), "in a fresh trace")
	}
	if shape == 3 {
		assert(rctx.Value(ctxTag(1)) == v, "other context values stay visible")
	}
}

func C07_SpanFromCtx(shape int, v interface{}) {
	assume(shape != 0)
	ctx := someCtx(shape, v)
	if shape == 1 {
		assert(monkit.SpanFromCtx(ctx) == nil, "no span in a plain context")
		assert(monkit.SpanFromCtx(context.WithValue(ctx, ctxTag(1), v)) == nil, "nor in one with another value")
	} else {
		assert(monkit.SpanFromCtx(ctx) != nil, "the span is found")
		assert(monkit.SpanFromCtx(context.WithValue(ctx, ctxTag(2), v)) == monkit.SpanFromCtx(ctx), "also through other values")
	}
}
