package zzverifspec

import (
	"context"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// recorder is a span observer that remembers what it was told.
type recorder struct {
	id               int
	starts, finishes int
	span, fspan      *monkit.Span
	in, out, fctx    context.Context
	err              error
	panicked         bool
	finish           time.Time
}

func (r *recorder) Start(ctx context.Context, s *monkit.Span) context.Context {
	r.starts++
	r.span = s
	r.in = ctx
	r.out = context.WithValue(ctx, ctxTag(2), r.id)
	return r.out
}

func (r *recorder) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	r.finishes++
	r.fspan = s
	r.fctx = ctx
	r.err = err
	r.panicked = panicked
	r.finish = finish
}

// plain is an observer without contexts.
type plain struct {
	starts, finishes int
	span, fspan      *monkit.Span
	err              error
	panicked         bool
	finish           time.Time
}

func (r *plain) Start(s *monkit.Span) { r.starts++; r.span = s }

func (r *plain) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	r.finishes++
	r.fspan = s
	r.err = err
	r.panicked = panicked
	r.finish = finish
}

func C09_One(kind int, id int64, how int, err error, val interface{}) {
	assume(kind != 1)
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	o := &recorder{id: 1}
	ctx := context.Background()
	exit0 := f.RemoteTrace(&ctx, id, tr)
	tr.ObserveSpansCtx(o)
	assert(o.starts == 0, "nothing has started yet")
	exit := begin(kind, f, &ctx, id, tr)
	s := monkit.SpanFromCtx(ctx)
	assert(o.starts == 1 && o.finishes == 0, "told once about the start")
	assert(o.span == s, "told about the very span")
	assert(o.in == s, "handed the context of the span")
	assert(ctx == o.out, "the context it returned is in use")
	m0 := mark()
	finish(exit, how, err, val)
	m1 := mark()
	assert(o.starts == 1 && o.finishes == 1, "told once about the finish")
	assert(o.fspan == s, "told about the finish of the very span")
	assert(o.fctx == o.out, "handed the context in use")
	if how == 0 {
		assert(o.err == nil, "no error")
	} else {
		assert(o.err == err, "the span's own error")
	}
	assert(o.panicked == (how == 2), "whether it panicked")
	assert(clockIn(o.finish, m0, m1), "the time of the finish")
	exit0(nil)
	assert(o.starts == 1 && o.finishes == 2, "told about the finish of a span that was running before")
}

func C09_Plain(id int64, how int, err error, val interface{}) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	o := &plain{}
	cancel := tr.ObserveSpans(o)
	ctx := context.Background()
	exit := f.RemoteTrace(&ctx, id, tr)
	s := monkit.SpanFromCtx(ctx)
	assert(ctx == s, "the context is the span")
	assert(o.starts == 1 && o.finishes == 0, "told once about the start")
	assert(o.span == s, "told about the very span")
	m0 := mark()
	finish(exit, how, err, val)
	m1 := mark()
	assert(o.starts == 1 && o.finishes == 1, "told once about the finish")
	assert(o.fspan == s, "told about the finish of the very span")
	if how == 0 {
		assert(o.err == nil, "no error")
	} else {
		assert(o.err == err, "the span's own error")
	}
	assert(o.panicked == (how == 2), "whether it panicked")
	assert(clockIn(o.finish, m0, m1), "the time of the finish")
	cancel()
	f.RemoteTrace(&ctx, id, tr)(nil)
	assert(o.starts == 1 && o.finishes == 1, "told nothing after cancelling")
}

// Two observers: each is told, and the contexts are chained.
func C09_Two(id int64, how int, err error, val interface{}) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	a, b := &recorder{id: 1}, &recorder{id: 2}
	tr.ObserveSpansCtx(a)
	tr.ObserveSpansCtx(b)
	ctx := context.Background()
	exit := f.RemoteTrace(&ctx, id, tr)
	s := monkit.SpanFromCtx(ctx)
	assert(a.starts == 1 && b.starts == 1, "each is told once about the start")
	assert(a.span == s && b.span == s, "about the very span")
	sc := context.Context(s)
	ab := a.in == sc && b.in == a.out && ctx == b.out
	ba := b.in == sc && a.in == b.out && ctx == a.out
	assert(ab || ba, "the contexts are chained")
	use := ctx
	m0 := mark()
	finish(exit, how, err, val)
	m1 := mark()
	assert(a.finishes == 1 && b.finishes == 1, "each is told once about the finish")
	assert(a.fspan == s && b.fspan == s, "about the very span")
	assert(a.fctx == use && b.fctx == use, "handed the context in use")
	if how == 0 {
		assert(a.err == nil && b.err == nil, "no error")
	} else {
		assert(a.err == err && b.err == err, "the span's own error")
	}
	assert(a.panicked == (how == 2) && b.panicked == (how == 2), "whether it panicked")
	assert(clockIn(a.finish, m0, m1) && clockIn(b.finish, m0, m1), "the time of the finish")
}

// Three observers, one or more of them cancelled, in any order, repeatedly.
func C09_Cancel(id int64, first, second int, late bool) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	var o [3]recorder
	var c [3]func()
	c[0] = tr.ObserveSpansCtx(&o[0])
	c[1] = tr.ObserveSpansCtx(&o[1])
	c[2] = tr.ObserveSpansCtx(&o[2])
	var exit func(*error)
	ctx := context.Background()
	if late {
		exit = f.RemoteTrace(&ctx, id, tr)
	}
	i := pick3(first)
	c[i]()
	c[i]()
	if !late {
		exit = f.RemoteTrace(&ctx, id, tr)
	}
	n := 0
	if late {
		n = 1
	}
	assert(o[i].starts == n, "the cancelled one is told nothing")
	assert(o[(i+1)%3].starts == 1 && o[(i+2)%3].starts == 1, "the others are told")
	exit(nil)
	assert(o[i].finishes == 0, "the cancelled one is told nothing")
	assert(o[(i+1)%3].finishes == 1 && o[(i+2)%3].finishes == 1, "the others are told")
	j := (i + 1) % 3
	k := (i + 2) % 3
	if second == 1 {
		j, k = k, j
	}
	c[j]()
	ctx2 := context.Background()
	f.RemoteTrace(&ctx2, id, tr)(nil)
	assert(o[i].starts == n && o[i].finishes == 0, "the cancelled one stays cancelled")
	assert(o[j].starts == 1 && o[j].finishes == 1, "the second cancelled one is told nothing more")
	assert(o[k].starts == 2 && o[k].finishes == 2, "the remaining one is told")
	c[i]()
	c[k]()
	d := &recorder{}
	tr.ObserveSpansCtx(d)
	f.RemoteTrace(&ctx2, id, tr)(nil)
	assert(o[0].starts+o[1].starts+o[2].starts == n+3, "no cancelled observer is told anything")
	assert(d.starts == 1 && d.finishes == 1, "a new observer is told")
}

func pick3(x int) int {
	switch x {
	case 0:
		return 0
	case 1:
		return 1
	}
	assume(x == 2)
	return 2
}

// The same observer registered twice is two registrations.
func C09_Twice(id int64, second bool) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	o := &plain{}
	c1 := tr.ObserveSpans(o)
	c2 := tr.ObserveSpans(o)
	ctx := context.Background()
	f.RemoteTrace(&ctx, id, tr)(nil)
	assert(o.starts == 2 && o.finishes == 2, "told once per registration")
	if second {
		c1, c2 = c2, c1
	}
	c1()
	ctx = context.Background()
	f.RemoteTrace(&ctx, id, tr)(nil)
	assert(o.starts == 3 && o.finishes == 3, "one registration is left")
	c1()
	ctx = context.Background()
	f.RemoteTrace(&ctx, id, tr)(nil)
	assert(o.starts == 4 && o.finishes == 4, "cancelling again does not touch the other registration")
	c2()
	ctx = context.Background()
	f.RemoteTrace(&ctx, id, tr)(nil)
	assert(o.starts == 4 && o.finishes == 4, "none is left")
}

// Observers of one trace hear nothing of another.
func C09_OtherTrace(id, id2 int64, how int, err error, val interface{}) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr, tr2 := monkit.NewTrace(id), monkit.NewTrace(id2)
	a, b := &recorder{id: 1}, &recorder{id: 2}
	tr.ObserveSpansCtx(a)
	tr2.ObserveSpansCtx(b)
	ctx := context.Background()
	exit := f.RemoteTrace(&ctx, id, tr)
	assert(a.starts == 1 && b.starts == 0, "only the observer of the trace is told")
	exit2 := f.ResetTrace(&ctx)
	exit2(nil)
	finish(exit, how, err, val)
	assert(a.finishes == 1 && b.finishes == 0, "only the observer of the trace is told")
}
