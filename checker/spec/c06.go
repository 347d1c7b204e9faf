package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
)

// instrumented runs an instrumented function that returns or panics.
func instrumented(exit func(*error), errp *error, panics bool, val interface{}) (rec interface{}, returned bool) {
	defer func() {
		if r := recover(); r != nil {
			rec = r
		}
	}()
	func() {
		defer exit(errp)
		if panics {
			panic(val)
		}
	}()
	returned = true
	return rec, returned
}

func transparent(exit func(*error), err error, nilPtr, panics bool, val interface{}) {
	assume(val != nil)
	e := err
	errp := &e
	if nilPtr {
		errp = nil
	}
	rec, returned := instrumented(exit, errp, panics, val)
	assert(e == err, "the error variable is not written")
	if panics {
		assert(!returned, "a panic is not swallowed")
		assert(rec == val, "a panic keeps its value")
	} else {
		assert(returned, "a return stays a return")
	}
}

func C06_Span(f *monkit.Func, shape, kind int, v interface{}, id int64, err error, nilPtr, panics bool, val interface{}) {
	ctx := someCtx(shape, v)
	transparent(begin(kind, f, &ctx, id, monkit.NewTrace(id)), err, nilPtr, panics, val)
}

func C06_NilCtx(f *monkit.Func, kind int, id int64, err error, nilPtr, panics bool, val interface{}) {
	transparent(begin(kind, f, nil, id, monkit.NewTrace(id)), err, nilPtr, panics, val)
}

func C06_ScopeTask(sc *monkit.Scope, named bool, name string, err error, nilPtr, panics bool, val interface{}) {
	r := monkit.NewRegistry()
	ctx := context.Background()
	if named {
		transparent(r.ScopeNamed("s").TaskNamed(name)(&ctx), err, nilPtr, panics, val)
	} else {
		transparent(r.ScopeNamed("s").Task()(&ctx), err, nilPtr, panics, val)
	}
}

func C06_Observe(f *monkit.FuncStats, err error, nilPtr, panics bool, val interface{}) {
	transparent(f.Observe(), err, nilPtr, panics, val)
}

func C06_Observed(id int64, err error, nilPtr, panics bool, val interface{}) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	tr := monkit.NewTrace(id)
	tr.ObserveSpansCtx(&recorder{})
	ctx := context.Background()
	exit := f.RemoteTrace(&ctx, id, tr)
	exit2 := f.Task(&ctx)
	transparent(exit2, err, nilPtr, panics, val)
	transparent(exit, err, nilPtr, panics, val)
}

func C06_OrphanedAndParent(err error, nilPtr, panics bool, val interface{}) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	exit := f.Task(&ctx)
	exit2 := f.Task(&ctx)
	transparent(exit, err, nilPtr, panics, val)
	transparent(exit2, err, nilPtr, panics, val)
}

// Collection of the spans of some work: the work's panic is kept.
func C06_CollectSpans(shape int, v interface{}, panics bool, val interface{}) {
	assume(val != nil)
	ctx := someCtx(shape, v)
	if shape == 0 {
		ctx = context.Background()
	}
	n := 0
	var rec interface{}
	returned := false
	func() {
		defer func() { rec = recover() }()
		collect.CollectSpans(ctx, func(ctx context.Context) {
			n++
			if panics {
				panic(val)
			}
		})
		returned = true
	}()
	assert(n == 1, "the work is done once")
	if panics {
		assert(!returned && rec == val, "the work's panic passes through with its value")
	} else {
		assert(returned && rec == nil, "the work's return stays a return")
	}
}
