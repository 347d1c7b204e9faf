package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

// world is a parent with a child that has a child.
type world struct {
	r     *monkit.Registry
	spans [3]*monkit.Span
	exits [3]func(*error)
	par   [3]int
	ended [3]bool
}

func (w *world) checkRoots() {
	n := 0
	for i := 0; i < 3; i++ {
		listed := w.spans[i] != nil && !w.ended[i] && (w.par[i] < 0 || w.ended[w.par[i]])
		k := 0
		if listed {
			k = 1
			n++
		}
		if w.spans[i] != nil {
			c, _ := rootsOf(w.r, w.spans[i])
			assert(c == k, "a span is listed as a root span exactly while it runs without a running parent")
			if !w.ended[i] {
				assert(w.spans[i].Orphaned() == (listed && w.par[i] >= 0), "a span is an orphan from when its parent finished")
			}
		}
	}
	_, all := rootsOf(w.r, nil)
	assert(all == n, "nothing else is listed")
}

func (w *world) start(f *monkit.Func, i, par int, ctx context.Context) context.Context {
	w.exits[i] = f.Task(&ctx)
	w.spans[i] = monkit.SpanFromCtx(ctx)
	w.par[i] = par
	return ctx
}

func (w *world) end(i, how int, err error, val interface{}) {
	finish(w.exits[i], how, err, val)
	w.ended[i] = true
}

// orders of finishing three spans
func order3(o int) (int, int, int) {
	switch o {
	case 0:
		return 0, 1, 2
	case 1:
		return 0, 2, 1
	case 2:
		return 1, 0, 2
	case 3:
		return 1, 2, 0
	case 4:
		return 2, 0, 1
	}
	assume(o == 5)
	return 2, 1, 0
}

func C08_Chain(order, how int, err error, val interface{}) {
	w := &world{r: monkit.NewRegistry()}
	f := w.r.ScopeNamed("s").FuncNamed("f")
	ctx := w.start(f, 0, -1, context.Background())
	ctx = w.start(f, 1, 0, ctx)
	ctx = w.start(f, 2, 1, ctx)
	w.checkRoots()
	a, b, c := order3(order)
	w.end(a, how, err, val)
	w.checkRoots()
	w.end(b, how, err, val)
	w.checkRoots()
	w.end(c, how, err, val)
	w.checkRoots()
}

func C08_Siblings(order, how int, err error, val interface{}) {
	w := &world{r: monkit.NewRegistry()}
	f := w.r.ScopeNamed("s").FuncNamed("f")
	ctx := w.start(f, 0, -1, context.Background())
	w.start(f, 1, 0, ctx)
	w.start(f, 2, 0, ctx)
	w.checkRoots()
	a, b, c := order3(order)
	w.end(a, how, err, val)
	w.checkRoots()
	w.end(b, how, err, val)
	w.checkRoots()
	w.end(c, how, err, val)
	w.checkRoots()
}

// A child that starts after its parent has finished is an orphan at once.
func C08_LateChild(how int, err error, val interface{}, second bool) {
	w := &world{r: monkit.NewRegistry()}
	f := w.r.ScopeNamed("s").FuncNamed("f")
	ctx := w.start(f, 0, -1, context.Background())
	w.end(0, how, err, val)
	w.checkRoots()
	ctx = w.start(f, 1, 0, ctx)
	w.checkRoots()
	w.start(f, 2, 1, ctx)
	w.checkRoots()
	if second {
		w.end(2, how, err, val)
		w.checkRoots()
		w.end(1, how, err, val)
	} else {
		w.end(1, how, err, val)
		w.checkRoots()
		w.end(2, how, err, val)
	}
	w.checkRoots()
}

// Children of a finished parent, one started before, one after.
func C08_BeforeAndAfter(how int, err error, val interface{}, second bool) {
	w := &world{r: monkit.NewRegistry()}
	f := w.r.ScopeNamed("s").FuncNamed("f")
	ctx := w.start(f, 0, -1, context.Background())
	w.start(f, 1, 0, ctx)
	w.end(0, how, err, val)
	w.checkRoots()
	w.start(f, 2, 0, ctx)
	w.checkRoots()
	if second {
		w.end(2, how, err, val)
		w.checkRoots()
		w.end(1, how, err, val)
	} else {
		w.end(1, how, err, val)
		w.checkRoots()
		w.end(2, how, err, val)
	}
	w.checkRoots()
}

// A parent that is remote, or a child that is.
func C08_Detached(id, tid int64, how int, err error, val interface{}) {
	w := &world{r: monkit.NewRegistry()}
	f := w.r.ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	w.exits[0] = f.RemoteTrace(&ctx, id, monkit.NewTrace(tid))
	w.spans[0] = monkit.SpanFromCtx(ctx)
	w.par[0] = -1
	w.start(f, 1, 0, ctx)
	w.exits[2] = f.ResetTrace(&ctx)
	w.spans[2] = monkit.SpanFromCtx(ctx)
	w.par[2] = -1
	w.checkRoots()
	w.end(0, how, err, val)
	w.checkRoots()
	w.end(1, how, err, val)
	w.checkRoots()
	w.end(2, how, err, val)
	w.checkRoots()
}
