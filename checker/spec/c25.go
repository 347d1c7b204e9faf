package zzverifspec

import (
	"context"
	"errors"
	"net/url"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// paper is what an output is written to. One write may fail.
type paper struct {
	at, n  int
	failed bool
	text   string
}

type writeErr struct{ v int }

func (e *writeErr) Error() string { return "write" }

var errWrite error = &writeErr{1}

func (p *paper) Write(b []byte) (int, error) {
	assert(!p.failed, "nothing is written after a failed write")
	if p.n == p.at {
		p.failed = true
		return 0, errWrite
	}
	p.n++
	p.text += string(b)
	return len(b), nil
}

func (p *paper) written(err error) {
	if p.failed {
		assert(err == errWrite, "the error of the write is returned")
	}
}

// some is a registry with a bit of everything, and a span with two others in it running.
func some() (*monkit.Registry, *monkit.Func, *monkit.Func) {
	outputs()
	monkit.ObservedQuantiles = []float64{.5}
	r := monkit.NewRegistry()
	s := r.ScopeNamed("s")
	f, g := s.FuncNamed("f"), s.FuncNamed("g")
	err := errors.New("e")
	f.Task(nil)(&err)
	ctx := context.Background()
	f.Task(&ctx)
	first, second := ctx, ctx
	g.Task(&first, "arg")
	g.Task(&second, "arg")
	monkit.SpanFromCtx(ctx).Annotate("name", "value")
	monkit.SpanFromCtx(ctx).Annotate("name", "value")
	g.Task(nil)(nil)
	other := context.Background()
	g.Task(&other)
	return r, f, g
}

func C25_FuncsDot(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.FuncsDot(r, p))
}

func C25_FuncsText(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.FuncsText(r, p))
}

func C25_FuncsJSON(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.FuncsJSON(r, p))
}

func C25_SpansDot(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.SpansDot(r, p))
}

func C25_SpansText(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.SpansText(r, p))
}

func C25_SpansJSON(at int) {
	r, _, _ := some()
	p := &paper{at: at}
	p.written(present.SpansJSON(r, p))
}

// numbers is a source of a few values.
type numbers struct{ a, b float64 }

func (n numbers) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cb(monkit.NewSeriesKey("m"), "a", n.a)
	cb(monkit.NewSeriesKey("m").WithTag("t", "v"), "b", n.b)
}

func counted(a, b float64) *monkit.Registry {
	outputs()
	r := monkit.NewRegistry()
	r.ScopeNamed("s").Chain(numbers{a, b})
	return r
}

func C25_StatsText(at int, a, b float64) {
	r := counted(a, b)
	p := &paper{at: at}
	p.written(present.StatsText(r, p))
}

func C25_StatsOld(at int, a, b float64) {
	r := counted(a, b)
	p := &paper{at: at}
	p.written(present.StatsOld(r, p))
}

func C25_StatsJSON(at int, a, b float64) {
	r := counted(a, b)
	p := &paper{at: at}
	p.written(present.StatsJSON(r, p))
}

// finished are two spans, one in the other.
func finished() []*collect.FinishedSpan {
	_, f, g := some()
	ctx := context.Background()
	f.Task(&ctx)
	s := monkit.SpanFromCtx(ctx)
	g.Task(&ctx, "arg")
	c := monkit.SpanFromCtx(ctx)
	return []*collect.FinishedSpan{
		{Span: c, Finish: time.Now(), Err: errors.New("e")},
		{Span: s, Finish: time.Now()},
	}
}

func C25_SpansToJSON(at int) {
	p := &paper{at: at}
	p.written(present.SpansToJSON(p, finished()))
}

func C25_SpansToSVG(at int) {
	p := &paper{at: at}
	p.written(present.SpansToSVG(p, finished()[:1]))
}

// Through the router, whose buffer hands on what it is given sooner or later.
func routed(r *monkit.Registry, path string, at int, soon bool) {
	p := &paper{at: at}
	f, _, err := present.FromRequest(r, path, nil)
	assert(err == nil, "the path is served")
	full = soon
	err = f(p)
	p.written(err)
	if err == nil {
		assert(p.n > 0 && !p.failed, "success means that everything is written")
		for _, b := range buffers {
			assert(b.text == "", "what was buffered is written")
		}
	}
}

func C25_RoutedIndex(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/", at, soon)
}

func C25_RoutedFuncsDot(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/funcs/dot", at, soon)
}

func C25_RoutedFuncsText(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/funcs/text", at, soon)
}

func C25_RoutedFuncsJSON(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/funcs/json", at, soon)
}

func C25_RoutedSpansDot(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/ps/dot", at, soon)
}

func C25_RoutedSpansText(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/ps", at, soon)
}

func C25_RoutedSpansJSON(at int, soon bool) {
	r, _, _ := some()
	routed(r, "/ps/json", at, soon)
}

func C25_RoutedStatsText(at int, soon bool, a, b float64) {
	routed(counted(a, b), "/stats", at, soon)
}

func C25_RoutedStatsJSON(at int, soon bool, a, b float64) {
	routed(counted(a, b), "/stats/json", at, soon)
}

// The answers of the trace queries.
func traced(at int) (*monkit.Registry, *paper) {
	r := monkit.NewRegistry()
	reset()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f"), remote: true}
	waiting = m.once
	return r, &paper{at: at}
}

func all(*monkit.Span) bool { return true }

func C25_TraceJSON(at int) {
	r, p := traced(at)
	p.written(present.TraceQueryJSON(r, p, all))
}

func C25_TraceSVG(at int) {
	r, p := traced(at)
	p.written(present.TraceQuerySVG(r, p, all))
}

func C25_TraceRemote(at int, viz, soon bool) {
	r, p := traced(at)
	q := url.Values{"trace_id": {"5"}}
	if viz {
		q["viz"] = []string{"http://host"}
	}
	f, _, err := present.FromRequest(r, "/trace/remote", q)
	assert(err == nil, "the path is served")
	full = soon
	err = f(p)
	p.written(err)
	if err == nil {
		assert(p.n > 0 && !p.failed, "success means that everything is written")
	}
}
