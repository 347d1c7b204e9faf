package zzverifspec

import (
	"context"
	"errors"
	"math"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// sheet keeps a text.
type sheet struct{ text string }

func (p *sheet) Write(b []byte) (int, error) {
	p.text += string(b)
	return len(b), nil
}

// document checks that a text is a list of n encoded elements.
func (p *sheet) document(err error, n int) {
	assert(err == nil, "everything can be encoded")
	assert(len(encoded) == n, "every element is encoded")
	assert(jsonList(p.text, encodedText), "the document is a list of the elements")
}

// readings is a source of up to three values.
type readings struct {
	n       int
	a, b, c float64
}

func (r readings) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	if r.n > 0 {
		cb(monkit.NewSeriesKey("m"), "a", r.a)
	}
	if r.n > 1 {
		cb(monkit.NewSeriesKey("m").WithTag("t", "v"), "b", r.b)
	}
	if r.n > 2 {
		cb(monkit.NewSeriesKey("m"), "c", r.c)
	}
}

func isReading(x interface{}, field string, val float64) bool {
	if jsonLen(x) != 4 || !identical(jsonAt(x, 0), "m") || !identical(jsonAt(x, 2), field) {
		return false
	}
	if math.IsNaN(val) || math.IsInf(val, 0) {
		return jsonAt(x, 3) == nil
	}
	return identical(jsonAt(x, 3), val)
}

func C23_Stats(n int, a, b, c float64) {
	if n < 0 {
		n = 0
	}
	if n > 3 {
		n = 3
	}
	switch n {
	case 0:
		stats(readings{0, a, b, c})
	case 1:
		stats(readings{1, a, b, c})
	case 2:
		stats(readings{2, a, b, c})
	default:
		stats(readings{3, a, b, c})
	}
}

func stats(l readings) {
	outputs()
	r := monkit.NewRegistry()
	r.ScopeNamed("s").Chain(l)
	p := &sheet{}
	p.document(present.StatsJSON(r, p), l.n)
	if l.n > 0 {
		assert(isReading(encoded[0], "a", l.a), "an element is the reading")
	}
	if l.n > 1 {
		assert(isReading(encoded[1], "b", l.b), "an element is the reading")
		tags := jsonAt(encoded[1], 1)
		assert(identical(jsonField(tags, "t"), "v"), "an element has its tags")
		assert(jsonField(tags, "u") == nil, "an element has its tags only")
	}
	if l.n > 2 {
		assert(isReading(encoded[2], "c", l.c), "an element is the reading")
	}
}

// aFunc checks the element of a function.
func aFunc(x interface{}, f *monkit.Func) {
	assert(identical(jsonField(x, "id"), f.Id()), "a function has its id")
	assert(identical(jsonField(x, "package"), f.Scope().Name()), "a function has its package")
	assert(identical(jsonField(x, "name"), f.ShortName()), "a function has its name")
	assert(identical(jsonField(x, "current"), f.Current()), "a function has its current count")
	assert(identical(jsonField(x, "highwater"), f.Highwater()), "a function has its highwater mark")
	assert(identical(jsonField(x, "success"), f.Success()), "a function has its successes")
	assert(identical(jsonField(x, "panics"), f.Panics()), "a function has its panics")
	aDist(jsonField(x, "success_times"), f.SuccessTimes())
	aDist(jsonField(x, "failure_times"), f.FailureTimes())
}

func aDist(x interface{}, d *monkit.DurationDist) {
	assert(identical(jsonField(x, "max"), d.High) && identical(jsonField(x, "min"), d.Low) && identical(jsonField(x, "recent"), d.Recent), "times have their bounds")
	assert(identical(jsonField(x, "average"), d.FullAverage()) && identical(jsonField(x, "full_average"), d.FullAverage()), "times have their average")
	assert(identical(jsonField(x, "reservoir_average"), d.ReservoirAverage()), "times have their sampled average")
	q := jsonField(x, "quantiles")
	assert(jsonLen(q) == 1 && identical(jsonAt(q, 0), d.Query(.5)), "times have their quantiles")
}

func C23_NoFuncs() {
	outputs()
	r := monkit.NewRegistry()
	r.ScopeNamed("s")
	p := &sheet{}
	p.document(present.FuncsJSON(r, p), 0)
}

func C23_Funcs() {
	outputs()
	monkit.ObservedQuantiles = []float64{.5}
	r := monkit.NewRegistry()
	s := r.ScopeNamed("s")
	f, g := s.FuncNamed("f"), s.FuncNamed("g")
	err := errors.New("e")
	f.Task(nil)(&err)
	f.Task(nil)(&err)
	g.Task(nil)(nil)
	ctx := context.Background()
	f.Task(&ctx)
	g.Task(&ctx)(nil)
	p := &sheet{}
	p.document(present.FuncsJSON(r, p), 2)
	for _, x := range encoded {
		if identical(jsonField(x, "id"), f.Id()) {
			aFunc(x, f)
			assert(identical(jsonField(x, "entry"), true), "an entry point is marked")
			assert(jsonLen(jsonField(x, "parent_ids")) == 0, "no parents")
			assert(identical(jsonField(jsonField(x, "errors"), errname(err)), int64(2)), "a function has its errors")
		} else {
			aFunc(x, g)
			assert(identical(jsonField(x, "entry"), true), "an entry point is marked")
			ps := jsonField(x, "parent_ids")
			assert(jsonLen(ps) == 1 && identical(jsonAt(ps, 0), f.Id()), "a function has its parents")
			assert(jsonLen(jsonField(x, "errors")) == 0, "no errors")
		}
	}
}

func C23_OneFunc(inner bool) {
	outputs()
	monkit.ObservedQuantiles = []float64{.5}
	r, o := monkit.NewRegistry(), monkit.NewRegistry()
	f, g := r.ScopeNamed("s").FuncNamed("f"), o.ScopeNamed("s").FuncNamed("g")
	ctx := context.Background()
	if inner {
		g.Task(&ctx)
	}
	f.Task(&ctx)
	p := &sheet{}
	p.document(present.FuncsJSON(r, p), 1)
	aFunc(encoded[0], f)
	if inner {
		assert(identical(jsonField(encoded[0], "entry"), false), "no other function is marked as an entry point")
	} else {
		assert(identical(jsonField(encoded[0], "entry"), true), "an entry point is marked")
	}
}

// aSpan checks the element of a span.
func aSpan(x interface{}, s, parent *monkit.Span) {
	assert(identical(jsonField(x, "id"), s.Id()), "a span has its id")
	if parent != nil {
		assert(identical(jsonField(x, "parent_id"), parent.Id()), "a span has its parent's id")
	} else {
		assert(jsonField(x, "parent_id") == nil, "a span without a parent has no parent's id")
	}
	fn := jsonField(x, "func")
	assert(identical(jsonField(fn, "package"), s.Func().Scope().Name()), "a span has its package")
	assert(identical(jsonField(fn, "name"), s.Func().ShortName()), "a span has its function's name")
	assert(identical(jsonField(jsonField(x, "trace"), "id"), s.Trace().Id()), "a span has its trace's id")
	assert(identical(jsonField(x, "start"), s.Start().UnixNano()), "a span has its start")
	assert(identical(jsonField(x, "orphaned"), s.Orphaned()), "a span is an orphan or not")
	args := jsonField(x, "args")
	assert(jsonLen(args) == len(s.Args()), "a span has its arguments")
	if len(s.Args()) == 2 {
		assert(!identical(jsonAt(args, 0), jsonAt(args, 1)), "a span has each of its arguments")
	}
	notes := jsonField(x, "annotations")
	assert(jsonLen(notes) == len(s.Annotations()), "a span has its annotations")
	for i, a := range s.Annotations() {
		n := jsonAt(notes, i)
		assert(identical(jsonAt(n, 0), a.Name) && identical(jsonAt(n, 1), a.Value), "a span has its annotations")
	}
}

func C23_NoSpans() {
	outputs()
	r := monkit.NewRegistry()
	r.ScopeNamed("s").FuncNamed("f").Task(nil)(nil)
	p := &sheet{}
	p.document(present.SpansJSON(r, p), 0)
}

// nested is a span in another one, which may be over.
func nested(over bool) (r *monkit.Registry, s, c *monkit.Span) {
	outputs()
	r = monkit.NewRegistry()
	ctx := context.Background()
	end := r.ScopeNamed("s").FuncNamed("f").Task(&ctx)
	s = monkit.SpanFromCtx(ctx)
	s.Annotate("n1", "v1")
	s.Annotate("n2", "v2")
	r.ScopeNamed("t").FuncNamed("g").Task(&ctx, "arg", "arg2")
	c = monkit.SpanFromCtx(ctx)
	if over {
		end(nil)
	}
	return r, s, c
}

func C23_Spans(over bool) {
	r, s, c := nested(over)
	p := &sheet{}
	err := present.SpansJSON(r, p)
	if over {
		p.document(err, 1)
	} else {
		p.document(err, 2)
	}
	for _, x := range encoded {
		if identical(jsonField(x, "id"), s.Id()) {
			aSpan(x, s, nil)
		} else {
			aSpan(x, c, s)
		}
		assert(jsonField(x, "elapsed") != nil && !identical(jsonField(x, "elapsed"), int64(0)), "a span has its duration")
	}
}

func C23_NoTrace() {
	outputs()
	p := &sheet{}
	p.document(present.SpansToJSON(p, nil), 0)
}

type spanErr struct{ v int }

func (e *spanErr) Error() string { return "broken" }

func C23_Trace(two, failed, panicked bool) {
	_, s, c := nested(true)
	end := time.Now()
	end2 := time.Now()
	var err error
	if failed {
		err = &spanErr{1}
	}
	p := &sheet{}
	a := &collect.FinishedSpan{Span: c, Finish: end, Err: err, Panicked: panicked}
	b := &collect.FinishedSpan{Span: s, Finish: end2}
	if two {
		p.document(present.SpansToJSON(p, []*collect.FinishedSpan{a, b}), 2)
	} else {
		p.document(present.SpansToJSON(p, []*collect.FinishedSpan{a}), 1)
	}
	for _, x := range encoded {
		if identical(jsonField(x, "id"), s.Id()) {
			aSpan(x, s, nil)
			assert(identical(jsonField(x, "finish"), end2.UnixNano()), "a span has its end")
			assert(identical(jsonField(x, "err"), ""), "a span has its error")
			assert(identical(jsonField(x, "panicked"), false), "a span has panicked or not")
		} else {
			aSpan(x, c, s)
			assert(identical(jsonField(x, "finish"), end.UnixNano()), "a span has its end")
			if failed {
				assert(identical(jsonField(x, "err"), "broken"), "a span has its error")
			} else {
				assert(identical(jsonField(x, "err"), ""), "a span has its error")
			}
			assert(identical(jsonField(x, "panicked"), panicked), "a span has panicked or not")
		}
	}
}

func C23_Parents() {
	outputs()
	monkit.ObservedQuantiles = []float64{.5}
	r, o := monkit.NewRegistry(), monkit.NewRegistry()
	f := r.ScopeNamed("s").FuncNamed("f")
	a, b := o.ScopeNamed("s").FuncNamed("a"), o.ScopeNamed("s").FuncNamed("b")
	ctx, ctx2 := context.Background(), context.Background()
	a.Task(&ctx)
	f.Task(&ctx)
	b.Task(&ctx2)
	f.Task(&ctx2)
	p := &sheet{}
	p.document(present.FuncsJSON(r, p), 1)
	ps := jsonField(encoded[0], "parent_ids")
	assert(jsonLen(ps) == 2, "a function has all of its parents")
	x, y := jsonAt(ps, 0), jsonAt(ps, 1)
	assert(identical(x, a.Id()) && identical(y, b.Id()) || identical(x, b.Id()) && identical(y, a.Id()), "a function has all of its parents")
	assert(identical(jsonField(encoded[0], "entry"), false), "no other function is marked as an entry point")
}
