package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

func C18_Timer(t *monkit.Timer) {
	v0 := t.Values()
	m0 := mark()
	r := t.Start()
	m1 := mark()
	assert(t.Values().Count == v0.Count, "starting records nothing")
	m2 := mark()
	e := r.Elapsed()
	m3 := mark()
	assert(elapsed(e, m0, m1, m2, m3), "Elapsed is the time since the start")
	assert(t.Values().Count == v0.Count, "asking records nothing")
	m4 := mark()
	d := r.Stop()
	m5 := mark()
	assert(elapsed(d, m0, m1, m4, m5), "Stop returns the time since the start")
	v := t.Values()
	assert(v.Count == v0.Count+1, "one observation")
	assert(v.Recent == d, "the observation is the elapsed time")
	assert(v.Sum == v0.Sum+d, "and the only one")
	m6 := mark()
	d2 := r.Stop()
	m7 := mark()
	assert(elapsed(d2, m0, m1, m6, m7), "Stop returns the time since the start again")
	v = t.Values()
	assert(v.Count == v0.Count+1 && v.Sum == v0.Sum+d && v.Recent == d, "a second stop records nothing")
	r.Stop()
	v = t.Values()
	assert(v.Count == v0.Count+1 && v.Sum == v0.Sum+d && v.Recent == d, "nor does a third")
	m8 := mark()
	e = r.Elapsed()
	m9 := mark()
	assert(elapsed(e, m0, m1, m8, m9), "Elapsed is the time since the start")
}

// Timers do not share their state.
func C18_TwoRunning(other bool) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	t := sc.Timer("t")
	u := t
	if other {
		u = sc.Timer("u")
	}
	m0 := mark()
	r := t.Start()
	m1 := mark()
	q := u.Start()
	m2 := mark()
	d := r.Stop()
	m3 := mark()
	assert(t.Values().Count == 1, "one observation")
	assert(t.Values().Recent == d && elapsed(d, m0, m1, m2, m3), "of its own time")
	m4 := mark()
	d2 := q.Stop()
	m5 := mark()
	assert(elapsed(d2, m1, m2, m4, m5), "the other one has its own start")
	if other {
		assert(t.Values().Count == 1 && u.Values().Count == 1, "each has its observation")
	} else {
		assert(t.Values().Count == 2, "each has its observation")
	}
	assert(u.Values().Recent == d2, "of its own time")
}

func C18_Span(kind int, id int64, err error) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	ctx := context.Background()
	m0 := mark()
	exit := begin(kind, f, &ctx, id, monkit.NewTrace(id))
	m1 := mark()
	s := monkit.SpanFromCtx(ctx)
	assert(clockIn(s.Start(), m0, m1), "the start is the time it was started")
	m2 := mark()
	d := s.Duration()
	m3 := mark()
	assert(elapsed(d, m0, m1, m2, m3), "the duration of a span is the time since its start")
	m4 := mark()
	exit(&err)
	m5 := mark()
	if err == nil {
		assert(elapsed(f.SuccessTimes().Recent, m0, m1, m4, m5), "the recorded time is the time between start and finish")
	} else {
		assert(elapsed(f.FailureTimes().Recent, m0, m1, m4, m5), "the recorded time is the time between start and finish")
	}
}

func C18_Observe(f *monkit.FuncStats, err error) {
	m0 := mark()
	exit := f.Observe()
	m1 := mark()
	f.Observe()
	m2 := mark()
	exit(&err)
	m3 := mark()
	if err == nil {
		assert(elapsed(f.SuccessTimes().Recent, m0, m1, m2, m3), "the recorded time is the time between start and finish")
	} else {
		assert(elapsed(f.FailureTimes().Recent, m0, m1, m2, m3), "the recorded time is the time between start and finish")
	}
}
