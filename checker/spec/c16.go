package zzverifspec

import (
	"math"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// statLog keeps everything a source emits.
type statLog struct {
	n int
	e [32]stat
}

func (l *statLog) take(key monkit.SeriesKey, field string, val float64) {
	if l.n < 32 {
		l.e[l.n] = stat{key, field, val}
	}
	l.n++
}

// get is the value of a field, which must have been emitted once.
func (l *statLog) get(field, tag, tagval string) float64 {
	n := 0
	v := 0.0
	for i := 0; i < l.n; i++ {
		if l.e[i].field == field && l.e[i].key.Tags.Get(tag) == tagval {
			n++
			v = l.e[i].val
		}
	}
	assert(n == 1, "every field is emitted once")
	return v
}

// keyed: everything was emitted under the measurement with the tag.
func (l *statLog) keyed(m, tag string) {
	for i := 0; i < l.n; i++ {
		assert(l.e[i].key.Measurement == m && l.e[i].key.Tags.Get("own") == tag && l.e[i].key.Tags.Len() == 1, "every value is emitted under the key of the source")
	}
}

func ownKey(m, tag string) monkit.SeriesKey { return monkit.NewSeriesKey(m).WithTag("own", tag) }

func C16_IntDist(m, tag string, a, b, c int64, n int) {
	d := monkit.NewIntDist(ownKey(m, tag))
	l := &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 1 && l.get("count", "own", tag) == 0, "without observations only the count is emitted")
	d.Insert(a)
	switch n {
	case 1:
	case 2:
		d.Insert(b)
	default:
		assume(n == 3)
		d.Insert(b)
		d.Insert(c)
	}
	d.Query(0)
	l = &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 12, "exactly the documented fields are emitted")
	assert(l.get("count", "own", tag) == float64(d.Count), "count is the number of observations")
	assert(l.get("sum", "own", tag) == float64(d.Sum), "sum is the sum")
	assert(l.get("min", "own", tag) == float64(d.Low), "min is the lowest")
	assert(l.get("max", "own", tag) == float64(d.High), "max is the highest")
	assert(l.get("recent", "own", tag) == float64(d.Recent), "recent is the latest")
	assert(l.get("rmin", "own", tag) == float64(d.Query(0)), "rmin is the lowest sampled")
	assert(l.get("rmax", "own", tag) == float64(d.Query(1)), "rmax is the highest sampled")
	assert(l.get("ravg", "own", tag) == float64(d.ReservoirAverage()), "ravg is the sampled average")
	assert(l.get("r10", "own", tag) == float64(d.Query(.1)), "r10 is the 0.1 quantile")
	assert(l.get("r50", "own", tag) == float64(d.Query(.5)), "r50 is the 0.5 quantile")
	assert(l.get("r90", "own", tag) == float64(d.Query(.9)), "r90 is the 0.9 quantile")
	assert(l.get("r99", "own", tag) == float64(d.Query(.99)), "r99 is the 0.99 quantile")
}

func C16_FloatDist(m, tag string, a, b, c float64, n int) {
	d := monkit.NewFloatDist(ownKey(m, tag))
	l := &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 1 && l.get("count", "own", tag) == 0, "without observations only the count is emitted")
	d.Insert(a)
	switch n {
	case 1:
	case 2:
		d.Insert(b)
	default:
		assume(n == 3)
		d.Insert(b)
		d.Insert(c)
	}
	d.Query(0)
	l = &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 12, "exactly the documented fields are emitted")
	assert(l.get("count", "own", tag) == float64(d.Count), "count is the number of observations")
	assert(same(l.get("sum", "own", tag), d.Sum), "sum is the sum")
	assert(same(l.get("min", "own", tag), d.Low), "min is the lowest")
	assert(same(l.get("max", "own", tag), d.High), "max is the highest")
	assert(same(l.get("recent", "own", tag), d.Recent), "recent is the latest")
	assert(same(l.get("rmin", "own", tag), d.Query(0)), "rmin is the lowest sampled")
	assert(same(l.get("rmax", "own", tag), d.Query(1)), "rmax is the highest sampled")
	assert(same(l.get("ravg", "own", tag), d.ReservoirAverage()), "ravg is the sampled average")
	assert(same(l.get("r10", "own", tag), d.Query(.1)), "r10 is the 0.1 quantile")
	assert(same(l.get("r50", "own", tag), d.Query(.5)), "r50 is the 0.5 quantile")
	assert(same(l.get("r90", "own", tag), d.Query(.9)), "r90 is the 0.9 quantile")
	assert(same(l.get("r99", "own", tag), d.Query(.99)), "r99 is the 0.99 quantile")
}

// same is equality that also holds for a value that is not a number.
func same(a, b float64) bool { return isVal(a, b) }

func checkDur(l *statLog, tag, val string, d *monkit.DurationDist) {
	checkDurRange(l, tag, val, d)
	assert(same(l.get("ravg", tag, val), d.ReservoirAverage().Seconds()), "ravg is the sampled average in seconds")
	assert(same(l.get("r10", tag, val), d.Query(.1).Seconds()), "r10 is the 0.1 quantile in seconds")
	assert(same(l.get("r50", tag, val), d.Query(.5).Seconds()), "r50 is the 0.5 quantile in seconds")
	assert(same(l.get("r90", tag, val), d.Query(.9).Seconds()), "r90 is the 0.9 quantile in seconds")
	assert(same(l.get("r99", tag, val), d.Query(.99).Seconds()), "r99 is the 0.99 quantile in seconds")
}

func checkDurRange(l *statLog, tag, val string, d *monkit.DurationDist) {
	assert(l.get("count", tag, val) == float64(d.Count), "count is the number of observations")
	assert(same(l.get("sum", tag, val), d.Sum.Seconds()), "sum is the sum in seconds")
	assert(same(l.get("min", tag, val), d.Low.Seconds()), "min is the lowest in seconds")
	assert(same(l.get("max", tag, val), d.High.Seconds()), "max is the highest in seconds")
	assert(same(l.get("recent", tag, val), d.Recent.Seconds()), "recent is the latest in seconds")
	assert(same(l.get("rmin", tag, val), d.Query(0).Seconds()), "rmin is the lowest sampled in seconds")
	assert(same(l.get("rmax", tag, val), d.Query(1).Seconds()), "rmax is the highest sampled in seconds")
}

func C16_DurationDist(m, tag string, a, b, c time.Duration, n int) {
	d := monkit.NewDurationDist(ownKey(m, tag))
	l := &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 1 && l.get("count", "own", tag) == 0, "without observations only the count is emitted")
	d.Insert(a)
	switch n {
	case 1:
	case 2:
		d.Insert(b)
	default:
		assume(n == 3)
		d.Insert(b)
		d.Insert(c)
	}
	d.Query(0)
	l = &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 12, "exactly the documented fields are emitted")
	checkDur(l, "own", tag, d)
}

func C16_Counter(m, tag string, a, b int64, n int) {
	c := monkit.NewCounter(ownKey(m, tag))
	l := &statLog{}
	c.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 3, "exactly the documented fields are emitted")
	assert(l.get("value", "own", tag) == 0, "a new counter is zero")
	assert(same(l.get("high", "own", tag), math.NaN()) && same(l.get("low", "own", tag), math.NaN()), "and has no high and low")
	c.Set(a)
	if n == 2 {
		c.Inc(b)
	}
	l = &statLog{}
	c.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 3, "exactly the documented fields are emitted")
	assert(l.get("value", "own", tag) == float64(c.Current()), "value is the current value")
	assert(l.get("high", "own", tag) == float64(c.High()), "high is the highest")
	assert(l.get("low", "own", tag) == float64(c.Low()), "low is the lowest")
}

// A single observed value of each kind is what all its fields tell.
func C16_IntVal(m, tag string, a int64) {
	v := monkit.NewIntVal(ownKey(m, tag))
	d := monkit.NewIntDist(ownKey(m, tag))
	v.Observe(a)
	d.Insert(a)
	d.Query(0)
	l, w := &statLog{}, &statLog{}
	v.Stats(l.take)
	d.Stats(w.take)
	l.keyed(m, tag)
	assert(l.n == w.n, "a value emits the fields of its distribution")
	for i := 0; i < 12; i++ {
		assert(l.e[i].field == w.e[i].field && same(l.e[i].val, w.e[i].val), "with their values")
	}
}

func C16_FloatVal(m, tag string, a float64) {
	v := monkit.NewFloatVal(ownKey(m, tag))
	d := monkit.NewFloatDist(ownKey(m, tag))
	v.Observe(a)
	d.Insert(a)
	d.Query(0)
	l, w := &statLog{}, &statLog{}
	v.Stats(l.take)
	d.Stats(w.take)
	l.keyed(m, tag)
	assert(l.n == w.n, "a value emits the fields of its distribution")
	for i := 0; i < 12; i++ {
		assert(l.e[i].field == w.e[i].field && same(l.e[i].val, w.e[i].val), "with their values")
	}
}

func C16_DurationVal(m, tag string, a time.Duration) {
	v := monkit.NewDurationVal(ownKey(m, tag))
	d := monkit.NewDurationDist(ownKey(m, tag))
	v.Observe(a)
	d.Insert(a)
	d.Query(0)
	l := &statLog{}
	v.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 12, "a value emits the fields of its distribution")
	checkDur(l, "own", tag, d)
}

func C16_Timer(m, tag string) {
	t := monkit.NewTimer(ownKey(m, tag))
	l := &statLog{}
	t.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 1 && l.get("count", "own", tag) == 0, "without observations only the count is emitted")
	a := t.Start().Stop()
	d := monkit.NewDurationDist(ownKey(m, tag))
	d.Insert(a)
	d.Query(0)
	l = &statLog{}
	t.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 12, "a timer emits the fields of its distribution")
	checkDur(l, "own", tag, d)
}

func C16_BoolVal(m, tag string, a, b bool) {
	v := monkit.NewBoolVal(ownKey(m, tag))
	v.Observe(a)
	v.Observe(b)
	l := &statLog{}
	v.Stats(l.take)
	l.keyed(m, tag)
	t, f, r := 0.0, 0.0, 0.0
	if a {
		t++
	} else {
		f++
	}
	if b {
		t++
		r = 1
	} else {
		f++
	}
	assert(l.n == 4, "exactly the documented fields are emitted")
	assert(l.get("true", "own", tag) == t, "true is the number of trues")
	assert(l.get("false", "own", tag) == f, "false is the number of falses")
	assert(l.get("disposition", "own", tag) == t-f, "disposition is their difference")
	assert(l.get("recent", "own", tag) == r, "recent is the latest")
}

func C16_Meter(m, tag string, a, b int64) {
	x := monkit.NewMeter(ownKey(m, tag))
	x.Mark64(a)
	l := &statLog{}
	x.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 2, "exactly the documented fields are emitted")
	assert(isInt(l.get("total", "own", tag), a), "total is the sum of all marks")
	l.get("rate", "own", tag)
	y := monkit.NewMeter(ownKey("other", "t"))
	y.Mark64(b)
	d := monkit.NewDiffMeter(ownKey(m, tag), x, y)
	l = &statLog{}
	d.Stats(l.take)
	l.keyed(m, tag)
	assert(l.n == 2, "exactly the documented fields are emitted")
	assert(isInt(l.get("total", "own", tag), a-b), "total is the difference of the totals")
	l.get("rate", "own", tag)
}

func C16_Gauge(name string, x float64) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	sc.Gauge(name, func() float64 { return x })
	l := &statLog{}
	sc.Stats(l.take)
	assert(l.n == 1 && l.e[0].key.Measurement == name && l.e[0].field == "value" && same(l.e[0].val, x), "a gauge emits what its function returns as its value")
}

func outcome(f *monkit.FuncStats, how int, err error, val interface{}) int {
	switch how {
	case 0:
		f.Observe()(nil)
		return 0
	case 1:
		f.Observe()(&err)
		return 1
	}
	assume(how == 2)
	func() {
		defer func() { recover() }()
		defer f.Observe()(nil)
		panic(val)
	}()
	return 2
}

func C16_FuncStats(m, tag string, h1, h2 int, e1, e2 error, val interface{}) {
	assume(e1 != nil)
	assume(e2 != nil)
	assume(val != nil)
	f := monkit.NewFuncStats(ownKey(m, tag))
	h1 = outcome(f, h1, e1, val)
	h2 = outcome(f, h2, e2, val)
	f.Observe()
	n := [3]int64{}
	n[h1]++
	n[h2]++
	names := 0
	if n[1] > 0 {
		names = 1
		if n[1] == 2 && errname(e1) != errname(e2) {
			names = 2
		}
	}
	l := &statLog{}
	f.Stats(l.take)
	k := 0
	if n[0] > 0 {
		k += 11
	}
	if n[1]+n[2] > 0 {
		k += 11
	}
	assert(l.n == 9+names+k, "exactly the documented fields are emitted")
	for i := 0; i < l.n; i++ {
		key := l.e[i].key
		assert(key.Tags.Get("own") == tag, "every value is emitted under the key of the source")
		if key.Tags.Get("kind") != "" {
			assert(key.Measurement == m+"_times" && key.Tags.Len() == 2, "times are emitted under their own key")
			assert(key.Tags.Get("kind") == "success" || key.Tags.Get("kind") == "failure", "times are of successes or failures")
		} else {
			assert(key.Measurement == m, "counts are emitted under the key of the source")
			if key.Tags.Len() == 2 {
				assert(l.e[i].field == "count", "errors are counted by name")
				name := key.Tags.Get("error_name")
				c := 0.0
				if h1 == 1 && name == errname(e1) {
					c++
				}
				if h2 == 1 && name == errname(e2) {
					c++
				}
				assert(l.e[i].val == c && c > 0, "errors are counted by name")
			}
		}
	}
	assert(l.get("current", "error_name", "") == 1, "current is the number running")
	assert(l.get("highwater", "error_name", "") == 1, "highwater is the most there were running")
	assert(isInt(l.get("successes", "error_name", ""), n[0]), "successes are the successes")
	assert(isInt(l.get("errors", "error_name", ""), n[1]), "errors are the errors")
	assert(isInt(l.get("panics", "error_name", ""), n[2]), "panics are the panics")
	assert(isInt(l.get("failures", "error_name", ""), n[1]+n[2]), "failures are the errors and panics")
	assert(isInt(l.get("total", "error_name", ""), n[0]+n[1]+n[2]), "total is everything")
	st, ft := f.SuccessTimes(), f.FailureTimes()
	st.Query(0)
	ft.Query(0)
	if n[0] == 1 {
		checkDur(l, "kind", "success", st)
	} else if n[0] > 0 {
		checkDurRange(l, "kind", "success", st)
	}
	if n[1]+n[2] == 1 {
		checkDur(l, "kind", "failure", ft)
	} else if n[1]+n[2] > 0 {
		checkDurRange(l, "kind", "failure", ft)
	}
}

// Collect keys every value by its series and field.
func C16_Collect(x, y, z float64) {
	k := monkit.NewSeriesKey("m").WithTag("a", "b")
	s := monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
		cb(k, "f", x)
		cb(k, "g", y)
		cb(k.WithTag("c", "d"), "f", z)
	})
	got := monkit.Collect(s)
	assert(same(got[k.WithField("f")], x) && same(got[k.WithField("g")], y) && same(got[k.WithTag("c", "d").WithField("f")], z), "every value is found under its series and field")
	assert(len(got) == 3, "and nothing else")
}
