package zzverifspec

import (
	"github.com/spacemonkeygo/monkit/v3"
)

// What the error counts were when asked for.
func C14_Errors(f *monkit.FuncStats, name, other string, n int64) {
	m := f.Errors()
	before := m[name]
	was := m[other]
	m[name] = n
	delete(m, other)
	if name != other {
		assert(f.Errors()[name] == before && f.Errors()[other] == was, "changing the result changes nothing else")
	}
}

func C14_ErrorsLater(err error) {
	assume(err != nil)
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	m := f.Errors()
	f.Observe()(&err)
	assert(m[errname(err)] == 0, "later errors do not show up in an earlier result")
	m = f.Errors()
	assert(m[errname(err)] == 1, "the error is counted")
	f.Observe()(&err)
	assert(m[errname(err)] == 1, "later errors do not show up in an earlier result")
	f.Reset()
	assert(m[errname(err)] == 1, "nor does a reset")
	m[errname(err)] = 7
	f.Observe()(&err)
	assert(f.Errors()[errname(err)] == 1, "changing the result changes nothing else")
}

func C14_Times(f *monkit.FuncStats, err error) {
	d := f.SuccessTimes()
	e := f.FailureTimes()
	n, sum, rec, low, high := d.Count, d.Sum, d.Recent, d.Low, d.High
	n2, sum2, rec2, low2, high2 := e.Count, e.Sum, e.Recent, e.Low, e.High
	f.Observe()(&err)
	f.Reset()
	assert(d.Count == n && d.Sum == sum && d.Recent == rec && d.Low == low && d.High == high, "a copy of the success times stays as it was")
	assert(e.Count == n2 && e.Sum == sum2 && e.Recent == rec2 && e.Low == low2 && e.High == high2, "a copy of the failure times stays as it was")
}

func C14_TimesBack(f *monkit.FuncStats) {
	n, m := f.SuccessTimes().Count, f.FailureTimes().Count
	f.SuccessTimes().Insert(1)
	f.SuccessTimes().Reset()
	f.FailureTimes().Insert(1)
	f.FailureTimes().Reset()
	assert(f.SuccessTimes().Count == n && f.FailureTimes().Count == m, "changing the copy changes nothing else")
}

func C14_Timer(t *monkit.Timer) {
	d := t.Values()
	n, sum, rec := d.Count, d.Sum, d.Recent
	t.Start().Stop()
	assert(d.Count == n && d.Sum == sum && d.Recent == rec, "a copy of the times stays as it was")
	d.Insert(5)
	d.Reset()
	assert(t.Values().Count == n+1, "changing the copy changes nothing else")
}

func C14_TraceValues(same bool, x, y interface{}) {
	t := monkit.NewTrace(1)
	var k, l interface{} = ctxTag(1), ctxTag(2)
	if same {
		l = k
	}
	all := t.GetAll()
	t.Set(k, x)
	assert(all[k] == nil, "later values do not show up in an earlier result")
	all = t.GetAll()
	assert(all[k] == x && t.Get(k) == x, "the value is there")
	t.Set(k, y)
	assert(all[k] == x, "later values do not show up in an earlier result")
	assert(t.Get(k) == y && t.GetAll()[k] == y, "the value was replaced")
	all[k] = x
	delete(all, k)
	assert(t.Get(k) == y, "changing the result changes nothing else")
	if !same {
		assert(t.Get(l) == nil, "other keys have no value")
		all[l] = x
		assert(t.Get(l) == nil, "changing the result changes nothing else")
		t.Set(l, x)
		assert(t.Get(l) == x && t.Get(k) == y, "keys do not share values")
	}
}

// Tags: deriving never alters what it is derived from.
func C14_TagSet(a, va, b, vb, c, vc string) {
	t := (&monkit.TagSet{}).Set(a, va)
	u := t.Set(b, vb)
	assert(t.Get(a) == va, "the original keeps its tag")
	if a == b {
		assert(u.Get(a) == vb, "the new tag replaces the old one")
	} else {
		assert(u.Get(a) == va && u.Get(b) == vb, "the derived set has both tags")
		assert(t.Get(b) == "", "the original has no other tag")
	}
	v := t.SetTags(monkit.NewSeriesTag(c, vc))
	assert(v.Get(c) == vc && t.Get(a) == va, "the derived set has its tag")
	if a != c {
		assert(t.Get(c) == "" && v.Get(a) == va, "the original has no other tag")
		if b != c {
			assert(u.Get(c) == "", "nor has its sibling")
		}
	}
}

func C14_NilTagSet(a, va string) {
	var t *monkit.TagSet
	assert(t.Get(a) == "" && t.Len() == 0 && t.String() == "" && t.All() == nil, "no tags are no tags")
	u := t.Set(a, va)
	v := t.SetTags(monkit.NewSeriesTag(a, va))
	assert(u.Get(a) == va && v.Get(a) == va, "tags can be added to none")
	w := t.SetAll(nil)
	assert(w.Get(a) == "" && w.Len() == 0, "no tags are no tags")
}

// A caller's map is only read.
func C14_SetAll(a, va, b, vb string) {
	kvs := map[string]string{a: va}
	t := (&monkit.TagSet{}).SetAll(kvs)
	assert(t.Get(a) == va, "the tags are set")
	kvs[a] = vb
	kvs[b] = vb
	assert(t.Get(a) == va, "later changes of the caller's map do not show")
	if a != b {
		assert(t.Get(b) == "", "later changes of the caller's map do not show")
	}
	delete(kvs, a)
	assert(t.Get(a) == va, "later changes of the caller's map do not show")
	kvs = map[string]string{a: va}
	u := t.Set(b, vb).SetAll(kvs)
	assert(kvs[a] == va, "the caller's map keeps its content")
	if a != b {
		assert(kvs[b] == "", "the caller's map is not added to")
		assert(u.Get(b) == vb && u.Get(a) == va, "the derived set has both tags")
	}
}

func C14_SeriesKey(m, a, va, b, vb string) {
	k := monkit.NewSeriesKey(m)
	l := k.WithTag(a, va)
	assert(k.Tags.Get(a) == "" && k.Measurement == m, "the original has no tag")
	assert(l.Tags.Get(a) == va && l.Measurement == m, "the derived key has it")
	n := l.WithTags(monkit.NewSeriesTag(b, vb))
	assert(l.Tags.Get(a) == va && l.Measurement == m, "the original keeps its tag")
	assert(n.Tags.Get(b) == vb && n.Measurement == m, "the derived key has it")
	if a != b {
		assert(l.Tags.Get(b) == "" && n.Tags.Get(a) == va, "the original has no other tag")
	}
	o := n.WithTags()
	assert(o.Tags.Get(b) == vb && o.Measurement == m, "without new tags nothing changes")
}

// The tags of a metric are those given when it was made.
func C14_MetricTags(a, va, vb string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	tags := []monkit.SeriesTag{{Key: a, Val: va}}
	c := sc.Counter("c", tags...)
	c.Inc(1)
	tags[0] = monkit.NewSeriesTag(a, vb)
	s := &sink{}
	c.Stats(s.take)
	assert(s.n > 0 && s.last.key.Tags.Get(a) == va, "later changes of the caller's tags do not show")
}

// An emitted key belongs to the receiver.
func C14_EmittedKey(m, a, va string) {
	sc := monkit.NewRegistry().ScopeNamed("s")
	c := sc.Counter(m)
	c.Inc(1)
	s := &sink{}
	c.Stats(s.take)
	k := s.last.key.WithTag(a, va)
	c.Stats(s.take)
	assert(s.last.key.Tags.Get(a) == "" && s.last.key.Measurement == m && k.Tags.Get(a) == va, "deriving from an emitted key changes nothing else")
}
