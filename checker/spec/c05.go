package zzverifspec

import (
	"context"

	"github.com/spacemonkeygo/monkit/v3"
)

type funcView struct {
	success, panics, okN, failN int64
	errs                        map[string]int64
}

func view(f *monkit.FuncStats) (v funcView) {
	v.success, v.panics = f.Success(), f.Panics()
	v.okN, v.failN = f.SuccessTimes().Count, f.FailureTimes().Count
	v.errs = f.Errors()
	return v
}

func C05_ObserveReturns(f *monkit.FuncStats, err error, nilPtr bool, other string) {
	before := view(f)
	assert(before.success == before.okN, "the successes are the number of success times")
	m0 := mark()
	exit := f.Observe()
	m1 := mark()
	errp := &err
	if nilPtr {
		errp = nil
	}
	exit(errp)
	m2 := mark()
	after := view(f)
	assert(after.panics == before.panics, "a call that returns is no panic")
	if nilPtr || err == nil {
		assert(after.success == before.success+1, "one more success")
		assert(after.okN == before.okN+1, "one more success time")
		assert(after.failN == before.failN, "no failure time")
		assert(after.errs[other] == before.errs[other], "no error counted")
		assert(elapsed(f.SuccessTimes().Recent, m0, m1, m1, m2), "the success time is the elapsed time")
	} else {
		name := errname(err)
		assert(after.success == before.success, "no success")
		assert(after.okN == before.okN, "no success time")
		assert(after.failN == before.failN+1, "one more failure time")
		assert(after.errs[name] == before.errs[name]+1, "one more error of that name")
		assert(elapsed(f.FailureTimes().Recent, m0, m1, m1, m2), "the failure time is the elapsed time")
		if other != name {
			assert(after.errs[other] == before.errs[other], "errors of other names are unchanged")
		}
	}
}

func C05_ObservePanics(f *monkit.FuncStats, err error, nilPtr bool, other string, val interface{}) {
	assume(val != nil)
	before := view(f)
	m0 := mark()
	exit := f.Observe()
	m1 := mark()
	errp := &err
	if nilPtr {
		errp = nil
	}
	func() {
		defer func() { recover() }()
		defer exit(errp)
		panic(val)
	}()
	m2 := mark()
	after := view(f)
	assert(after.panics == before.panics+1, "one more panic")
	assert(after.success == before.success, "no success")
	assert(after.okN == before.okN, "no success time")
	assert(after.failN == before.failN+1, "one more failure time")
	assert(after.errs[other] == before.errs[other], "no error counted")
	assert(elapsed(f.FailureTimes().Recent, m0, m1, m1, m2), "the failure time is the elapsed time")
}

func C05_TaskReturns(f *monkit.Func, err error, nilPtr bool, other string) {
	fs := &f.FuncStats
	before := view(fs)
	ctx := context.Background()
	m0 := mark()
	exit := f.Task(&ctx)
	m1 := mark()
	errp := &err
	if nilPtr {
		errp = nil
	}
	exit(errp)
	m2 := mark()
	after := view(fs)
	assert(after.panics == before.panics, "a call that returns is no panic")
	if nilPtr || err == nil {
		assert(after.success == before.success+1, "one more success")
		assert(after.okN == before.okN+1, "one more success time")
		assert(after.failN == before.failN, "no failure time")
		assert(after.errs[other] == before.errs[other], "no error counted")
		assert(elapsed(f.SuccessTimes().Recent, m0, m1, m1, m2), "the success time is the elapsed time")
	} else {
		name := errname(err)
		assert(after.success == before.success, "no success")
		assert(after.okN == before.okN, "no success time")
		assert(after.failN == before.failN+1, "one more failure time")
		assert(after.errs[name] == before.errs[name]+1, "one more error of that name")
		assert(elapsed(f.FailureTimes().Recent, m0, m1, m1, m2), "the failure time is the elapsed time")
		if other != name {
			assert(after.errs[other] == before.errs[other], "errors of other names are unchanged")
		}
	}
}

func C05_TaskPanics(f *monkit.Func, err error, nilPtr bool, other string, val interface{}) {
	assume(val != nil)
	fs := &f.FuncStats
	before := view(fs)
	ctx := context.Background()
	m0 := mark()
	exit := f.Task(&ctx)
	m1 := mark()
	errp := &err
	if nilPtr {
		errp = nil
	}
	func() {
		defer func() { recover() }()
		defer exit(errp)
		panic(val)
	}()
	m2 := mark()
	after := view(fs)
	assert(after.panics == before.panics+1, "one more panic")
	assert(after.success == before.success, "no success")
	assert(after.okN == before.okN, "no success time")
	assert(after.failN == before.failN+1, "one more failure time")
	assert(after.errs[other] == before.errs[other], "no error counted")
	assert(elapsed(f.FailureTimes().Recent, m0, m1, m1, m2), "the failure time is the elapsed time")
}

func C05_Reset(f *monkit.FuncStats, other string) {
	f.Reset()
	v := view(f)
	assert(v.success == 0, "no successes after Reset")
	assert(v.panics == 0, "no panics after Reset")
	assert(v.okN == 0, "no success times after Reset")
	assert(v.failN == 0, "no failure times after Reset")
	assert(v.errs[other] == 0, "no errors after Reset")
}

func C05_New(key monkit.SeriesKey, other string) {
	v := view(monkit.NewFuncStats(key))
	assert(v.success == 0, "no successes at first")
	assert(v.panics == 0, "no panics at first")
	assert(v.okN == 0, "no success times at first")
	assert(v.failN == 0, "no failure times at first")
	assert(v.errs[other] == 0, "no errors at first")
}

func C05_Totals(f *monkit.FuncStats) {
	errs := f.Errors()
	var successes, errors, panics, failures, total float64
	f.Stats(func(key monkit.SeriesKey, field string, val float64) {
		switch field {
		case "successes":
			successes = val
		case "errors":
			errors = val
		case "panics":
			panics = val
		case "failures":
			failures = val
		case "total":
			total = val
		}
	})
	assert(isSum(failures, errors, panics), "failures = errors + panics")
	assert(isSum(total, successes, failures), "total = successes + failures")
	assert(isInt(successes, f.Success()), "the reported successes")
	assert(isInt(panics, f.Panics()), "the reported panics")
	assert(isTotalOf(errors, errs), "errors is the sum over all names")
}
