//go:build !tinygo
// +build !tinygo

package zzverifspec

import (
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
)

// readout is what the sources have emitted.
type readout struct {
	n int
	e [256]stat
}

func (l *readout) take(key monkit.SeriesKey, field string, val float64) {
	if l.n < 256 {
		l.e[l.n] = stat{key, field, val}
	}
	l.n++
}

func read(src monkit.StatSource) *readout {
	l := &readout{}
	src.Stats(l.take)
	assert(!leaked(), "what is opened is closed")
	return l
}

// count is how often a reading was emitted.
func (l *readout) count(m, field string) int {
	n := 0
	for i := 0; i < l.n; i++ {
		if l.e[i].key.Measurement == m && l.e[i].field == field {
			n++
		}
	}
	return n
}

// get is the reading, which was emitted once.
func (l *readout) get(m, field string) float64 {
	n := 0
	v := 0.0
	for i := 0; i < l.n; i++ {
		if l.e[i].key.Measurement == m && l.e[i].field == field {
			n++
			v = l.e[i].val
		}
	}
	assert(n == 1, "the reading is emitted once under its key")
	return v
}

func (l *readout) has(m, field string, val float64) {
	assert(isVal(l.get(m, field), val), "the reading is what was found")
}

// Everything that fails keeps its own readings back only.
func C31_Process(noOpen, noRead bool) {
	host = machine{noOpen: noOpen, noRead: noRead, text: "x"}
	src := environment.Process()
	can := canRead()
	want := 1
	for i := 0; i < 2; i++ {
		l := read(src)
		assert(isInt(l.get("process", "control"), 1), "a process counts as one")
		l.get("process", "uptime")
		if noOpen || noRead || !can {
			want = 0
		}
		assert(l.count("process", "crc") == want, "the reading is emitted once, and not when it failed")
	}
}

func C31_Runtime(n int64, goroutines int, alloc uint64, p time.Duration) {
	assume(n > 0)
	host = machine{numGC: n, pauses: []time.Duration{p}, goroutines: goroutines, alloc: alloc}
	l := read(environment.Runtime())
	l.has("goroutines", "count", float64(goroutines))
	l.has("runtime_memstats", "Alloc", float64(alloc))
	assert(isInt(l.get("runtime_gcstats", "count"), 1), "a pause is observed")
	assert(isVal(l.get("runtime_gcstats", "recent"), p.Seconds()), "a pause is observed")
}

// A pause is observed once, however often the source is read.
func C31_Pauses(n, m int64, p, q time.Duration) {
	assume(n > 0)
	assume(m != n)
	assume(m != 0)
	host = machine{numGC: n, pauses: []time.Duration{p}}
	src := environment.Runtime()
	for i := 0; i < 3; i++ {
		l := read(src)
		assert(isInt(l.get("runtime_gcstats", "count"), 1), "a pause is observed once")
	}
	host.numGC = m
	host.pauses = []time.Duration{q, p}
	l := read(src)
	assert(isInt(l.get("runtime_gcstats", "count"), 2), "the next pause is observed")
	assert(isVal(l.get("runtime_gcstats", "recent"), q.Seconds()), "the latest pause is observed")
	l = read(src)
	assert(isInt(l.get("runtime_gcstats", "count"), 2), "a pause is observed once")
}

func C31_NoPauses(n int64) {
	host = machine{numGC: n}
	src := environment.Runtime()
	for i := 0; i < 2; i++ {
		l := read(src)
		assert(isInt(l.get("runtime_gcstats", "count"), 0), "nothing is observed when nothing is known")
	}
}

// Sources keep their observations to themselves.
func C31_TwoSources(n int64, p time.Duration) {
	assume(n > 0)
	host = machine{numGC: n, pauses: []time.Duration{p}}
	a, b := environment.Runtime(), environment.Runtime()
	read(a)
	l := read(b)
	assert(isInt(l.get("runtime_gcstats", "count"), 1), "a pause is observed")
	l = read(a)
	assert(isInt(l.get("runtime_gcstats", "count"), 1), "a pause is observed once")
}

// Even if it is read by several at the same time.
func C31_PausesTogether(n int64, p time.Duration) {
	assume(n > 0)
	host = machine{numGC: n, pauses: []time.Duration{p}}
	src := environment.Runtime()
	interrupt = func() { src.Stats(func(monkit.SeriesKey, string, float64) {}) }
	src.Stats(func(monkit.SeriesKey, string, float64) {})
	interrupt = nil
	l := read(src)
	assert(isInt(l.get("runtime_gcstats", "count"), 1), "a pause is observed once")
}

// marks counts the readings that tell the sources.
type marks struct{ control, goroutines, pauses, fds, stat, statm, usage int }

func (k *marks) take(key monkit.SeriesKey, field string, val float64) {
	switch {
	case key.Measurement == "process" && field == "control":
		k.control++
	case key.Measurement == "goroutines" && field == "count":
		k.goroutines++
	case key.Measurement == "runtime_gcstats" && field == "count":
		k.pauses++
	case key.Measurement == "fds" && field == "count":
		k.fds++
	case key.Measurement == "proc_stat" && field == "Pid":
		k.stat++
	case key.Measurement == "proc_statm" && field == "Size":
		k.statm++
	case key.Measurement == "rusage" && field == "Maxrss":
		k.usage++
	}
}

func chained(r *monkit.Registry) {
	k := &marks{}
	r.Stats(k.take)
	assert(k.control == 1 && k.goroutines == 1 && k.pauses == 1, "every source is chained once")
	onlyHere(k)
	assert(!leaked(), "what is opened is closed")
}

// Register chains every source once.
func C31_Register(first, rest int) {
	host = machine{text: "x", first: first, rest: rest, numGC: 1, pauses: []time.Duration{1}}
	assume(first > 0)
	assume(rest > 0)
	r, other := monkit.NewRegistry(), monkit.NewRegistry()
	environment.Register(r)
	chained(r)
	n := 0
	other.Stats(func(monkit.SeriesKey, string, float64) { n++ })
	assert(n == 0, "no other registry has them")
}

func C31_RegisterDefault() {
	host = machine{text: "x", first: 1, rest: 1, numGC: 1, pauses: []time.Duration{1}}
	environment.Register(nil)
	chained(monkit.Default)
}
