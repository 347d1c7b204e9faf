// Package zzverifspec holds contract drivers. They are analysed, never run.
package zzverifspec

import (
	"context"
	"net/http"
	"time"
)

// assert demands that ok holds whenever this point is reached.
func assert(ok bool, what string) {}

// assume restricts the driver to the executions where ok holds.
func assume(ok bool) {}

// mark is the current point of the execution.
func mark() int { return 0 }

// elapsed reports whether d is the difference of a reading of the monotonic
// clock taken between c and d and one taken between a and b.
func elapsed(x time.Duration, a, b, c, d int) bool { return false }

// errname is the name the library gives an error.
func errname(err error) string { return "" }

// unreachable must not be reached.
func unreachable() {}

// isSum reports whether x is the sum of a and b.
func isSum(x, a, b float64) bool { return false }

// isInt reports whether x is the number n.
func isInt(x float64, n int64) bool { return false }

// isTotalOf reports whether x is the sum of all values of m.
func isTotalOf(x float64, m map[string]int64) bool { return false }

// clockIn reports whether x is a reading of the monotonic clock taken between a
// and b.
func clockIn(x time.Time, a, b int) bool { return false }

// swapElems exchanges two elements of a slice.
func swapElems(x interface{}, i, j int) {}

// sortIface, sortSlice and sortStrings stand for the sorting of up to three
// elements.
func sortIface(x interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}, n int) {
	if n >= 2 && x.Less(1, 0) {
		x.Swap(1, 0)
	}
	if n >= 3 && x.Less(2, 1) {
		x.Swap(2, 1)
		if x.Less(1, 0) {
			x.Swap(1, 0)
		}
	}
}

func sortSlice(x interface{}, less func(i, j int) bool, n int) {
	if n >= 2 && less(1, 0) {
		swapElems(x, 1, 0)
	}
	if n >= 3 && less(2, 1) {
		swapElems(x, 2, 1)
		if less(1, 0) {
			swapElems(x, 1, 0)
		}
	}
}

func sortStrings(x []string, n int) {
	sortSlice(x, func(i, j int) bool { return x[i] < x[j] }, n)
}

// isVal reports whether x is the very same value as y.
func isVal(x, y float64) bool { return false }

// identical reports whether x is the very same value as y.
func identical(x, y interface{}) bool { return false }

// what the methods of http.Header do, the name being in canonical form
func headerGet(h http.Header, name string) string {
	v := h[name]
	if len(v) == 0 {
		return ""
	}
	return v[0]
}

func headerSet(h http.Header, name, val string) { h[name] = []string{val} }

func headerAdd(h http.Header, name, val string) { h[name] = append(h[name], val) }

func headerDel(h http.Header, name string) { delete(h, name) }

func headerValues(h http.Header, name string) []string { return h[name] }

// interrupt is other activity, which may come in between anywhere.
var interrupt func()

// waiting is what happens while everything waits.
var waiting func()

// leftIn reports whether something of a package can be reached from x.
func leftIn(x interface{}, pkg string) bool { return false }

// resume lets the goroutines the library has started go on for a while,
// runThreads until they wait or end. park pauses the goroutine it is called in.
// threads counts the goroutines that have not ended, inThread reports whether
// one of them is running.
func resume()        {}
func runThreads()    {}
func park()          {}
func threads() int   { return 0 }
func inThread() bool { return false }

// Stand-ins for time and context.

var tickers []chan time.Time

func newTicker(d time.Duration) *time.Ticker { return &time.Ticker{C: timeAfter(d)} }
func newTimer(d time.Duration) *time.Timer   { return &time.Timer{C: timeAfter(d)} }
func stopTicker(t *time.Ticker)              {}
func stopTimer(t *time.Timer) bool           { return true }
func resetTicker(t *time.Ticker, d time.Duration) {
}
func resetTimer(t *time.Timer, d time.Duration) bool { return true }

func timeAfter(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	tickers = append(tickers, ch)
	return ch
}

// tick lets the time pass.
func tick() {
	for _, ch := range tickers {
		select {
		case <-ch: // at most one is waiting
		default:
		}
		ch <- time.Time{}
	}
}

// endable is a context that can be cancelled.
type endable struct {
	context.Context
	done  chan struct{}
	ended bool
}

func (c *endable) Done() <-chan struct{} { return c.done }
func (c *endable) Err() error {
	if c.ended {
		return context.Canceled
	}
	return nil
}

func withCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &endable{Context: parent, done: make(chan struct{})}
	return c, func() {
		if !c.ended {
			c.ended = true
			close(c.done)
		}
	}
}
