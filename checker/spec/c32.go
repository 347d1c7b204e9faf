package zzverifspec

import (
	"context"
	"io"
	"net"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// Errors named alike in every configuration.
func Variant_ErrorNames(which int, str string, b bool) {
	var err error
	want := ""
	switch which {
	case 0:
		err, want = io.EOF, "EOF"
	case 1:
		err, want = io.ErrUnexpectedEOF, "Unexpected EOF Error"
	case 2:
		err, want = io.ErrClosedPipe, "Closed Pipe Error"
	case 3:
		err, want = io.ErrNoProgress, "No Progress Error"
	case 4:
		err, want = io.ErrShortBuffer, "Short Buffer Error"
	case 5:
		err, want = io.ErrShortWrite, "Short Write Error"
	case 6:
		err, want = context.Canceled, "Canceled"
	case 7:
		err, want = context.DeadlineExceeded, "Timeout"
	case 8:
		err, want = &net.AddrError{Err: str}, "Addr Error"
	case 9:
		err, want = &net.OpError{Op: str}, "Net Op Error"
	case 10:
		err, want = &net.ParseError{Type: str}, "Net Parse Error"
	case 11:
		err, want = &netErr{b, b}, "Network Error"
	default:
		assume(which == 12)
		err, want = &plainErr{}, "System Error"
	}
	assert(named(err, want), "the error has its documented name")
}

// The generated distributions do the same with the same numbers.
func C32_IntDuration(a, b, c int64, n int, reset, copied bool) {
	d := monkit.NewIntDist(ownKey("m", "t"))
	e := monkit.NewDurationDist(ownKey("m", "t"))
	put := func(v int64) {
		d.Insert(v)
		e.Insert(time.Duration(v))
	}
	switch n {
	case 0:
	case 1:
		put(a)
	case 2:
		put(a)
		put(b)
	default:
		assume(n == 3)
		put(a)
		put(b)
		put(c)
	}
	if reset {
		d.Reset()
		e.Reset()
	}
	if copied {
		d, e = d.Copy(), e.Copy()
	}
	assert(d.Count == e.Count, "the same count")
	assert(d.Sum == int64(e.Sum), "the same sum")
	assert(d.Low == int64(e.Low), "the same minimum")
	assert(d.High == int64(e.High), "the same maximum")
	assert(d.Recent == int64(e.Recent), "the same recent value")
	assert(d.FullAverage() == int64(e.FullAverage()), "the same average")
	assert(d.ReservoirAverage() == int64(e.ReservoirAverage()), "the same sample average")
	if n == 1 || reset {
		assert(d.Query(.5) == int64(e.Query(.5)), "the same median of less than two values")
	}
}
