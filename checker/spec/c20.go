package zzverifspec

import (
	"context"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/spacemonkeygo/monkit/v3"
)

// named reports whether the library counts err under the name want, and only
// there.
func named(err error, want string) bool {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	exit := f.Observe()
	exit(&err)
	return only(f.Errors(), want)
}

// only: the one entry of a map of counts is one of the given name.
func only(errs map[string]int64, want string) bool {
	n := 0
	ok := true
	for k, v := range errs {
		n++
		if k != want || v != 1 {
			ok = false
		}
	}
	return ok && n == 1
}

type plainErr struct{ v int }

func (e *plainErr) Error() string { return "plain" }

type namedErr struct {
	name string
	ok   bool
}

func (e *namedErr) Error() string        { return "named" }
func (e *namedErr) Name() (string, bool) { return e.name, e.ok }

type netErr struct{ a, b bool }

func (e *netErr) Error() string   { return "net" }
func (e *netErr) Timeout() bool   { return e.a }
func (e *netErr) Temporary() bool { return e.b }

// both a namer and a network error
type namedNetErr struct {
	netErr
	name string
	ok   bool
}

func (e *namedNetErr) Name() (string, bool) { return e.name, e.ok }

// known returns an error of the built-in table with its name.
func known(which int, n uintptr, b bool, str string) (error, string) {
	switch which {
	case 0:
		return io.EOF, "EOF"
	case 1:
		return io.ErrUnexpectedEOF, "Unexpected EOF Error"
	case 2:
		return io.ErrClosedPipe, "Closed Pipe Error"
	case 3:
		return io.ErrNoProgress, "No Progress Error"
	case 4:
		return io.ErrShortBuffer, "Short Buffer Error"
	case 5:
		return io.ErrShortWrite, "Short Write Error"
	case 6:
		return context.Canceled, "Canceled"
	case 7:
		return context.DeadlineExceeded, "Timeout"
	case 8:
		return syscall.Errno(n), "Errno"
	case 9:
		return net.UnknownNetworkError(str), "Unknown Network Error"
	case 10:
		return &net.AddrError{Err: str}, "Addr Error"
	case 11:
		return net.InvalidAddrError(str), "Invalid Addr Error"
	case 12:
		return &net.OpError{Op: str}, "Net Op Error"
	case 13:
		return &net.ParseError{Type: str}, "Net Parse Error"
	case 14:
		return &net.DNSError{Err: str, IsTimeout: b}, "DNS Error"
	case 15:
		return &net.DNSConfigError{}, "DNS Config Error"
	case 16:
		return &netErr{b, b}, "Network Error"
	case 17:
		return &os.SyscallError{Syscall: str}, "System Error"
	}
	assume(which == 18)
	return &plainErr{}, "System Error"
}

// The built-in table.
func C20_Table(which int, n uintptr, b bool, str string) {
	err, want := known(which, n, b, str)
	assert(named(err, want), "the error has its documented name")
}

// An error naming itself comes before the table, unless it declines.
func C20_Namer(net bool, name string, ok bool) {
	var err error
	want := "System Error"
	if net {
		err = &namedNetErr{name: name, ok: ok}
		want = "Network Error"
	} else {
		err = &namedErr{name: name, ok: ok}
	}
	if ok {
		assert(named(err, name), "the error's own name is used")
	} else {
		assert(named(err, want), "a name that was declined is not used")
	}
}

type handler struct {
	name string
	ok   bool
	n    int
	got  error
}

func (h *handler) handle(err error) (string, bool) {
	h.n++
	h.got = err
	return h.name, h.ok
}

// Handlers come first, the most recent one before the others.
func C20_Handlers(which int, a, b, c string, oka, okb, okc bool) {
	var err error = &plainErr{}
	want := "System Error"
	switch which {
	case 0:
		err, want = io.EOF, "EOF"
	case 1:
		err, want = &namedErr{name: "own", ok: true}, "own"
	case 2:
		err, want = &netErr{}, "Network Error"
	default:
		assume(which == 3)
	}
	assert(named(err, want), "without handlers the error has its own name")
	h1 := &handler{name: a, ok: oka}
	h2 := &handler{name: b, ok: okb}
	h3 := &handler{name: c, ok: okc}
	monkit.AddErrorNameHandler(h1.handle)
	if oka {
		want = a
	}
	assert(named(err, want), "a handler that claims the error names it")
	assert(h1.n == 1 && h1.got == err, "it is asked about that error")
	monkit.AddErrorNameHandler(h2.handle)
	if okb {
		want = b
	}
	assert(named(err, want), "the most recent handler that claims the error names it")
	assert(h2.n == 1 && h2.got == err, "it is asked about that error")
	monkit.AddErrorNameHandler(h3.handle)
	if okc {
		want = c
	}
	assert(named(err, want), "the most recent handler that claims the error names it")
	assert(h3.n == 1 && h3.got == err, "it is asked about that error")
	assert(named(err, want), "and the same again")
}

// A handler affects later errors only, and nil is no error.
func C20_Later(a string, err error) {
	f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
	exit := f.Observe()
	var e error = &plainErr{}
	exit(&e)
	h := &handler{name: a, ok: true}
	monkit.AddErrorNameHandler(h.handle)
	errs := f.Errors()
	assert(only(errs, "System Error"), "what was counted before stays")
	e = nil
	f.Observe()(&e)
	assert(h.n == 0, "no error, no name")
	func() {
		defer func() { recover() }()
		e = &plainErr{}
		defer f.Observe()(&e)
		panic("x")
	}()
	assert(only(f.Errors(), "System Error"), "a panic has no name")
}
