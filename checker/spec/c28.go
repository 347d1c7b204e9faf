package zzverifspec

import (
	"context"
	"net/url"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// line is what a client's connection has seen.
type line struct {
	pings, body           int
	pinging, failed, over bool
	slow                  bool
	err                   error
	val                   interface{}
}

var conn line

// client is the writer of an answer: what goroutines of the library write are
// pings.
type client struct{}

func (client) Write(p []byte) (int, error) {
	if inThread() {
		assert(!conn.failed, "a failed ping is not repeated")
		assert(conn.body == 0, "no ping once the answer is begun")
		assert(!conn.over, "no ping after the end")
		conn.pings++
		conn.pinging = true
		if conn.slow {
			park()
		}
		conn.pinging = false
		if conn.err != nil {
			conn.failed = true
			return 0, conn.err
		}
		if conn.val != nil {
			conn.failed = true
			panic(conn.val)
		}
		return len(p), nil
	}
	assert(!conn.pinging, "the answer is not written while a ping is")
	conn.body++
	return len(p), nil
}

// matches finishes a span, and reports it.
type matches struct {
	f    *monkit.Func
	seen bool

	remote bool
}

func (m *matches) match(s *monkit.Span) bool {
	m.seen = true
	return true
}

func (m *matches) once() {
	if !m.remote {
		m.f.Task(nil)(nil)
		return
	}
	t := monkit.NewTrace(5)
	t.Set(present.SampledCBKey, func(*monkit.Trace) { m.seen = true })
	ctx := context.Background()
	m.f.RemoteTrace(&ctx, 0, t)(nil)
}

// wait lets the time pass before and after the match, the goroutine going on
// for some steps each time.
func (m *matches) wait(before, after int) {
	n := 0
	var other func()
	other = func() {
		n++
		if n <= before || m.seen {
			tick()
			resume()
		} else {
			m.once()
		}
		if !m.seen && n < before+2 || m.seen && after > 0 {
			if m.seen {
				after--
			}
			interrupt = other
		}
	}
	interrupt = other
	waiting = m.once
}

func (m *matches) end() {
	interrupt = nil
	conn.over = true
	tick()
	runThreads()
	tick()
	runThreads()
	assert(threads() == 0, "the background goroutine ends")
}

// The client is pinged while the query waits, and not after.
func C28_Pinged() {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	waiting = func() {
		tick()
		runThreads()
		assert(conn.pings == 1, "one ping per interval")
		tick()
		runThreads()
		assert(conn.pings == 2, "one ping per interval")
		m.once()
	}
	err := present.TraceQueryJSON(r, client{}, m.match)
	assert(err == nil && conn.body > 0 && conn.pings == 2, "the answer is written")
	m.end()
}

// asked runs a trace query.
func asked(query int, r *monkit.Registry, m *matches) error {
	if query == 1 {
		return present.TraceQuerySVG(r, client{}, m.match)
	}
	return present.TraceQueryJSON(r, client{}, m.match)
}

// traceId asks for the id of a trace.
func traceId(r *monkit.Registry) error {
	f, _, err := present.FromRequest(r, "/trace/remote", url.Values{"regex": {"f"}, "preselect": {"false"}})
	if err != nil {
		assume(false) // the pattern is one
	}
	full = true
	return f(client{})
}

type pingErr struct{ v int }

func (e *pingErr) Error() string { return "ping" }

func answered(err error) {
	if conn.failed {
		assert(err != nil, "the failure of a ping is returned")
		assert(conn.body == 0, "no answer after a failed ping")
		if conn.err != nil {
			assert(err == conn.err, "the error of the ping is returned")
		}
	} else {
		assert(err == nil && conn.body > 0, "the answer is written")
	}
}

// No ping runs once the answer is begun, whenever the match comes.
func C28_Stops(query int) {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	conn.slow = true
	m.wait(1, 1)
	answered(asked(query, r, m))
	m.end()
}

func C28_RemoteStops() {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	conn.slow = true
	m.remote = true
	m.wait(1, 1)
	answered(traceId(r))
	m.end()
}

// A failing ping ends the wait.
func C28_Ends(query int, panics bool) {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	if panics {
		conn.val = &pingErr{4}
	} else {
		conn.err = &pingErr{5}
	}
	waiting = func() {
		tick()
		runThreads()
	}
	err := asked(query, r, m)
	answered(err)
	assert(conn.failed, "the wait ends with a failed ping")
	m.end()
}

func C28_RemoteFails() {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	conn.err = &pingErr{3}
	m.remote = true
	m.wait(1, 0)
	answered(traceId(r))
	m.end()
}

// The failure of a ping is returned, and the ping is not repeated.
func C28_Fails(query int, panics bool) {
	r := monkit.NewRegistry()
	m := &matches{f: r.ScopeNamed("s").FuncNamed("f")}
	reset()
	conn.slow = true
	if panics {
		conn.val = &pingErr{1}
	} else {
		conn.err = &pingErr{2}
	}
	m.wait(2, 0)
	answered(asked(query, r, m))
	m.end()
}

func reset() {
	conn = line{}
	tickers = nil
	outputs()
	interrupt, waiting = nil, nil
}
