package zzverifspec

import (
	"context"
	"fmt"
	"net/http"
	"net/url"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// response is a response writer that remembers.
type response struct {
	head   http.Header
	codes  int
	code   int
	writes int
	body   []byte
	n      int
	err    error
}

func (r *response) Header() http.Header { return r.head }
func (r *response) WriteHeader(code int) {
	r.codes++
	r.code = code
}
func (r *response) Write(p []byte) (int, error) {
	r.writes++
	r.body = p
	return r.n, r.err
}

// flusher is one that can flush.
type flusher struct {
	response
	flushes int
}

func (r *flusher) Flush() { r.flushes++ }

// someWriter is a response writer of either kind.
func someWriter(flush bool, head http.Header, n int, err error) (http.ResponseWriter, *response) {
	if flush {
		f := &flusher{response: response{head: head, n: n, err: err}}
		return f, &f.response
	}
	r := &response{head: head, n: n, err: err}
	return r, r
}

// A wrapped writer passes everything through.
func C30_Wrap(flush bool, n int, err error, p []byte, code, step int, name, val string) {
	w, r := someWriter(flush, http.Header{}, n, err)
	x, status := mhttp.Wrap(w)
	assert(status() == 200, "without a status it is 200")
	assert(r.codes == 0 && r.writes == 0, "wrapping writes nothing")
	assume(code >= 100)
	switch step {
	case 0:
		x.Header().Set("X-Name", val)
		assert(r.head.Get("X-Name") == val, "headers are set on the original")
		assert(r.codes == 0 && r.writes == 0, "and nothing is written")
		assert(status() == 200, "without a status it is 200")
	case 1:
		x.WriteHeader(code)
		assert(r.codes == 1 && r.code == code && r.writes == 0, "the status is forwarded")
		assert(status() == code, "and reported")
	case 2:
		gn, gerr := x.Write(p)
		assert(r.writes == 1 && identical(r.body, p), "the body is forwarded unchanged")
		assert(r.codes == 0, "and nothing else")
		assert(gn == n && gerr == err, "the result is the original's")
		assert(status() == 200, "a body without a status has status 200")
	case 4:
		x.WriteHeader(103)
		x.WriteHeader(code)
		assert(r.codes == 2 && r.code == code, "every status is forwarded")
		assert(status() == code, "and the last one reported")
	case 5:
		x.Write(p)
		x.WriteHeader(code)
		assert(r.writes == 1 && r.codes == 1 && r.code == code, "every status is forwarded")
	default:
		assume(step == 3)
		x.WriteHeader(code)
		gn, gerr := x.Write(p)
		assert(r.codes == 1 && r.code == code, "the status is forwarded once")
		assert(r.writes == 1 && identical(r.body, p), "the body is forwarded unchanged")
		assert(gn == n && gerr == err, "the result is the original's")
		assert(status() == code, "the status is the one set")
		x.Write(p)
		assert(r.writes == 2 && r.codes == 1, "so is the rest")
		assert(status() == code, "the status is the one set")
	}
}

// A writer that can flush still can, another cannot.
func C30_Flush(n int, err error) {
	f := &flusher{response: response{head: http.Header{}, n: n, err: err}}
	x, _ := mhttp.Wrap(f)
	g, ok := x.(http.Flusher)
	assert(ok, "it can still flush")
	g.Flush()
	assert(f.flushes == 1 && f.codes == 0 && f.writes == 0, "flushing flushes the original")
	y, _ := mhttp.Wrap(&f.response)
	_, ok = y.(http.Flusher)
	assert(!ok, "it still cannot flush")
}

// service is a handler that remembers and answers.
type service struct {
	calls  int
	method string
	uri    string
	url    *url.URL
	head   http.Header
	ctx    context.Context
	span   *monkit.Span
	trace  *monkit.Trace
	open   bool
	code   int
	p      []byte
	n      int
	err    error
	panics interface{}
}

func (s *service) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.calls++
	s.method, s.uri, s.url, s.head = r.Method, r.RequestURI, r.URL, r.Header
	s.ctx = r.Context()
	s.span = monkit.SpanFromCtx(s.ctx)
	s.trace = s.span.Trace()
	if s.panics != nil {
		panic(s.panics)
	}
	if s.code != 0 {
		w.WriteHeader(s.code)
	}
	s.n, s.err = w.Write(s.p)
}

// The handler is called once with the request and a span.
func C30_Handler(kind int, id, parent int64, sampled bool, flush bool, code, n int, err error, p []byte, method, uri string, u *url.URL, val int, boom bool) {
	h := http.Header{}
	info := mhttp.TraceInfo{Sampled: sampled}
	switch kind {
	case 0:
	default:
		assume(kind == 1)
		info.TraceId, info.ParentId = &id, &parent
	}
	info.SetHeader(h)
	ctx := context.WithValue(context.Background(), ctxTag(1), val)
	req := (&http.Request{Method: method, RequestURI: uri, URL: u, Header: h}).WithContext(ctx)
	s := &service{code: code, p: p}
	if boom {
		s.panics = "boom"
	}
	w, r := someWriter(flush, http.Header{}, n, err)
	sc := monkit.NewRegistry().ScopeNamed("s")
	x := mhttp.TraceHandler(s, sc)
	serve(x, w, req)
	assert(s.calls == 1, "the handler is called once")
	assert(s.method == method && s.uri == uri && s.url == u && identical(s.head, h), "with the data of the request")
	assert(s.span != nil, "and a span")
	assert(s.ctx.Value(ctxTag(1)) == val, "in a context that is one of the request's")
	pid, ok := s.span.ParentId()
	if kind == 1 {
		assert(s.trace.Id() == id, "the trace is the one named in the headers")
		assert(ok && pid == parent, "and the parent as well")
		assert(len(r.head) == 0, "no header is added to the response")
	}
	sam, _ := s.trace.Get(present.SampledKey).(bool)
	assert(sam == sampled, "it is sampled if the headers say so")
	if !boom {
		want := 200
		if code != 0 {
			want = code
		}
		assert(annotated(s.span, "http.responsecode", fmt.Sprint(want)), "the status is noted")
		assert(r.writes == 1 && identical(r.body, p) && s.n == n && s.err == err, "its body is passed on unchanged")
		if code != 0 {
			assert(r.codes == 1 && r.code == code, "its status is passed on unchanged")
		} else {
			assert(r.codes == 0, "no status is made up")
		}
	} else {
		assert(r.writes == 0 && r.codes == 0, "nothing is written for it")
	}
	assert(annotated(s.span, "http.uri", uri), "the address is noted")
	n1 := 0
	sc.Funcs(func(f *monkit.Func) {
		n1++
		assert(f.Current() == 0, "the span has ended")
		assert(f.Success()+f.Panics() == 1, "and was counted")
		assert((f.Panics() == 1) == boom, "for what it was")
	})
	assert(n1 == 1, "there is one function")
	assert(req.Context() == ctx && identical(req.Header, h), "the request itself is not changed")
}

// Allowed baggage is noted on the span.
func C30_Baggage(id, parent int64, k, v, a string) {
	h := http.Header{}
	mhttp.TraceInfo{TraceId: &id, ParentId: &parent}.SetHeader(h)
	assume(k != "http.uri")
	assume(k != "http.responsecode")
	h.Set("Baggage", word(k)+"="+word(v))
	s := &service{}
	_, r := someWriter(false, http.Header{}, 0, nil)
	mhttp.TraceHandler(s, monkit.NewRegistry().ScopeNamed("s"), a).ServeHTTP(r, &http.Request{Header: h})
	assert(annotated(s.span, k, v) == (k == a), "baggage is noted if it is allowed")
}

// annotated: the span has the annotation, once.
func annotated(s *monkit.Span, name, val string) bool {
	n := 0
	ok := true
	for _, a := range s.Annotations() {
		if a.Name == name {
			n++
			ok = ok && a.Value == val
		}
	}
	return ok && n == 1
}

func serve(h http.Handler, w http.ResponseWriter, r *http.Request) {
	defer func() { recover() }()
	h.ServeHTTP(w, r)
}

// remote is a client that remembers and answers.
type remote struct {
	calls  int
	req    *http.Request
	parent string
	state  string
	open   int64
	fn     *monkit.Func
	resp   *http.Response
	err    error
	panics interface{}
}

func (c *remote) Do(req *http.Request) (*http.Response, error) {
	c.calls++
	c.req = req
	c.parent, c.state = req.Header.Get("Traceparent"), req.Header.Get("Tracestate")
	c.open = c.fn.Current()
	if c.panics != nil {
		panic(c.panics)
	}
	return c.resp, c.err
}

// The client is called once with the request and its answer returned.
func C30_Client(id, parent int64, sampled, nohead bool, resp *http.Response, how int, err error, u *url.URL, val int) {
	assume(err != nil)
	ctx := context.Background()
	tr := monkit.NewTrace(id)
	if sampled {
		tr.Set(present.SampledKey, true)
	}
	sc := monkit.NewRegistry().ScopeNamed("s")
	sc.FuncNamed("f").RemoteTrace(&ctx, parent, tr)
	own := context.WithValue(context.Background(), ctxTag(1), val)
	req := (&http.Request{Method: "GET", URL: u}).WithContext(own)
	if !nohead {
		req.Header = http.Header{}
	}
	c := &remote{fn: sc.FuncNamed("GET"), resp: resp}
	var want error
	switch how {
	case 0:
	case 1:
		c.err = err
		want = err
	case 2:
		c.err = err
		want = err
		c.resp = nil
	default:
		assume(how == 3)
		c.panics = "boom"
	}
	got, gerr, out := request(ctx, sc, c, req)
	assert(c.calls == 1, "the client is called once")
	assert(c.req.Method == "GET" && c.req.URL == u && c.req.Context().Value(ctxTag(1)) == val, "with the data of the request")
	assert(c.open == 1, "while the span is open")
	assert(c.fn.Current() == 0, "which then ends")
	if how == 3 {
		assert(!out && c.fn.Panics() == 1, "a panic is passed on")
	} else {
		assert(got == c.resp && gerr == want, "its response and error are returned")
		if want == nil {
			assert(c.fn.Success() == 1, "a success is counted")
		} else {
			assert(c.fn.Errors()[errname(err)] == 1, "an error is counted")
		}
	}
	if sampled {
		back := mhttp.TraceInfoFromHeader(&hdr{parent: c.parent, state: c.state})
		assert(back.TraceId != nil && *back.TraceId == id && back.Sampled, "the trace is passed on in the headers")
	} else {
		assert(c.parent == "" && !strings.Contains(c.state, "sampled=true"), "an unsampled trace is not")
	}
}

func request(ctx context.Context, sc *monkit.Scope, c mhttp.Client, req *http.Request) (resp *http.Response, err error, returned bool) {
	defer func() { recover() }()
	resp, err = mhttp.TraceRequest(ctx, sc, c, req)
	return resp, err, true
}
