package zzverifspec

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"regexp"
	"strconv"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// The pattern is no pattern if badPattern is set, and matches one name.
var badPattern bool
var matched string
var errPattern error = errors.New("bad pattern")
var thePattern *regexp.Regexp

func compilePattern(text string) (*regexp.Regexp, error) {
	if badPattern {
		return nil, errPattern
	}
	thePattern = new(regexp.Regexp)
	return thePattern, nil
}

func matchPattern(re *regexp.Regexp, text string) bool { return text == matched }
func matchBytes(re *regexp.Regexp, text []byte) bool   { return string(text) == matched }
func matchText(pattern, text string) (bool, error) {
	if badPattern {
		return false, errPattern
	}
	return text == matched, nil
}

// linkCount and linkAt are the links of a page.
func linkCount(page string) int        { return 0 }
func linkAt(page string, i int) string { return "" }

func sameText(a, b string) bool { return false }

// theQuery is the query of every URL.
var theQuery url.Values

func urlQuery(*url.URL) url.Values { return theQuery }

func httpError(w http.ResponseWriter, text string, code int) {
	w.Header().Set("Content-Type", "text/plain; charset=utf-8")
	w.WriteHeader(code)
	w.Write([]byte(text + "\n"))
}

// answer is the response to a request.
type answer struct {
	head http.Header
	code int
	text string
}

func (a *answer) Header() http.Header  { return a.head }
func (a *answer) WriteHeader(code int) { a.code = code }
func (a *answer) Write(p []byte) (int, error) {
	if a.code == 0 {
		a.code = 200
	}
	a.text += string(p)
	return len(p), nil
}

func get(r *monkit.Registry, path string, query url.Values) *answer {
	a := &answer{head: http.Header{}}
	theQuery = query
	present.HTTP(r).ServeHTTP(a, &http.Request{Method: "GET", URL: &url.URL{Path: path}, Header: http.Header{}})
	return a
}

// aRegistry has one function, one running span and one source.
func aRegistry() *monkit.Registry {
	outputs()
	reset()
	badPattern, matched = false, ""
	monkit.ObservedQuantiles = []float64{.5}
	r := monkit.NewRegistry()
	ctx := context.Background()
	r.ScopeNamed("s").FuncNamed("f").Task(&ctx)
	return r
}

// serves checks that the paths are answered with the text of an output.
func serves(kind string, output func(*monkit.Registry, io.Writer) error, paths ...string) {
	servesOf(aRegistry(), kind, output, paths...)
}

func servesOf(r *monkit.Registry, kind string, output func(*monkit.Registry, io.Writer) error, paths ...string) {
	want := &sheet{}
	err := output(r, want)
	assert(err == nil, "the output is written")
	for _, path := range paths {
		f, ct, err := present.FromRequest(r, path, nil)
		assert(err == nil, "a documented path is served")
		assert(strings.HasPrefix(ct, kind), "with its content type")
		got := &sheet{}
		err = f(got)
		assert(err == nil && sameText(got.text, want.text), "with the documented output")
		a := get(r, path, url.Values{})
		assert(a.code == 200 && sameText(a.text, want.text), "also over HTTP")
		assert(strings.HasPrefix(a.head.Get("Content-Type"), kind), "with its content type over HTTP")
	}
}

func C26_PsText()    { serves("text/plain", present.SpansText, "/ps", "/ps/", "/ps/text") }
func C26_PsDot()     { serves("text/plain", present.SpansDot, "/ps/dot") }
func C26_PsJSON()    { serves("application/json", present.SpansJSON, "/ps/json") }
func C26_FuncsText() { serves("text/plain", present.FuncsText, "/funcs", "/funcs/", "/funcs/text") }
func C26_FuncsDot()  { serves("text/plain", present.FuncsDot, "/funcs/dot") }
func C26_FuncsJSON() { serves("application/json", present.FuncsJSON, "/funcs/json") }
func C26_StatsText() {
	servesOf(oneStat(), "text/plain", present.StatsText, "/stats", "/stats/", "/stats/text")
}
func C26_StatsJSON() { servesOf(oneStat(), "application/json", present.StatsJSON, "/stats/json") }

type oneNumber struct{}

func (oneNumber) Stats(cb func(key monkit.SeriesKey, field string, val float64)) {
	cb(monkit.NewSeriesKey("m"), "a", 1)
}

func oneStat() *monkit.Registry {
	aRegistry()
	r := monkit.NewRegistry()
	r.ScopeNamed("s").Chain(oneNumber{})
	return r
}

func C26_Index() {
	r := aRegistry()
	a := get(r, "/", url.Values{})
	assert(a.code == 200 && strings.HasPrefix(a.head.Get("Content-Type"), "text/html"), "there is an index page")
	n := linkCount(a.text)
	assert(n > 0, "with links")
	for i := 0; i < n; i++ {
		_, _, err := present.FromRequest(r, "/"+linkAt(a.text, i), url.Values{"trace_id": {"5"}})
		assert(err == nil, "every link of the index page is served")
	}
}

// refused checks that a request starts no output.
func refused(r *monkit.Registry, path string, query url.Values, code int, text string) {
	f, _, err := present.FromRequest(r, path, query)
	assert(err != nil && f == nil, text)
	if err == nil {
		return
	}
	a := get(r, path, query)
	assert(a.code == code, text)
}

func C26_Unknown(name, more string, deeper bool) {
	r := aRegistry()
	assume(!strings.Contains(name, "/"))
	assume(name != "")
	assume(name != "ps")
	assume(name != "funcs")
	assume(name != "stats")
	assume(name != "trace")
	path := "/" + name
	if deeper {
		assume(!strings.Contains(more, "/"))
		path += "/" + more
	}
	refused(r, path, url.Values{}, 404, "an unknown path is not found")
}

func C26_UnknownOutput(name string, which int) {
	r := aRegistry()
	assume(!strings.Contains(name, "/"))
	assume(name != "")
	assume(name != "text")
	assume(name != "dot")
	assume(name != "json")
	assume(name != "old")
	assume(name != "svg")
	assume(name != "remote")
	switch which {
	case 0:
		refused(r, "/ps/"+name, url.Values{}, 404, "an unknown output is not found")
	case 1:
		refused(r, "/funcs/"+name, url.Values{}, 404, "an unknown output is not found")
	case 2:
		refused(r, "/stats/"+name, url.Values{}, 404, "an unknown output is not found")
	case 3:
		refused(r, "/stats/dot", url.Values{}, 404, "an unknown output is not found")
	default:
		refused(r, "/trace/"+name, url.Values{"trace_id": {"5"}}, 404, "an unknown trace output is not found")
	}
}

// tracePath is one of the trace outputs.
func tracePath(which int) string {
	switch which {
	case 0:
		return "/trace/json"
	case 1:
		return "/trace/svg"
	}
	return "/trace/remote"
}

func C26_BadQuery(which, what int, text string) {
	r := aRegistry()
	matched = "s.f"
	path := tracePath(which)
	const bad = "a bad query is refused"
	switch what {
	case 0:
		refused(r, path, nil, 400, bad)
	case 1:
		refused(r, path, url.Values{"regex": {""}, "trace_id": {""}}, 400, bad)
	case 2:
		badPattern = true
		assume(text != "")
		refused(r, path, url.Values{"regex": {text}}, 400, bad)
	case 3:
		badPattern = true
		assume(text != "")
		refused(r, path, url.Values{"regex": {text}, "preselect": {"false"}, "trace_id": {"5"}}, 400, bad)
	case 4:
		refused(r, path, url.Values{"regex": {"f"}, "preselect": {"maybe"}}, 400, bad)
	case 5:
		refused(r, path, url.Values{"trace_id": {"xyz"}}, 400, bad)
	case 6:
		refused(r, path, url.Values{"trace_id": {"-5"}}, 400, bad)
	case 7:
		refused(r, path, url.Values{"trace_id": {"10000000000000000"}, "regex": {"f"}, "preselect": {"false"}}, 400, bad)
	case 8:
		matched = "s.other"
		refused(r, path, url.Values{"regex": {"other"}}, 400, bad)
	default:
		_, err := strconv.ParseUint(text, 16, 64)
		assume(err != nil)
		assume(text != "")
		refused(r, path, url.Values{"trace_id": {text}}, 400, bad)
	}
}

// visits are spans which start while a query waits, one after the other.
type visits struct {
	r    *monkit.Registry
	n    int
	list []visit
}

type visit struct {
	fn    *monkit.Func
	trace int64
}

func (v *visits) next() {
	if v.n >= len(v.list) {
		unreachable()
		return
	}
	x := v.list[v.n]
	v.n++
	if v.n < len(v.list) {
		waiting = v.next
	}
	ctx := context.Background()
	x.fn.RemoteTrace(&ctx, 0, monkit.NewTrace(x.trace))(nil)
}

// watched runs a query until the last visit, which is the one looked for.
func watched(r *monkit.Registry, which int, q url.Values, list ...visit) {
	v := &visits{r: r, list: list}
	waiting = v.next
	f, ct, err := present.FromRequest(r, tracePath(which), q)
	assert(err == nil, "a trace query is served")
	p := &sheet{}
	err = f(p)
	assert(err == nil, "a trace query is answered")
	assert(v.n == len(list), "a trace query waits for a matching span")
	id := list[len(list)-1].trace
	switch which {
	case 0:
		assert(strings.HasPrefix(ct, "application/json"), "as JSON")
		assert(len(encoded) == 1 && identical(jsonField(jsonField(encoded[0], "trace"), "id"), id), "with the matching span")
	case 1:
		assert(strings.HasPrefix(ct, "image/svg+xml"), "as SVG")
		assert(len(encoded) == 0, "with a drawing")
	default:
		assert(strings.HasPrefix(ct, "application/json"), "as JSON")
		assert(len(encoded) == 1 && identical(jsonField(encoded[0], "trace_id"), id), "with the matching trace's id")
	}
}

func someTrace(which int) (r *monkit.Registry, f, g *monkit.Func, path int) {
	aRegistry()
	r = monkit.NewRegistry()
	f, g = r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
	matched = "s.f"
	if which == 0 {
		return r, f, g, 0
	}
	if which == 1 {
		return r, f, g, 1
	}
	return r, f, g, 2
}

func C26_TraceId(which int) {
	r, f, g, path := someTrace(which)
	watched(r, path, url.Values{"trace_id": {"1f"}}, visit{f, 30}, visit{g, 31})
}

func C26_TraceRegex(which int, preselect bool) {
	r, f, g, path := someTrace(which)
	q := url.Values{"regex": {"f"}}
	if !preselect {
		q["preselect"] = []string{"false"}
	}
	watched(r, path, q, visit{g, 30}, visit{f, 31})
}

func C26_TraceBoth(which int, preselect bool) {
	r, f, g, path := someTrace(which)
	q := url.Values{"regex": {"f"}, "trace_id": {"1f"}}
	if !preselect {
		q["preselect"] = []string{"false"}
	}
	watched(r, path, q, visit{g, 31}, visit{f, 30}, visit{g, 30}, visit{f, 31})
}

// Without preselection a function may appear later.
func C26_TraceNew(which int) {
	r, f, _, path := someTrace(which)
	matched = "t.late"
	late := monkit.NewRegistry()
	_ = late
	g := r.ScopeNamed("t")
	q := url.Values{"regex": {"late"}, "preselect": {"false"}}
	v := &visits{r: r}
	waiting = func() {
		waiting = func() {
			v.n++
			ctx := context.Background()
			g.FuncNamed("late").RemoteTrace(&ctx, 0, monkit.NewTrace(31))(nil)
		}
		ctx := context.Background()
		f.RemoteTrace(&ctx, 0, monkit.NewTrace(30))(nil)
	}
	fn, _, err := present.FromRequest(r, tracePath(path), q)
	assert(err == nil, "a trace query is served")
	err = fn(&sheet{})
	assert(err == nil && v.n == 1, "a function that appears later is matched")
}

func C26_TraceViz(which int) {
	r, f, g, _ := someTrace(2)
	q := url.Values{"trace_id": {"1f"}}
	switch which {
	case 0:
		q["viz"] = []string{"https://host/path"}
	case 1:
		q["viz"] = []string{"host/path"}
	default:
		q["viz"] = []string{"http://host/path"}
	}
	v := &visits{r: r, list: []visit{{f, 30}, {g, 31}}}
	waiting = v.next
	fn, ct, err := present.FromRequest(r, "/trace/remote", q)
	assert(err == nil, "a trace query is served")
	assert(strings.HasPrefix(ct, "text/html"), "as a page")
	p := &sheet{}
	err = fn(p)
	assert(err == nil && v.n == 2, "a trace query waits for a matching span")
	assert(strings.HasPrefix(p.text, "<!DOCTYPE html>"), "with a page")
	assert(len(encoded) == 0, "and no JSON")
}
