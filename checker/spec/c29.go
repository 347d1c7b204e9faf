package zzverifspec

import (
	"context"
	"strconv"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// hdr is a set of headers.
type hdr struct {
	parent, state, baggage    string
	nparent, nstate, nbaggage int
	others                    int
}

func (h *hdr) Get(name string) string {
	switch strings.ToLower(name) {
	case "traceparent":
		return h.parent
	case "tracestate":
		return h.state
	case "baggage":
		return h.baggage
	}
	return ""
}

func (h *hdr) Set(name, val string) {
	switch strings.ToLower(name) {
	case "traceparent":
		h.parent = val
		h.nparent++
	case "tracestate":
		h.state = val
		h.nstate++
	case "baggage":
		h.baggage = val
		h.nbaggage++
	default:
		h.others++
	}
}

// Ids and the sampled flag come back as they were.
func C29_RoundTrip(trace, parent int64, sampled bool, allowed string) {
	h := &hdr{}
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent, Sampled: sampled}.SetHeader(h)
	got := mhttp.TraceInfoFromHeader(h, allowed)
	assert(got.TraceId != nil && *got.TraceId == trace, "the trace id comes back")
	assert(got.ParentId != nil && *got.ParentId == parent, "the parent id comes back")
	assert(got.Sampled == sampled, "the sampled flag comes back")
	assert(len(got.Baggage) == 0, "there is no baggage")
	assert(h.others == 0, "no other header is set")
}

// Without both ids, sampling alone is passed on.
func C29_WithoutIds(id int64, which int, sampled bool) {
	h := &hdr{}
	info := mhttp.TraceInfo{Sampled: sampled}
	switch which {
	case 0:
	case 1:
		info.TraceId = &id
	default:
		assume(which == 2)
		info.ParentId = &id
	}
	info.SetHeader(h)
	got := mhttp.TraceInfoFromHeader(h)
	assert(got.TraceId == nil && got.ParentId == nil, "there are no ids")
	assert(got.Sampled == sampled, "the sampled flag comes back")
	assert(h.nparent == 0, "no parent is named")
	if !sampled {
		assert(h.nstate == 0, "and nothing is requested")
	}
}

// clean: a part of a header without the separator.
func clean(s string) string {
	assume(!strings.Contains(s, "-"))
	return s
}

// noInfo: nothing at all.
func noInfo(i mhttp.TraceInfo) bool {
	return i.TraceId == nil && i.ParentId == nil && !i.Sampled && len(i.Baggage) == 0
}

// A parent header of four well-formed parts is read as it stands.
func C29_Parent(a, b, c, d, state string) {
	h := &hdr{parent: clean(a) + "-" + clean(b) + "-" + clean(c) + "-" + clean(d), state: state}
	got := mhttp.TraceInfoFromHeader(h)
	version, e1 := strconv.ParseUint(a, 16, 64)
	trace, e2 := strconv.ParseUint(b, 16, 64)
	parent, e3 := strconv.ParseUint(c, 16, 64)
	flags, e4 := strconv.ParseUint(d, 16, 64)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil || version != 0 {
		assert(noInfo(got), "a malformed header yields nothing")
		return
	}
	assert(got.TraceId != nil && *got.TraceId == int64(trace), "the trace id is read")
	assert(got.ParentId != nil && *got.ParentId == int64(parent), "the parent id is read")
	assert(got.Sampled == (flags&1 == 1), "the sampled flag is read")
	assert(len(got.Baggage) == 0, "there is no baggage")
}

// A parent header of another number of parts yields nothing.
func C29_Malformed(a, b, c, d, rest, state, baggage, allowed string, n int) {
	h := &hdr{state: state, baggage: baggage}
	switch n {
	case 1:
		h.parent = clean(a)
		assume(a != "")
	case 2:
		h.parent = clean(a) + "-" + clean(b)
	case 3:
		h.parent = clean(a) + "-" + clean(b) + "-" + clean(c)
	case 5:
		h.parent = clean(a) + "-" + clean(b) + "-" + clean(c) + "-" + clean(d) + "-" + clean(rest)
	default:
		assume(n == 6)
		h.parent = clean(a) + "-" + clean(b) + "-" + clean(c) + "-" + clean(d) + "-" + clean(rest) + "-"
	}
	assert(noInfo(mhttp.TraceInfoFromHeader(h, allowed)), "a malformed header yields nothing")
}

func word(s string) string {
	assume(!strings.Contains(s, ","))
	assume(!strings.Contains(s, "="))
	return s
}

// Baggage comes back for the allowed keys only.
func C29_Baggage(trace, parent int64, k1, v1, k2, v2, a string) {
	h := &hdr{}
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent, Sampled: true}.SetHeader(h)
	assume(k1 != k2)
	h.baggage = word(k1) + "=" + word(v1) + "," + word(k2) + "=" + word(v2)
	got := mhttp.TraceInfoFromHeader(h, a)
	x1, ok1 := got.Baggage[k1]
	x2, ok2 := got.Baggage[k2]
	n := 0
	if k1 == a {
		n++
		assert(ok1 && x1 == v1, "baggage of an allowed key comes back")
	} else {
		assert(!ok1, "baggage of another key does not")
	}
	if k2 == a {
		n++
		assert(ok2 && x2 == v2, "baggage of an allowed key comes back")
	} else {
		assert(!ok2, "baggage of another key does not")
	}
	assert(len(got.Baggage) == n, "and nothing else")
}

func C29_BaggageAllowed(trace, parent int64, k, v, a, b string) {
	h := &hdr{}
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent, Sampled: true}.SetHeader(h)
	h.baggage = word(k) + "=" + word(v)
	got := mhttp.TraceInfoFromHeader(h, a, b)
	if k == a || k == b {
		assert(len(got.Baggage) == 1 && got.Baggage[k] == v, "baggage of an allowed key comes back")
	} else {
		assert(len(got.Baggage) == 0, "baggage of another key does not")
	}
}

// Baggage that is written is what is read back.
func C29_BaggageRoundTrip(trace, parent int64, k, v string, sampled bool) {
	h := &hdr{}
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent, Sampled: sampled, Baggage: map[string]string{word(k): word(v)}}.SetHeader(h)
	got := mhttp.TraceInfoFromHeader(h, k)
	assert(len(got.Baggage) == 1 && got.Baggage[k] == v, "the baggage comes back")
	got = mhttp.TraceInfoFromHeader(h)
	assert(len(got.Baggage) == 0, "unless it is not allowed")
}

func C29_BaggageRoundTrip2(trace, parent int64, k, v, l, w string, sampled bool) {
	h := &hdr{}
	assume(k != l)
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent, Sampled: sampled, Baggage: map[string]string{word(k): word(v), word(l): word(w)}}.SetHeader(h)
	got := mhttp.TraceInfoFromHeader(h, k, l)
	assert(len(got.Baggage) == 2 && got.Baggage[k] == v && got.Baggage[l] == w, "all baggage comes back")
}

// A baggage entry without a value is skipped.
func C29_BaggageOdd(trace, parent int64, k, v, x string) {
	h := &hdr{}
	mhttp.TraceInfo{TraceId: &trace, ParentId: &parent}.SetHeader(h)
	h.baggage = word(x) + "," + word(k) + "=" + word(v)
	got := mhttp.TraceInfoFromHeader(h, k)
	assert(got.TraceId != nil && *got.TraceId == trace, "the trace id comes back")
	assert(len(got.Baggage) == 1 && got.Baggage[k] == v, "the other entries come back")
}

// Without a parent header sampling can be requested on its own.
func C29_Orphan(state, baggage, allowed string) {
	got := mhttp.TraceInfoFromHeader(&hdr{state: state, baggage: baggage}, allowed)
	assert(got.TraceId == nil && got.ParentId == nil, "there are no ids")
	assert(got.Sampled == strings.Contains(state, "sampled=true"), "sampling is on exactly when it is requested")
}

// The information of a span names its trace, if that is sampled.
func C29_Span(id, remote int64, sampled, child bool) {
	ctx := context.Background()
	tr := monkit.NewTrace(id)
	if sampled {
		tr.Set(present.SampledKey, true)
	}
	sc := monkit.NewRegistry().ScopeNamed("s")
	exit := sc.FuncNamed("f").RemoteTrace(&ctx, remote, tr)
	s := monkit.SpanFromCtx(ctx)
	if child {
		sc.FuncNamed("g").Task(&ctx)
		s = monkit.SpanFromCtx(ctx)
	}
	info := mhttp.TraceInfoFromSpan(s)
	assert(info.Sampled == sampled, "the sampled flag is the trace's")
	if sampled {
		assert(info.TraceId != nil && *info.TraceId == id, "the trace id is the trace's")
		assert(info.ParentId != nil, "there is a parent id")
	} else {
		assert(info.TraceId == nil && info.ParentId == nil, "a trace that is not sampled is not passed on")
	}
	exit(nil)
}
