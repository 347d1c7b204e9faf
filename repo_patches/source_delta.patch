From 704e5b7cc84256c12add6f8913f04c356d347a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 01/21] fix: make TagSet.String safe for concurrent use

---
 tags.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..7359bb4 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -33,7 +34,9 @@ func NewSeriesTag(key, val string) SeriesTag {
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
 	all map[string]string
-	str string // cached string form
+
+	strOnce sync.Once
+	str     string // cached string form, written once under strOnce
 }
 
 // Get returns the value associated with the key.
@@ -99,11 +102,11 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
+	t.strOnce.Do(func() {
 		var builder strings.Builder
 		t.writeTags(&builder)
 		t.str = builder.String()
-	}
+	})
 	return t.str
 }
 
-- 
2.43.0


From e63d20308f82a6e45d9c874b54fa839c337ef58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 02/21] fix: do not call error name handlers with the FuncStats
 lock held

---
 funcstats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..60f0915 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,12 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	// naming the error can call application code, so it must happen before
+	// the lock is taken.
+	var errname string
+	if err != nil && !panicked {
+		errname = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +106,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errname] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From 7a042307c0014d756d7d67fc144b9c3643647ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 03/21] fix: unregister the observer CollectSpans adds to the
 trace

---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From c969f1ea285dc30796e189510a74ec5f12711948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 04/21] fix: make the runtime GC stats source safe and count
 each pause once

---
 environment/runtime.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..a15920c 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -29,6 +30,7 @@ import (
 // other live memory data. Not expected to be called directly, as this
 // StatSource is added by Register.
 func Runtime() monkit.StatSource {
+	var mtx sync.Mutex // protects durDist and lastNumGC
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
 
@@ -44,10 +46,14 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
+			mtx.Lock()
 			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From de2da81a23c27c72750eba6766b001c202432c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 05/21] fix: do not panic on nil pointers in
 StatSourceFromStruct

---
 struct.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..bdd9de8 100644
--- a/struct.go
+++ b/struct.go
@@ -32,16 +32,20 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 // across all float64-castable and bool-castable fields of the struct.
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
-
-	typ := val.Type()
-	if typ.Kind() != reflect.Struct {
+	if val.Kind() != reflect.Struct {
 		return emptyStatSource{}
 	}
 
+	typ := val.Type()
+
 	return StatSourceFunc(func(cb func(key SeriesKey, field string, val float64)) {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				// nil pointer
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -72,7 +76,7 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 
 // if val is a pointer, deref until it isn't
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From 7fddd9d90227e8fce4394fb3cc4466623af24f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 06/21] fix: do not divide by zero drawing zero length traces

---
 present/trace.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..18b770c 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -270,8 +270,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		total := maxEnd.UnixNano() - minStart.UnixNano()
+		if total <= 0 {
+			return 0
+		}
+		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From 59224f5ec39df8db070336e136b1fca381283c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 07/21] fix: keep StatsJSON output valid when a value is not
 finite

---
 present/stats.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..17e32f2 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,12 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{}
+		if !math.IsNaN(val) && !math.IsInf(val, 0) {
+			// JSON has no representation for these, so they become null.
+			jsonVal = val
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 1454057d33d74e8b949d13f6763bb42d440e544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 08/21] fix: write trace headers for ids with the top bit set

---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From 20e98f3911a83c5c8073e6622f25b4bb0affe1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 09/21] fix: pass the context observers return on to the
 wrapped handler

---
 http/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/server.go b/http/server.go
index 861304d..f257889 100644
--- a/http/server.go
+++ b/http/server.go
@@ -66,7 +66,7 @@ func (t traceHandler) ServeHTTP(writer http.ResponseWriter, request *http.Reques
 		writer.Header().Set(traceIDHeader, fmt.Sprintf("%x", s.Trace().Id()))
 		writer.Header().Set(childIDHeader, fmt.Sprintf("%x", s.Id()))
 	}
-	t.handler.ServeHTTP(wrapped, request.WithContext(s))
+	t.handler.ServeHTTP(wrapped, request.WithContext(ctx))
 
 	s.Annotate("http.responsecode", fmt.Sprint(statusCode()))
 }
-- 
2.43.0


From fb34c10b9598f2eb08fd2870c23d7d7e5261ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 10/21] fix: make Task.Func safe to call while the Task runs
 for the first time

---
 ctx.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..a5ff646 100644
--- a/ctx.go
+++ b/ctx.go
@@ -209,13 +209,13 @@ func (s *Scope) Task(tags ...SeriesTag) Task {
 	return Task(func(ctx *context.Context,
 		args ...interface{}) func(*error) {
 		ctx = cleanCtx(ctx)
-		if ctx == &taskSecret && taskArgs(f, args) {
+		if ctx == &taskSecret && taskArgs(loadFunc(&f), args) {
 			return nil
 		}
 		initOnce.Do(func() {
-			f = s.FuncNamed(callerFunc(3), tags...)
+			compareAndSwapFunc(&f, nil, s.FuncNamed(callerFunc(3), tags...))
 		})
-		s, exit := newSpan(*ctx, f, args, nil, nil)
+		s, exit := newSpan(*ctx, loadFunc(&f), args, nil, nil)
 		if ctx != &unparented {
 			*ctx = s
 		}
-- 
2.43.0


From 8c59d72433a87426845581a70ee6872e089c5c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 11/21] fix: escape function names and args for the SVG tooltip
 script

---
 present/trace.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 18b770c..e2c9e79 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -130,7 +130,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.TooltipName}}({{.TooltipArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -316,6 +316,8 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			FontSize          int
 			FuncName          string
 			FuncArgs          string
+			TooltipName       string
+			TooltipArgs       string
 			FuncDuration      string
 			FuncStartDuration string
 			SpanMid           int
@@ -339,6 +341,11 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			SpanMid:           id*(barHeight+barSep) + barHeight/2,
 		}
 
+		// the tooltip is a JavaScript string in an attribute: undoing the XML
+		// escaping must not be able to end the string.
+		templateVals.TooltipName = template.JSEscapeString(templateVals.FuncName)
+		templateVals.TooltipArgs = template.JSEscapeString(templateVals.FuncArgs)
+
 		var buf bytes.Buffer
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
-- 
2.43.0


From 13e2b24cb607df60e7e1b6b8a48fbdc8f7cd1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 12/21] fix: forget the sampled values when a distribution is
 reset

---
 distgen.go.m4 | 2 +-
 durdist.go    | 2 +-
 floatdist.go  | 2 +-
 intdist.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..028e176 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -163,7 +163,7 @@ func (d *_NAME_`Dist') Copy() *_NAME_`Dist' {
 
 func (d *_NAME_`Dist') Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir, d.sorted = [ReservoirSize]float32{}, false
 }
 
 func (d *_NAME_`Dist') Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/durdist.go b/durdist.go
index 4d2a281..3a7064d 100644
--- a/durdist.go
+++ b/durdist.go
@@ -163,7 +163,7 @@ func (d *DurationDist) Copy() *DurationDist {
 
 func (d *DurationDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir, d.sorted = [ReservoirSize]float32{}, false
 }
 
 func (d *DurationDist) Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..ab2063b 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -162,7 +162,7 @@ func (d *FloatDist) Copy() *FloatDist {
 
 func (d *FloatDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir, d.sorted = [ReservoirSize]float32{}, false
 }
 
 func (d *FloatDist) Stats(cb func(key SeriesKey, field string, val float64)) {
diff --git a/intdist.go b/intdist.go
index 07817ac..c934159 100644
--- a/intdist.go
+++ b/intdist.go
@@ -162,7 +162,7 @@ func (d *IntDist) Copy() *IntDist {
 
 func (d *IntDist) Reset() {
 	d.Low, d.High, d.Recent, d.Count, d.Sum = 0, 0, 0, 0, 0
-	// resetting count will reset the quantile reservoir
+	d.reservoir, d.sorted = [ReservoirSize]float32{}, false
 }
 
 func (d *IntDist) Stats(cb func(key SeriesKey, field string, val float64)) {
-- 
2.43.0


From 712a4f76fe3af06988ec48c7798ec4efe218d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 13/21] fix: do not panic when a NaN quantile is queried

---
 distgen.go.m4 | 2 +-
 durdist.go    | 2 +-
 floatdist.go  | 2 +-
 intdist.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 028e176..d30d8e8 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -139,7 +139,7 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // also catches NaN
 		return _TYPE_`(reservoir[0])'
 	}
 	if quantile >= 1 {
diff --git a/durdist.go b/durdist.go
index 3a7064d..437ea75 100644
--- a/durdist.go
+++ b/durdist.go
@@ -139,7 +139,7 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // also catches NaN
 		return time.Duration(reservoir[0])
 	}
 	if quantile >= 1 {
diff --git a/floatdist.go b/floatdist.go
index ab2063b..8780ae0 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -138,7 +138,7 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // also catches NaN
 		return float64(reservoir[0])
 	}
 	if quantile >= 1 {
diff --git a/intdist.go b/intdist.go
index c934159..74b820e 100644
--- a/intdist.go
+++ b/intdist.go
@@ -138,7 +138,7 @@ func (d *IntDist) Query(quantile float64) int64 {
 		d.sorted = true
 	}
 
-	if quantile <= 0 {
+	if !(quantile > 0) { // also catches NaN
 		return int64(reservoir[0])
 	}
 	if quantile >= 1 {
-- 
2.43.0


From 632fd06d15b50d340d72626f66a9053f5082956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 14/21] fix: never share one metric between different names and
 tags

---
 scope.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..6a549c4 100644
--- a/scope.go
+++ b/scope.go
@@ -16,6 +16,7 @@ package monkit
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"sync"
 )
@@ -68,24 +69,30 @@ func (s *Scope) newSource(name string, constructor func() StatSource) (
 }
 
 func sourceName(namespace, name string, tags []SeriesTag) string {
-	var sourceNameSize int
-	sourceNameSize += len(namespace) + len(name) + len(tags)*2
+	// every part is prefixed with its length, so that different names and tags
+	// can never end up with the same source name.
+	const lengthSize = 4
+	sourceNameSize := len(namespace) + len(name) + lengthSize
 	for _, tag := range tags {
-		sourceNameSize += len(tag.Key) + len(tag.Val)
+		sourceNameSize += len(tag.Key) + len(tag.Val) + 2*lengthSize
 	}
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
-		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
-		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Key)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+func writeSourceNamePart(sourceName *strings.Builder, part string) {
+	sourceName.WriteString(strconv.Itoa(len(part)))
+	sourceName.WriteByte(':')
+	sourceName.WriteString(part)
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -268,14 +275,15 @@ func (s *Scope) Gauge(name string, cb func() float64) {
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	key := sourceName("", name, nil)
+	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[key] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From 681c43bf282b5fcda0a9eb76c668fa41c72b3384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:15 +0000
Subject: [PATCH 15/21] fix: do not link to a page that does not exist from the
 index

---
 present/path.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..8eb6147 100644
--- a/present/path.go
+++ b/present/path.go
@@ -311,7 +311,6 @@ func writeIndex(w io.Writer) error {
 
 			<dt><a href="stats">/stats</a></dt>
 			<dt><a href="stats/json">/stats/json</a></dt>
-			<dt><a href="stats/svg">/stats/svg</a></dt>
 			<dd>Statistics about all observed functions, scopes and values.</dd>
 
 			<dt><a href="trace/json">/trace/json</a></dt>
-- 
2.43.0


From fe6f665399690df7f3012e486f18dce6cd742533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:16 +0000
Subject: [PATCH 16/21] fix: report a failed write of the parents list in
 FuncsText

---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From dba4bac1d1913d99da76a06f7f51eac357d9ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:16 +0000
Subject: [PATCH 17/21] fix: do not call the sampled callback with the trace
 lock held

---
 present/path.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/present/path.go b/present/path.go
index 8eb6147..0e40dd5 100644
--- a/present/path.go
+++ b/present/path.go
@@ -236,13 +236,18 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 					if !spanMatcher(s) {
 						return false
 					}
+					found := s.Trace()
 					traceMtx.Lock()
-					defer traceMtx.Unlock()
-					if trace == nil {
-						trace = s.Trace()
-						trace.Set(SampledKey, true)
-						if cb, exists := trace.Get(SampledCBKey).(func(*monkit.Trace)); exists {
-							cb(trace)
+					first := trace == nil
+					if first {
+						trace = found
+					}
+					traceMtx.Unlock()
+					if first {
+						found.Set(SampledKey, true)
+						// the callback may start spans, so it is called unlocked.
+						if cb, exists := found.Get(SampledCBKey).(func(*monkit.Trace)); exists {
+							cb(found)
 						}
 					}
 					return true
-- 
2.43.0


From ced10874cde9a35f1b1d8e88e7b39dc021155faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:03 +0000
Subject: [PATCH 18/21] fix: do not write the trace redirect with the trace
 lock held

---
 present/path.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/present/path.go b/present/path.go
index 0e40dd5..3f0af39 100644
--- a/present/path.go
+++ b/present/path.go
@@ -260,18 +260,19 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 				}
 
 				traceMtx.Lock()
-				defer traceMtx.Unlock()
+				traceId := trace.Id()
+				traceMtx.Unlock()
 
 				if sendJson {
 					return json.NewEncoder(w).Encode(struct {
 						TraceId int64 `json:"trace_id"`
 					}{
-						TraceId: trace.Id(),
+						TraceId: traceId,
 					})
 				}
 
 				q := u.Query()
-				q.Add("argv", fmt.Sprint(trace.Id()))
+				q.Add("argv", fmt.Sprint(traceId))
 				u.RawQuery = q.Encode()
 
 				return vizRedirectHTML.Execute(w, u.String())
-- 
2.43.0


From 12daccd4e3e052c20d818995c6a78dd21c985f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:10 +0000
Subject: [PATCH 19/21] fix: do not modify the shared redirect URL of a trace
 query result

---
 present/path.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/present/path.go b/present/path.go
index 3f0af39..4d8f380 100644
--- a/present/path.go
+++ b/present/path.go
@@ -271,11 +271,13 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 					})
 				}
 
-				q := u.Query()
+				// a Result may run more than once, so u itself is left alone.
+				redirect := *u
+				q := redirect.Query()
 				q.Add("argv", fmt.Sprint(traceId))
-				u.RawQuery = q.Encode()
+				redirect.RawQuery = q.Encode()
 
-				return vizRedirectHTML.Execute(w, u.String())
+				return vizRedirectHTML.Execute(w, redirect.String())
 			}, contentType, nil
 		}
 	}
-- 
2.43.0


From c1f874cc09c48bdeef9be672d31e01c1d243f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:59 +0000
Subject: [PATCH 20/21] fix: http: TraceRequest accepts a request without
 headers

http.Client.Do allows a nil Header; a sampled trace made TraceRequest panic
on it before the client was called.
---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..45d96d7 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,9 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From f3584aa3e1deb13c2ccbc6466b87538499073f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:14 +0000
Subject: [PATCH 21/21] fix: monotime on windows: do not overflow after fifteen
 minutes

The counter difference times a second leaves 64 bits after 2^63/1e9 ticks,
about 922 seconds at 10 MHz, and the clock jumps backwards.
---
 monotime/monotime_windows.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monotime/monotime_windows.go b/monotime/monotime_windows.go
index 74053e5..ab01926 100644
--- a/monotime/monotime_windows.go
+++ b/monotime/monotime_windows.go
@@ -17,7 +17,11 @@ var (
 
 func elapsed() time.Duration {
 	elapsed := queryPerformanceCounter() - qpcBase
-	return time.Duration(elapsed) * time.Second / (time.Duration(qpcFrequency) * time.Nanosecond)
+	// whole seconds and the rest apart: the counter times a second overflows
+	// after about fifteen minutes at the usual 10 MHz.
+	secs, rest := elapsed/qpcFrequency, elapsed%qpcFrequency
+	return time.Duration(secs)*time.Second +
+		time.Duration(rest)*time.Second/time.Duration(qpcFrequency)
 }
 
 func queryPerformanceCounter() int64 {
-- 
2.43.0

