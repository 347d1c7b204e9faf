#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("C01","Shared state is free of data races",
 "Every metric, Func, Span, Trace, Scope, Registry, collector and stat source may be used from any number of goroutines at once: no memory that two of them can reach is written by one of them without every conflicting access being ordered by the same mutex, by atomic operations, or by a once-only initialisation. Types documented as not threadsafe (the distributions) are exempt when the application uses them directly, but not where the library shares one internally.",
 ["schedules","programs"],"every pair of API calls from any goroutines, every interleaving, with and without the appengine build tag",
 "The tests are almost single threaded and are not run under the race detector; a race needs a particular pair of operations to overlap.",
 ["ctx.go","span.go","trace.go","registry.go","scope.go","funcstats.go","funcset.go","counter.go","meter.go","val.go","timer.go","tags.go","collect/collect.go","collect/trace.go","environment/runtime.go","present/utils.go","present/path.go"],
 [("per-object mutexes and sync/atomic fields","struct definitions in the files above"),("once-only caches","tags.go TagSet.String, environment/process.go processCRC")])
p("C02","Locks are always released and never deadlock",
 "Every lock the library takes is released on every way out of the operation that took it (return, early return, recovered or propagated panic of application code), is never taken again by a goroutine already holding it, and locks that nest do so in one global order. While holding a lock the library never waits on a channel, timer, I/O or another goroutine, and its own spin lock admits one holder at a time (the keep-alive of a waiting trace query, whose lock nothing else can take, may ping under that lock).",
 ["schedules","programs","inputs"],"every path through every operation, every interleaving of operations",
 "A leaked or inverted lock only shows when a particular early exit, panic or interleaving happens; tests exercise the main path of each operation once.",
 ["registry.go","scope.go","span.go","spinlock.go","trace.go","funcstats.go","funcset.go","counter.go","meter.go","val.go","timer.go","transform.go","error_names.go","collect/collect.go","collect/trace.go","present/utils.go","present/path.go"],
 [("paired Lock/Unlock","all of the above"),("spinLock","spinlock.go")])
p("C03","Application callbacks never run under a library lock",
 "Whenever the library calls code the application supplied (stat, span, func, scope and trace callbacks, observers, transformers, gauges, matchers, error name handlers, errors' own methods, stat sources), it holds no lock that an ordinary library call from inside that code would need, so the callback can use the library freely without deadlocking. Metric constructors run during get-or-create are the library's own and are not affected.",
 ["programs","histories"],"every callback the API accepts, whatever library calls it makes",
 "No test calls back into the library from a callback, and the deadlock needs exactly that.",
 ["registry.go","scope.go","span.go","funcset.go","funcstats.go","error_names.go","val.go","timer.go","meter.go","counter.go","transform.go","collect/collect.go","collect/trace.go","present/path.go"],
 [("snapshot under the lock, then unlock, then call","Registry.Scopes/RootSpans, Scope.Stats/Funcs, Span.Children, funcSet.Iterate, FuncStats.Stats/end, DeltaTransformer.Transform")])
p("C04","Starting and finishing a span balance exactly",
 "Starting a span adds exactly one to the number of running calls of its function, exactly one to its trace's span count, records its calling function (or entry) as a parent of that function, and makes the span findable: as a child of its parent, or as a root span. Finishing it undoes the counts and the findability exactly once, whatever the outcome; the highest concurrency ever reached is never under-reported.",
 ["histories","schedules"],"every start, finish and outcome, at any nesting and concurrency",
 "Tests do not check counts after errors, panics, or for remote/reset traces; an imbalance accumulates over long histories.",
 ["ctx.go","span.go","spanbag.go","funcstats.go","funcset.go","trace.go","registry.go"],
 [("newSpan and its exit closure","ctx.go"),("FuncStats.start/end","funcstats.go"),("addChild/removeChild, rootSpanStart/rootSpanEnd","span.go, registry.go")],
 [("current/highwater","running and peak calls of a Func","funcstats.go"),("spanCount","spans of a Trace","trace.go")],["Func.Current","Func.Highwater","Trace.Spans","Registry.RootSpans","Span.Children","Func.Parents"])
p("C05","Every finished call is counted once under its outcome",
 "Each finished call of a Func (or observed FuncStats) adds exactly one observation, with the elapsed time between its start and its finish, to either the success times (no error, no panic) or the failure times; a panic adds one to the panic count and nothing to the error counts, an error adds one to the count of that error's name. Resetting clears all of these, and the reported totals are always the sums: failures = errors + panics, total = successes + failures.",
 ["histories","inputs"],"every combination of error, nil error pointer and panic, every history of calls",
 "Tests look at one or two outcomes; exactness is a statement about all of them together.",
 ["funcstats.go","ctx.go"],
 [("FuncStats.end","funcstats.go"),("FuncStats.Stats","funcstats.go"),("Observe","funcstats.go")],
 [("errors, panics, successTimes, failureTimes","outcome tallies","funcstats.go")],["FuncStats.Stats","Success/Panics/Errors/SuccessTimes/FailureTimes"])
p("C06","Instrumentation is transparent to panics and errors",
 "Deferring a Task's (or FuncStats.Observe's, or the HTTP helpers') exit function never changes what the instrumented function does: a panic (with a non-nil value) passes through with the same value after being recorded, a normal return stays a normal return, the caller's error variable is read but never written, and a nil error pointer is accepted. Work functions run under collection keep their panics too.",
 ["inputs","programs"],"every panic value, error value and nil error pointer",
 "Only one test path panics; swallowing or replacing a panic on one path is invisible otherwise.",
 ["ctx.go","funcstats.go","collect/ctx.go","http/client.go","http/server.go"],
 [("recover/re-panic in the exit closure","ctx.go newSpan, funcstats.go Observe")])
p("C07","Span ancestry, trace membership and contexts are right",
 "A span started from a context that carries a span becomes that span's child in the same trace and reports its id as parent; with no span in the context it becomes the root of a fresh trace, ResetTrace always begins a fresh trace, and RemoteTrace uses exactly the given trace and remote parent id with no local parent. The caller's context variable is updated to the context observers returned (or the span itself), a nil context or nil pointer is tolerated, other context values stay visible through the span, and ResetContextSpan hides the span and nothing else.",
 ["inputs","programs"],"every context shape: nil, plain, span, wrapped span, reset",
 "Each combination of context shape and entry point is a separate case; the tests cover a few.",
 ["ctx.go","span.go","task.go"],
 [("newSpan context inspection","ctx.go"),("cleanCtx/unparented","ctx.go"),("Span.Value, resetContext.Value","span.go, ctx.go")],(),["SpanFromCtx","Span.ParentId","Span.Trace"])
p("C08","A child outliving its parent becomes an orphan exactly once",
 "When a span finishes before one of its children, every child still running becomes orphaned and is then listed among the root spans until it finishes; a child that finished first is never listed, no matter how the two finishes and the child's start interleave. No span stays listed after it has finished, and none is lost while running.",
 ["schedules","histories"],"every interleaving of child start, child finish and parent finish",
 "No test has an orphan; the windows are a few instructions wide.",
 ["ctx.go","span.go","spanbag.go","registry.go"],
 [("done/orphaned flags tested and set in one critical section","span.go orphan/addChild, ctx.go exit"),("orphans map","registry.go"),("spanBag multiset","spanbag.go")],
 [("done, orphaned, children","lifecycle flags guarded by the span's lock","ctx.go")],["Registry.RootSpans","Span.Orphaned"])
p("C09","Span observers see every start and finish once",
 "An observer registered on a trace is told once about every span that starts afterwards and once about every span that finishes while it is registered, with that span's own error, panic flag and finish time and the context in use; with several observers each gets the event and the context each returns from Start is the one handed on. Registering or cancelling one observer never drops, duplicates or revives another, in any interleaving, and a cancelled observer is removed.",
 ["schedules","histories","programs"],"every set of observers, every interleaving of register, cancel, start and finish",
 "Tests register one or two observers sequentially.",
 ["trace.go","ctx.go","cas_safe.go","cas_unsafe.go"],
 [("compare-and-swap observer list","trace.go ObserveSpansCtx/removeObserver"),("tuple dispatch","ctx.go spanObserverTuple")])
p("C10","Trace watchers see every new trace until cancelled",
 "A callback registered with ObserveTraces is called exactly once for every trace created or adopted afterwards through its registry and never after its cancellation has returned for later traces; registering or cancelling one watcher leaves all others in effect. ObserveAllTraces attaches the observer once to every live and future trace and its cancel detaches it from all of them.",
 ["histories","schedules"],"every set of watchers and order of registration and cancellation",
 "One watcher at a time is tested.",
 ["registry.go","collect/trace.go"],
 [("updateWatcher rebuild under watcherMtx","registry.go"),("existingTraces/stopping/cancelers","collect/trace.go")])
p("C11","Counters and distributions report exact extremes, counts and sums",
 "After any sequence of updates since construction or reset, a Counter's current value is the exact running value, and its low and high are the smallest and largest value it held after an update; Set returns the previous and Inc/Dec the new value. A distribution's count, sum, low, high and most recent value are exactly those of the inserted values, and a BoolVal's true and false tallies and latest value are exact.",
 ["histories","inputs"],"every sequence of values, including negatives, zero and a first value of either sign",
 "The extremes and first-value handling depend on the whole history; there are no tests of Counter at all.",
 ["counter.go","intdist.go","floatdist.go","durdist.go","distgen.go.m4","val.go"],
 [("Counter.set","counter.go"),("Insert/Reset","*dist.go"),("BoolVal.Observe","val.go")])
p("C12","Meters never lose or double-count marks",
 "A Meter's total equals the sum of everything marked since construction plus adjustments made through Reset and SetTotal: rolling its time buckets forward moves counts between buckets and the total without loss or duplication, and every live meter is rolled by one background ticker. The rate is the count in the window over the window's duration and is never NaN or infinite; a DiffMeter reports the difference of its two meters at one instant.",
 ["histories","schedules"],"every sequence of marks, ticks, resets and reads",
 "A tick happens every ten minutes, so no test ever sees one.",
 ["meter.go"],
 [("tick bucket shift","meter.go"),("stats summation","meter.go"),("ticker.register/run","meter.go")])
p("C13","One name and tag set is one metric, forever",
 "Asking a scope for a metric with the same kind, name and tags always returns the same object, also when several goroutines ask for the first time at once; different names, tags or Func versus value kinds never share one, and asking for an existing name with a different kind panics rather than returning the wrong metric. A registry likewise has one scope per name; gauges replace only gauges.",
 ["schedules","inputs","histories"],"every name and tag string, every concurrent first use",
 "Names containing separators and concurrent first use are not tested.",
 ["scope.go","registry.go"],
 [("newSource double-checked get-or-create","scope.go"),("sourceName injective encoding","scope.go"),("ScopeNamed","registry.go")])
p("C14","Returned snapshots are isolated and tag sets immutable",
 "What the library hands out as a snapshot (error maps, distribution copies, trace values, annotations, span arguments, finished span lists) never changes afterwards and changing it never affects the library. Deriving a tag set or series key from another never alters the original, and values the application passed in are not modified or retained in a way that later changes of the caller's maps show through.",
 ["histories","schedules"],"every later update of the source and every modification of the result",
 "Aliasing only shows when source and snapshot are both changed afterwards.",
 ["funcstats.go","trace.go","span.go","tags.go","stats.go","registry.go","transform.go","val.go","timer.go","*dist.go","collect/collect.go"],
 [("copy under lock","Errors, GetAll, Annotations, SuccessTimes, Values, WithTransformers"),("copy-on-write tag maps","tags.go")])
p("C15","Enumerations visit everything registered, exactly once",
 "Enumerating a registry or scope visits every scope, function, source and chained source registered before the call exactly once, and enumerating spans visits every running root, orphan and descendant known at the time; scopes and sibling spans come in a deterministic sorted order. Stats of every source reach the callback unaltered except for the added scope tag and the configured transformers.",
 ["histories","programs"],"every population of scopes, sources, spans",
 "Tests register one or two things.",
 ["registry.go","scope.go","span.go","spanbag.go","funcset.go"],
 [("snapshot loops","Registry.Scopes/RootSpans/AllSpans/Funcs/Stats, Scope.Funcs/Stats, Span.Children, funcSet.Iterate")])
p("C16","Each source emits its documented fields with the right values",
 "Every built-in metric emits exactly its documented field names under its own series key, each carrying the quantity of that name (min is the low, max the high, sum the sum, recent the latest, quantiles at their stated rank, durations in seconds, and so on). All the values of one emission that come from lock-protected state are taken in one consistent snapshot, and a distribution without observations emits only its count.",
 ["inputs","schedules"],"every state a metric can be in",
 "No test compares the emitted fields of a metric with its state.",
 ["counter.go","meter.go","val.go","timer.go","funcstats.go","intdist.go","floatdist.go","durdist.go","dist.go","scope.go"],
 [("Stats methods","listed files")])
p("C17","The sampling reservoir stays in bounds and consistent",
 "Inserting any number of values and querying any quantile (including NaN, negative and above one) never indexes outside the sampled values, never divides by zero, and only ever answers from values inserted since construction or reset: each of the first 64 values occupies its own slot, and later ones replace a slot with bounded probability. Quantile queries read the sample in sorted order, and any change of the sample after sorting is noticed by the next query.",
 ["histories","inputs"],"every insertion history, every Window setting above zero or disabled, every quantile",
 "Overflow of the reservoir, resets and stale order need long histories with queries in between.",
 ["intdist.go","floatdist.go","durdist.go","dist.go","distgen.go.m4"],
 [("index < ReservoirSize, modulo window","Insert"),("sorted flag","Insert/Query/Reset")])
p("C18","Durations come from the monotonic clock and timers count once",
 "Every elapsed time the library records is the difference of two readings of the monotonic time source taken at the start and the finish of that very operation, so wall clock changes never produce a wrong or negative duration. A running timer records at most one observation however often and concurrently it is stopped, and Stop returns the elapsed time each time.",
 ["schedules","histories"],"every clock adjustment, every number of concurrent stops",
 "Tests cannot move the clock and do not stop a timer twice.",
 ["timer.go","ctx.go","funcstats.go","meter.go","monotime/monotime.go","span.go"],
 [("monotime.Now","monotime/"),("stopped flag under the timer's lock","timer.go")])
p("C19","Transformers wrap every value in order without interference",
 "With transformers configured, every emitted value passes through all of them, the last one configured seeing it first, and reaches the caller's callback unchanged unless a transformer changes it; deriving a registry with more transformers leaves the original and its siblings untouched while sharing all metrics. The delta transformer passes every value through and, for each series' total after the first, adds one delta equal to the change since that series' previous total.",
 ["histories","schedules","programs"],"every chain of transformers, every sequence of collections",
 "Tests do not use two derived registries or two collections of several series.",
 ["registry.go","transform.go"],
 [("WithTransformers copy","registry.go"),("DeltaTransformer.Transform","transform.go"),("TransformStatSource","transform.go")])
p("C20","Errors are named by one fixed precedence",
 "An error's name is decided by the most recently added handler that claims it, otherwise by the error's own Name method if it claims one, otherwise by the built-in table of known errors, errno and network errors, and otherwise is \"System Error\"; a handler or Name method that declines is skipped. Adding a handler never removes another and affects only later errors.",
 ["inputs","histories"],"every error value and set of handlers",
 "Tests do not add handlers.",
 ["error_names.go","error_names_net.go","error_names_net_tinygo.go","error_names_syscall.go","error_names_ae.go"],
 [("getErrorName","error_names.go"),("AddErrorNameHandler","error_names.go")])
p("C21","Struct sources never panic and cover every numeric field",
 "Turning any value into a stat source, and collecting it, never panics: nil values, nil pointers at any depth, non-structs and unexported fields are tolerated. Every field of numeric or boolean type is emitted under its name (nested structs as dotted names), except those tagged to be ignored.",
 ["inputs"],"every Go value, however nested (values that contain themselves aside)",
 "One struct is tested; nil pointers are not.",
 ["struct.go","val.go"],
 [("StatSourceFromStruct, deref","struct.go")])
p("C22","Ids are never negative and never drawn twice within a process",
 "Every id handed out is non-negative, and each is drawn by one atomic step from a 64-bit counter of which it drops a single bit. The counter is advanced by a fixed odd increment above one, chosen once at start-up whether or not the random source works, so it passes through its whole range before repeating, successive ids differ, and concurrent callers never draw the same value.",
 ["schedules","histories"],"every number of concurrent callers",
 "Uniqueness over all interleavings and a 2^63 long history is not testable.",
 ["id.go"],[("NewId atomic add","id.go"),("odd increment","id.go init")])
p("C23","JSON endpoints emit one well-formed document",
 "Every JSON output (stats, functions, spans, traces) is one syntactically complete JSON list for any registry content: separators and brackets are placed correctly for zero, one or many elements, and no value (such as NaN or infinity) can make an element unencodable and truncate the document. Each element carries the documented attributes with the matching values of its span or function.",
 ["inputs","histories"],"every registry content and metric value",
 "Tests render registries with one or two ordinary values.",
 ["present/json.go","present/stats.go","present/funcs.go","present/spans.go","present/trace.go"],
 [("listWriter","present/json.go"),("StatsJSON","present/stats.go"),("formatSpan/formatFinishedSpan/formatFunc","present/json.go")])
p("C24","Untrusted text cannot break out of any output format",
 "Names, arguments, annotations, error names and tag values are escaped for the place they are written to in the dot, SVG and HTML outputs, so no content can end a label, attribute, script string or element early. In series keys every separator character inside a measurement, tag or field name is escaped, so distinct tags never read as one another's separators.",
 ["inputs"],"every string an application can put in a name, tag, argument, annotation or error",
 "Tests use benign strings.",
 ["present/dot.go","present/funcs.go","present/spans.go","present/trace.go","present/path.go","tags.go","stats.go"],
 [("escapeDotLabel","present/dot.go"),("xml.EscapeText / JSEscapeString","present/trace.go"),("writeTag/writeMeasurement","tags.go"),("html/template","present/path.go")])
p("C25","Write failures are reported and stop the output",
 "If the destination of any present output (text, dot, JSON, SVG, index) fails a write, that error is returned to the caller of the output function and nothing more is written after it; success is only reported when everything, including buffered data, was written.",
 ["fault_sequences"],"every write of every output failing",
 "No test injects a write failure.",
 ["present/funcs.go","present/spans.go","present/stats.go","present/json.go","present/trace.go","present/path.go"],
 [("err checks after every write, sticky err in callbacks","present/*"),("buffer flush","present/path.go FromRequest")])
p("C26","The HTTP router serves each documented path correctly",
 "Each documented path of the debug endpoint yields the matching output with the matching content type, bad query parameters are answered with status 400 and unknown paths with 404, and neither starts any output; every link on the index page resolves to a served path. Trace queries watch only spans matching both the requested function pattern and trace id.",
 ["inputs"],"every path and query string",
 "Tests do not cover the router.",
 ["present/path.go","present/http.go","present/errs.go"],
 [("FromRequest switch","present/path.go"),("getStatusCode","present/errs.go")])
p("C27","Span collection always ends and leaves nothing behind",
 "WatchForSpans and FindSpan return when a match completes or their context ends, CollectSpans when its work ends, and each removes every observer and watcher it registered on every way out, including a panic of the work. A collector signals completion exactly once, collects the spans of the matched trace that finish before its end span with their own error, panic flag and finish time, and lists them reachable from that end span.",
 ["schedules","histories"],"every interleaving of starts, finishes, stops and cancellation",
 "Double completion, leaks and late spans need particular interleavings.",
 ["collect/collect.go","collect/ctx.go","collect/trace.go"],
 [("swap-guarded close","collect.go Stop"),("deferred Stop/cancel","ctx.go"),("ForceStart/Start CAS","collect.go")])
p("C28","Keep-alive pings stop for good and report their failure",
 "While a trace query waits, the client is pinged periodically; once the stop function has returned, no ping is running or will ever run again, so the response body can be written safely. A failing or panicking ping ends the wait, is never repeated, and its error is what stop returns; the background goroutine ends and stop may be called repeatedly.",
 ["schedules","fault_sequences"],"every interleaving of tick, stop, cancellation and ping failure",
 "The interval is 30 seconds, so no test reaches a ping.",
 ["present/utils.go","present/trace.go","present/path.go"],
 [("stopped flag and mutex around ping","present/utils.go keepAlive"),("catchPanics","present/utils.go")])
p("C29","Trace headers round-trip and reject malformed input",
 "Trace information written to headers reads back with the same trace id, parent id and sampled flag for every 64-bit id, baggage comes back only for allowed keys, and a header that is malformed in any part yields no trace information and never a panic or a partial result. Without a parent header, sampling can still be requested on its own and then carries no ids.",
 ["inputs"],"every 64 bit id, every header string",
 "Tests use a few small positive ids.",
 ["http/info.go"],
 [("SetHeader/TraceInfoFromHeader","http/info.go"),("hexToUint64","http/info.go")])
p("C30","HTTP wrappers pass requests and responses through unchanged",
 "A wrapped response writer forwards every header, status and body write to the original unchanged, keeps its ability to flush, and reports the status the handler set, or 200 if it set none. The tracing handler calls the wrapped handler exactly once per request, with the request's own data and a context carrying the new span, passes its response on unchanged, notes its status on the span, and continues the trace named by the incoming headers. The tracing client calls the wrapped client exactly once per request, with the request's own data and the trace in its headers, and returns its response and error unchanged. In both, the span ends when the call does, also by a panic.",
 ["inputs","programs"],"every handler and client behaviour",
 "Tests use one handler.",
 ["http/http.go","http/server.go","http/client.go"],
 [("responseWriterObserver","http/http.go"),("traceHandler.ServeHTTP","http/server.go"),("TraceRequest","http/client.go")])
p("C31","Environment sources emit only valid readings and leak nothing",
 "A source describing the process or host emits a reading only when obtaining it succeeded, closes everything it opened on every path, and emits it under the documented key; every source of the package is registered once and all are chained on Register. Each garbage collection pause is observed at most once however often stats are collected.",
 ["fault_sequences","histories"],"every failure of a system call or file, every number of collections",
 "Tests call the sources once on a healthy system.",
 ["environment/os.go","environment/os_unix.go","environment/os_windows.go","environment/proc.go","environment/proc_linux.go","environment/process.go","environment/process_unix.go","environment/rusage.go","environment/runtime.go","environment/env.go"],
 [("err == nil guards, deferred Close","environment/*"),("registrations","environment/env.go and init functions")])
p("C32","All build variants provide the same behaviour",
 "The alternative implementations chosen by build tags or platform (lock-based instead of atomic compare-and-swap, per-platform time, file descriptors and, for errors the platform has, error naming) have the same interface and the same meaning: a load returns the current value, a compare-and-swap changes it only on a match and reports whether it did, and the three generated distribution types behave identically up to their value type, as does what their template expands to.",
 ["configurations"],"every supported build configuration",
 "The tests only build and run the default configuration.",
 ["cas_safe.go","cas_unsafe.go","collect/cas_safe.go","collect/cas_unsafe.go","error_names_net.go","error_names_net_tinygo.go","error_names_ae.go","monotime/monotime_windows.go","intdist.go","floatdist.go","durdist.go","distgen.go.m4"],
 [("build tags","listed files"),("go:generate","dist.go")])
# not claimed
p("C33","Quantile estimates are statistically accurate",
 "The reservoir is a fair random sample of the (windowed) history, so quantiles and averages computed from it estimate the true ones with the expected error.",
 ["histories"],"every distribution of inputs","Statistical quality is not visible in a handful of runs.",["intdist.go","rng.go"],[("reservoir sampling","Insert"),("xorshift128","rng.go")])
p("C34","Ids do not collide across processes",
 "Ids created by different processes collide no more often than independently random 63-bit numbers would.",
 ["histories"],"all processes of a fleet","Needs many processes.",["id.go"],[("crypto/rand seeding","id.go init")])
p("C35","Trace drawings never overlap concurrent spans",
 "In the SVG drawing of a trace, two spans that overlap in time are never drawn on top of each other and every bar's position is proportional to its times.",
 ["inputs"],"every set of spans","Layouts are not tested.",["present/trace.go"],[("computeLayoutInformation","present/trace.go")])
p("C36","Operations complete in bounded time under contention",
 "No API call is delayed without bound by other goroutines' calls.",
 ["schedules"],"every schedule","Liveness under contention is not testable.",["spinlock.go","trace.go","funcstats.go"],[("compare-and-swap retry loops","trace.go, funcstats.go")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
