SA="static analysis of the SSA form (path-sensitive interprocedural dataflow, callees inlined): "
NOTE="Decided from the source on every run; exhaustive over the abstract paths of the analysed functions, with loops widened to a fixed point. Abstraction and assumptions are listed in the evidence file and DESIGN.md."
TECH={
"C01":(SA+"guarded-by inference (lock sets, atomics, once) over all roots",NOTE),
"C02":(SA+"lock typestate, lock-order graph, blocking-call lint under locks",NOTE),
"C03":(SA+"callback-under-lock analysis with function-value origins",NOTE),
}
DR="contract drivers over the public API evaluated on the SSA form with every parameter an arbitrary abstract value (path-sensitive interprocedural dataflow to a fixed point, no execution, no solver)"
TECH.update({
"C05":(SA+DR+", plus a lost-update dataflow rule over all roots",NOTE),
"C04":(SA+DR+", plus highwater-covers-count and lost-update dataflow rules over all roots",NOTE),
"C06":(SA+DR,NOTE),
"C07":(SA+DR,NOTE),
"C08":(SA+DR+", plus critical-section rules for the finished flag, orphaned flag and children of a span",NOTE),
"C09":(SA+DR+", plus atomic-step rules (lost update, retry, exclusive unlinking) on the observer list",NOTE),
"C10":(SA+DR+", plus critical-section and ordering rules for the watcher set",NOTE),
"C11":(SA+"abstract update histories of counters and distributions compared with the exact running quantities; single-critical-section rule",NOTE),
"C12":(SA+"symbolic bucket-conservation dataflow over Mark/tick/Reset/SetTotal, single-critical-section rule",NOTE),
"C13":(SA+DR+" with arbitrary names and tags over an injective-composition string domain, plus a check-then-create critical-section rule",NOTE),
"C18":(SA+DR+", clock-reading provenance of durations, once-only claim rule, monotonic source rule (three platforms in the thorough tier)",NOTE),
"C20":(SA+DR+" from the initial package state, plus an atomic-step rule on the handler list",NOTE),
"C22":(SA+"provenance of ids (one atomic step), known-bits domain for the increment, write effects on the counter over all entry points",NOTE),
"C14":(SA+"freshness/escape dataflow of returned maps and slices over the whole API, argument-write effects, copy-before-append rule, "+DR,NOTE),
"C19":(SA+DR+", plus critical-section and own-append rules for transformer lists and the delta state",NOTE),
"C15":(SA+DR+" (map iteration in every order, sorting as its comparisons), plus an exhaustive-iteration rule over all enumerations in arbitrary states",NOTE),
"C16":(SA+DR+" for every built-in metric (field set, keys, value of each field), plus a one-critical-section rule for what an emission reads under a lock",NOTE),
"C29":(SA+DR+" with arbitrary ids and header parts; formatting, splitting and parsing of composed strings evaluated symbolically",NOTE),
"C30":(SA+DR+" with arbitrary handlers, clients, writers and requests",NOTE),
"C27":(SA+DR+", with the other goroutines' activity considered before every synchronising operation and while waiting, plus reachability of what is left behind",NOTE),
"C28":(SA+DR+", with the pinging goroutine's steps, ticks and failures interleaved at every synchronising operation",NOTE),
"C23":(SA+DR+", with a symbolic model of encoding/json",NOTE),
"C25":(SA+DR+", each run with a writer that fails at an arbitrary write",NOTE),
"C26":(SA+DR+", with arbitrary paths, queries, patterns and registries; URL and text operations evaluated symbolically",NOTE),
"C21":(SA+DR+", with a symbolic model of package reflect on a catalogue of types with arbitrary contents",NOTE),
"C31":(SA+DR+" from the initial package state, with stand-ins for the system that fail or not, other collections coming in between, and a symbolic model of package reflect (three platforms in the thorough tier)",NOTE),
"C32":(SA+"the interface and the load/store/swap/compare-and-swap helpers of every build configuration, the contract drivers of the properties resting on them re-analysed under the appengine and tinygo tags, and the distributions the template expands to (macro expansion done by the checker) held to the rules of the distributions",NOTE),
"C24":(SA+"backward flow analysis of everything dot outputs write and series keys are composed of, guards decided per character; template data of the SVG output checked against the place of each field",NOTE),
"C17":(SA+"index-bound and divisor intervals, sorted-flag typestate, slot provenance of the reservoir",NOTE),
})
NA={
"C33":"Statistical accuracy of the sample depends on the distribution of random numbers and inputs; no static argument in reach decides it (the structural part, bounds and replacement, is C17).",
"C34":"Collision probability across processes depends on the entropy of the host's random source at run time.",
"C35":"Non-overlap of drawn bars is a geometric fact about arbitrary runtime span times and row assignments over loops of unbounded nesting; not decidable by the analyses here.",
"C36":"Bounded completion under contention depends on the scheduler and the fairness of spin and mutex locks (the necessary no-blocking-under-lock part is C02).",
}
