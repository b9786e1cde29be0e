#!/usr/bin/env python3
"""writes DESIGN.md: the text below, with the runs (bounds) of every check taken from checks.py"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import checks
T = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
HEAD = r'''# Solver-based checking of CGraph

Every property in properties.jsonl is decided by one technique: symbolic execution of the compiled library, with Z3 deciding every
assertion over all values of the symbolic inputs of a path, and with thread schedules, timer expiries and fault points explored as
symbolic choices within stated bounds.  No property is listed as not applicable; what a property leaves out is said in its section.
(This file is written by tools/design.py; the runs listed per property come from checks.py.)

## How a check works
1. `run.py check <id>` compiles all of /repo/src (the working tree, as one unit; one by one and linked if names clash) together with the
   property's harness to LLVM IR (clang -O1, `-fno-access-control`).  Nothing is extracted or rewritten by hand, so a change anywhere in
   the library is in the encoding of the next run.  Build results are kept under build/ by content hash.
2. engine/symex.cpp executes that IR.  Values are concrete words or Z3 bit-vector / floating point terms; memory is concrete in addresses
   and byte-wise symbolic in contents; symbolic indices are resolved by case split; every heap, stack and global access is checked for
   bounds, lifetime and initialised-ness (`memory`), as are overflows/divisions that would trap (`arithmetic`) and uncaught exceptions,
   `abort`, `terminate` (`terminate`), and states in which no thread can go on (`deadlock`) or nothing but polling happens (`livelock`).
   libstdc++ runs as compiled (header code is in the IR); pthread, futex, clock, allocation, exceptions and random numbers are modelled in
   engine/model_sym.cpp and engine/model_common.cpp.  Paths fork the process; 4-8 processes work in parallel; states (memory, threads,
   path condition) seen before with at least as many deviations left are not explored again.
3. Schedules.  A default schedule runs the current thread until it blocks, then the next one.  At every visible operation (mutex,
   condition variable, atomic, thread start/join, `__sym_visible()` in a body) any other runnable thread may be taken instead; the number
   of such deviations per execution is the bound `delays` (delay-bounded scheduling), all combinations within the bound are explored.  With
   `delays>0` a first pass (`race_s` seconds, vector clocks) finds plain memory accesses that can race; they become visible operations too
   (two rounds), so that unsynchronised code is interleaved at the right places.  `--clock-advance` lets a sleeper or timed wait be the
   next to run (virtual time jumps to it); `--timer-order` lets timers that are due fire in any order; `--rr-down` picks the next thread
   downwards in the default schedule.
4. A violated assertion (or memory error, deadlock ...) gives a model: input values plus schedule.  It is written as a .replay file and run
   against a native build of the same IR (with and without AddressSanitizer) in which a small runtime (engine/replay_rt.cpp) enforces the
   schedule with real threads.  Only a counterexample that shows the same kind of failure natively is reported as VIOLATION; otherwise a
   NOTE is printed and it is listed in the evidence as unreproduced.  Some passing paths are replayed natively as well (validated).
5. Each harness marks points it must get to (`__sym_reach`); a run that does not get to them is noted, so that a check cannot pass empty.

Evidence lists the functions of src/ that were executed, bounds, paths, states, queries, solver time, and whether exploration was complete
within the bounds.  Quick runs are complete on the unchanged tree; thorough ones may reach their time limit and then say `complete=False`.

## Assumptions common to all checks
Sequentially consistent memory (no weak-memory reorderings); allocation does not fail; the models of pthread/clock/allocator are right;
clang -O1 output stands for the code; bodies of user nodes are those of the harnesses.  Loops are unrolled without limit (a step limit
counts as incomplete).  Small graphs (bounds below), pools of 1 to 7 workers.  Not explored: more deviations than the bound, spurious
wake-ups, Windows code, Python bindings.
`std::ostream`/`std::fstream` are replaced in the harnesses that need them (harness/ostream.h, harness/include/fstream: a file system of a
few files in memory that can refuse to open, read or write or cut a file short at any byte).

## Properties
'''
P = {
"C01": "Acyclic graphs with free edges (all shapes, up to 7 elements for one fixed fan shape), the three engines, macro nodes, bindings, late registration, runs repeated. Oracle: every body counted once per run and loop, and after the end of all it depends on.",
"C02": "All directed graphs (each ordered pair a free bit), flat and in a region, engines dynamic/static/topo; dependencies also added between elements that exist (op). Oracle: transitive closure in the harness; init is refused exactly when it has a cycle, nothing runs then.",
"C03": "Any element reports any negative (free 32-bit) code, pools of two workers. Oracle: deadlock/livelock detection on every explored schedule, run returns, nothing of the run is active or starts afterwards.",
"C04": "As C03, with warnings (positive codes). Oracle: the returned code is that of a failed element all of whose predecessors succeeded; no successor of a failed element runs.",
"C05": "A hook (init/run/destroy), any place (node or child of each group, asynchronous element, aspect) throws. Oracle: an error status comes back, run never throws, a later run works.",
"C06": "Loop counts and answers of isHold are free within maxloop; on nodes, clusters, regions, conditions. Oracle: loop + held repetitions of the body, both stopping at an error.",
"C07": "Levels are free 32-bit values, hooks fail with free codes, groups of all kinds, late registration. Oracle: each init/destroy hook once, levels ascending, failures returned.",
"C08": "Sequences of calls of length `len` over init, run, process, destroy, setters and registration against a two-phase model; a failed init may be repaired and repeated.",
"C09": "Children, loops, failing child free; nested clusters, clusters next to other elements. Oracle: strict order on any schedule, stops at the first failing child.",
"C10": "Every acyclic graph inside, outer predecessor/successor, failing elements, repetition, all engines inside and outside.",
"C11": "choose() returns a free 32-bit value; isMatch any subset; serial and parallel; children fail. Oracle: which children ran, and that none is still running when the group is done.",
"C12": "Number of children, wait number, failures and schedules; oracle: at least that many children ended before the successor starts, all returned by the end of the run, nothing carries over to the next run.",
"C13": "reshape builds any graph (also cyclic ones, failing hook) anew in each run. Oracle: exactly that graph is executed, in order, or an error and nothing.",
"C14": "GFunction hooks, GSingleton in two pipelines, GCoordinator with free sizes, GFence. Oracle: what the wrapped element would have done.",
"C15": "Elements with timeouts that end before or after them (virtual time free), strategies AS_ERROR/HOLD_BY_PIPELINE/NO_HOLD, fences on them. Oracle: status per strategy, waited for by fence and end of run; without preemption a short one is in time, also after the pool has slept.",
"C16": "Up to three aspects on nodes and groups; begin hooks fail with free codes, bodies fail or throw. Oracle: sequence of hook calls and the statuses they were given.",
"C17": "Sequences of create/get/remove over keys and types; setup and reset around runs; access from parallel elements.",
"C18": "Sync/async triggers with the three strategies from parallel elements and daemons; futures. Oracle: number of notifications, when they ended.",
"C19": "Elements that meet at a stage in rounds; oracle: nobody passes early, everybody passes, the hook ran once per round.",
"C20": "Daemons with free intervals in virtual time, slow tasks, modified intervals, failing init. Oracle: tick times, no tick outside init..destroy, destroy returns.",
"C21": "Call sequences against a model queue; producers and consumers on all schedules; sizes 1-2; strategies WAIT, DROP, REPLACE.",
"C22": "Sequences of bind/detach/drop/pub/recv against a model; concurrent publishers.",
"C23": "Call sequences against a model; two or three concurrent users, failing and throwing pipelines.",
"C24": "cancel/suspend/resume from another thread at any visible point of a run (or between the rounds of process). Oracle: what was not due does not start, everything resumes, cancelled runs end with the cancel status.",
"C25": "All graphs over 4 (5) elements, late levels, groups. Oracle: the transitive reduction computed from the closure.",
"C26": "As C25 for maximum parallelism (size of a maximum antichain, brute force in the harness) and checkSeparate (closure and group rules).",
"C27": "makeSerial on graphs and groups; oracle: accepted exactly for chains; every body on the calling thread, no worker started; results equal to the parallel run.",
"C28": "Tasks submitted in every way (commit, with priority, tid, batch, nested) to pools of 1-3 threads. Oracle: each once, future value/exception, destroy joins all; after the pool has slept, all are done before its sleep interval is over.",
"C29": "Every field of the configuration is a free 32-bit value; dispatch with any index; stealing and secondary thread bookkeeping under schedules.",
"C30": "Queues against models (mode 0/1/4) and under two to three threads (mode 2/3/5), with entries that count copies and moves.",
"C31": "Free priorities of tasks waiting in the pool.",
"C32": "Task groups with limits (virtual time), slow tasks, callbacks; submissions from elements inside groups.",
"C33": "Codes are free 32-bit integers; every combination of operations of length 3.",
"C34": "Operation sequences with free keys and values, capacities 1-3.",
"C35": "Operation sequences with free values.",
"C36": "Dimensions and contents free; Z3 floating point; buffers exactly as large as stated.",
"C37": "Graphs, attributes, params, events, daemons, stages saved and loaded (real serialiser, file in memory); files cut at any byte, faults at open/read/write, unknown types. Needs C++17.",
"C38": "perf() against process() on graphs and groups with failing elements and existing aspects.",
"C39": "Sequences of registrations and addDepend calls with null, foreign, duplicate, own members. Oracle: recorded sets on both sides, later order of the run.",
"C40": "The selector is a free 32-bit value, hooks fail with free codes.",
"C41": "asyncRun/asyncProcess with every launch policy, polling, failures, two pipelines at once.",
"C42": "Values are free 32-bit integers; adds, changes and lookups by element, aspect, daemon, event and stage.",
"C43": "All interleavings within the bound of two to three threads on the lock, the semaphore and the ring.",
"C44": "What dump() writes is parsed as DOT by the harness and compared statement by statement with the graph it registered, in every phase.",
"C45": "Object counters per kind plus the number of live allocations (`__sym_live`), over everything a pipeline can be given (bit mask `what`), phases, failures, refusals; the cycle is repeated to see growth.",
"C46": "Two pipelines on one pool at once (failing or not, with foreign tasks); sequences of requests against a model (mode 1).",
"C47": "Every mix of five ways to lock, by elements at once; events triggered at once; all sequences of create, get, remove, clean and trace requests against a model (mode 2).",
"C48": "All sequences of start, stop and sleep against a model of the tick times; threads racing for a singleton; every shape of random data up to 3x3 for fixed generator states (what the generator yields is concrete); helpers on free integers.",
"C49": "Loop counts, held repetitions and hook results are free; bindings and graphs of up to three elements are enumerated by the solver, the thread is compared with the pool's own threads; timeouts use the modelled clock.",
}
SD = V + "/seeded"; SEEDS = "\n".join("- %s (%s): %s" % (d, m["property"], m["what_it_breaks"]) for d in sorted(os.listdir(SD)) for m in [json.load(open("%s/%s/meta.json" % (SD, d)))]) if os.path.isdir(SD) else ""
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read().replace("@SEEDS@", SEEDS)
def runs(c):
    out = []
    for r in checks.CHECKS[c]["runs"]:
        o = dict(r.get("opts", {})); th = r.get("thorough", {}); s = r["h"] + "(" + ", ".join("%s=%s" % kv for kv in sorted(o.items())) + ")"; s += " delays=%s" % r.get("delays", 2)
        if r.get("flags"): s += " " + " ".join(r["flags"])
        if "thorough" not in r or r.get("tiers") == ("thorough",): s += " [thorough only]" if r.get("tiers") == ("thorough",) else ""
        else:
            d = dict(th); oo = {k: v for k, v in d.pop("opts", {}).items() if o.get(k) != v}; d.update(oo)
            if d: s += " [thorough: " + ", ".join("%s=%s" % kv for kv in d.items()) + "]"
        out.append(s)
    return out
with open(V + "/DESIGN.md", "w") as f:
    f.write(HEAD)
    for c in sorted(P):
        f.write("### %s %s\n%s\n" % (c, T[c]["title"], P[c]))
        a = checks.CHECKS[c].get("assumptions")
        if a: f.write("Assumes: " + "; ".join(a) + ".\n")
        f.write("Runs: " + "; ".join(runs(c)) + ".\n\n")
    f.write(TAIL)
assert set(P) == set(checks.CHECKS), set(P) ^ set(checks.CHECKS)
