"""What each check runs.  R(...) is one harness configuration; see DESIGN.md for the meaning of the options."""
ASSUMPTIONS = [
 "bounds: every option in coverage.harnesses[].bounds; schedules with at most `delays` deviations from the default round-robin schedule, switching at every lock, condition variable, atomic, thread operation, yield/sleep and at every plain access that raced with another thread",
 "sequentially consistent memory: reorderings allowed by weaker memory orders are not modelled",
 "libstdc++ and the CGraph sources are executed as compiled by clang -O1 to LLVM IR; malloc never fails; std::thread, mutex, condition_variable, futex, clock and sleep are models (engine/model_sym.cpp), time advances only when no thread can run (or on --clock-advance)",
 "console output (CGRAPH_ECHO) is compiled out with the library's own _CGRAPH_SILENCE_ switch",
]
CHECKS = {}
def R(h, delays=1, q=None, t=None, **kw):
    r = {"h": h, "delays": delays}; opts = {}
    for k, v in kw.items():
        if k in ("std", "defs", "extra", "flags", "timeout", "race", "race_delays", "race_s", "race_iters", "reach", "validate", "tiers"): r[k] = v
        else: opts[k] = v
    r["opts"] = opts
    for name, over in (("quick", q), ("thorough", t)):
        if over:
            d = {}; o = dict(opts)
            for k, v in over.items():
                if k in ("delays", "timeout", "flags", "race", "race_s", "race_delays", "race_iters", "std", "defs"): d[k] = v
                else: o[k] = v
            d["opts"] = o; r[name] = d
    return r
def C(id, *runs, assumptions=(), quick=100, thorough=820): CHECKS[id] = {"runs": list(runs), "assumptions": list(assumptions), "budget": {"quick": quick, "thorough": thorough}}
TH = ("thorough",)

CT = ["--clock-advance", "--timer-order"]
C("C01", R("c01_order", engine=0, nodes=3, shape=6, runs=1, delays=2, t=dict(delays=4)), R("c01_order", engine=0, nodes=4, shape=51, runs=1, delays=2, t=dict(delays=3)), R("c04_error", engine=0, nodes=3, delays=0, runs=2, t=dict(delays=1)), R("c01_order", engine=0, nodes=3, delays=1, t=dict(delays=3)), R("c01_order", engine=1, nodes=3, delays=1, t=dict(delays=2)), R("c01_order", engine=2, nodes=3, delays=1, t=dict(delays=2)),
  R("c01_order", engine=0, nodes=4, runs=1, delays=0, late=1, t=dict(delays=1)), R("c01_order", engine=1, nodes=4, runs=1, delays=0, late=2), R("c01_order", engine=2, nodes=4, runs=1, delays=0, late=2),
  R("c01_order", engine=0, nodes=3, runs=1, pool=1, loops=1, macro=1, bind=1, delays=0), R("c01_order", engine=2, nodes=3, runs=1, pool=1, loops=1, macro=1, delays=0), R("c01_order", engine=1, nodes=3, runs=1, pool=1, loops=1, macro=1, bind=1, delays=0),
  R("c01_order", engine=0, nodes=7, shape=0, runs=2, pool=4, delays=0), R("c01_order", engine=0, nodes=5, shape=0, runs=1, pool=3, loops=1, delays=0), R("c01_order", engine=0, nodes=5, runs=1, pool=2, delays=0, tiers=TH), R("c01_order", engine=1, nodes=5, runs=1, pool=2, delays=0, tiers=TH), R("c01_order", engine=2, nodes=5, runs=1, pool=2, delays=0, tiers=TH),
  R("c01_order", engine=0, nodes=4, runs=2, delays=1, pool=3, tiers=TH))
C("C02", R("c02_cycle", nodes=3, engine=0, delays=0), R("c02_cycle", nodes=3, engine=1, delays=0), R("c02_cycle", nodes=3, engine=2, delays=0), R("c02_cycle", nodes=2, group=1, engine=0, delays=0, t=dict(nodes=3)),
  R("c02_cycle", nodes=3, group=1, engine=1, op=1, delays=0), R("c02_cycle", nodes=4, engine=0, delays=0, tiers=TH))
C("C03", R("c04_error", engine=0, nodes=3, delays=1, runs=1, t=dict(delays=2, runs=2)), R("c04_error", engine=1, nodes=3, delays=1, runs=1, t=dict(runs=2)), R("c04_error", engine=2, nodes=3, delays=1, runs=1, t=dict(runs=2)),
  R("c04_error", engine=0, nodes=2, runs=1, delays=2, t=dict(warn=1,runs=2)), assumptions=["pool of two workers; groups are covered by C10, C12, C13"])
C("C04", R("c04_error", engine=0, nodes=3, delays=1, warn=1, runs=1, t=dict(delays=2, runs=2)), R("c04_error", engine=1, nodes=3, delays=0, warn=1, t=dict(delays=1)), R("c04_error", engine=2, nodes=3, delays=0, warn=1, t=dict(delays=1)),
  R("c04_error", engine=0, nodes=4, runs=1, delays=0, t=dict(delays=1)), R("c04_error", engine=1, nodes=3, macro=1, runs=1, delays=0))
C("C05", *[R("c05_except", engine=e, phase=1, kinds=8, delays=0, t=dict(delays=1), reach=["end", "crashed"]) for e in (0, 1, 2)], R("c05_except", **{"engine": 0, "phase": 1, "kinds": 7, "async": 2, "delays": 0, "reach": ["end", "crashed"]}),
  R("c05_except", engine=0, phase=2, kinds=8, delays=0, reach=["end", "initfail", "initok"]), R("c05_except", engine=0, phase=4, kinds=8, delays=0))
C("C06", *[R("c06_loop", kind=k, engine=0, inner=1, maxloop=3, delays=0, t=dict(maxloop=5)) for k in (0, 1, 2, 3, 4)], R("c06_loop", kind=0, engine=1, delays=0), R("c06_loop", kind=0, engine=2, delays=0), R("c06_loop", kind=1, engine=2, delays=0),
  R("c06_loop", kind=0, engine=0, maxloop=2, delays=1, tiers=TH))
C("C07", *[R("c07_init", engine=0, nodes=3, group=g, delays=0, t=dict(nodes=4)) for g in (0, 1, 2, 3, 4)], R("c07_init", engine=1, nodes=3, late=1, delays=0), R("c07_init", engine=2, nodes=3, late=1, delays=0),
  *[R("c07_init", engine=0, nodes=3, group=g, phase=ph, delays=0, reach=["end", "initfail" if ph == 1 else "destfail"]) for g in (0, 1, 2, 4) for ph in (1, 2)])
C("C08", *[R("c07_init", engine=0, nodes=3, group=g, phase=1, retry=1, delays=0, reach=["end", "initfail"]) for g in (0, 1, 2, 3, 4)], R("c07_init", engine=1, nodes=3, phase=1, retry=1, delays=0, reach=["end", "initfail"]), R("c08_phase", len=4, engine=0, delays=0, t=dict(len=5)), R("c08_phase", len=3, ops=14, engine=0, delays=0, reach=["failed", "refused", "allowed", "end"], t=dict(len=4)), R("c08_phase", len=2, ops=14, engine=1, delays=0, reach=["failed", "end"], t=dict(len=3)), R("c08_phase", len=3, engine=1, delays=0, t=dict(len=4)), R("c08_phase", len=3, engine=2, delays=0, t=dict(len=4)))
C("C09", R("c09_cluster", delays=0, t=dict(maxloop=3)), R("c09_cluster", nest=1, delays=0), R("c09_cluster", nest=2, delays=0), R("c09_cluster", parallel=1, maxloop=1, runs=1, delays=1, t=dict(delays=2)), R("c09_cluster", engine=1, delays=0), R("c09_cluster", engine=2, delays=0))
C("C10", R("c10_region", delays=0, t=dict(delays=1)), R("c10_region", inner=1, outer=2, pool=3, delays=0), R("c10_region", inner=2, late=1, engine=1, delays=0), R("c10_region", loops=1, wrap=1, engine=2, delays=0), R("c10_region", nodes=2, runs=1, delays=1, t=dict(delays=2)), R("c10_region", runs=1, fails=0, delays=1))
C("C11", *[R("c11_condition", kind=k, delays=0) for k in (0, 1, 2)], R("c11_condition", kind=0, loops=1, runs=1, delays=0), R("c11_condition", kind=1, loops=1, runs=1, delays=0), R("c11_condition", kind=0, nested=1, delays=0), R("c11_condition", kind=2, runs=1, delays=1, t=dict(delays=2)), R("c11_condition", kind=2, children=2, runs=1, delays=2))
C("C14", R("c14_adapters", what=3, runs=1, delays=1, reach=["end", "refused"], t=dict(delays=2)), R("c14_adapters", what=0, delays=0), R("c14_adapters", what=1, delays=0), R("c14_adapters", what=2, delays=0), *[R("c14_adapters", what=w, engine=e, delays=0) for w in (0, 1) for e in (1, 2)], R("c14_adapters", what=1, hooks=1, runs=1, delays=0, reach=["initfail", "destfail", "end"]))
C("C25", R("c25_trim", what=0, nodes=4, delays=0, t=dict(nodes=5)), R("c25_trim", what=0, nodes=3, group=1, init=1, delays=0, t=dict(nodes=4)), R("c25_trim", what=0, nodes=3, late=1, delays=0), R("c25_trim", what=0, nodes=4, reverse=1, delays=0))
C("C26", R("c25_trim", what=1, nodes=4, delays=0, t=dict(nodes=5)), R("c25_trim", what=1, nodes=3, group=1, delays=0), *[R("c25_trim", what=2, nodes=n, group=g, delays=0) for n, g in ((4, 0), (3, 1), (3, 2), (3, 3))], *[R("c25_trim", what=2, nodes=2, group=g, outer=o, delays=0) for g in (1, 2) for o in (1, 2)])
C("C33", R("c33_status", mode=0, delays=0), R("c33_status", mode=1, len=3, delays=0, t=dict(len=4)))
C("C34", *[R("c34_lru", cap=c, len=4, delays=0, t=dict(len=5)) for c in (1, 2, 3)])
C("C35", *[R("c35_containers", what=0, cap=c, len=4, delays=0, t=dict(len=5)) for c in (1, 2, 4)], R("c35_containers", what=1, len=3, delays=0, t=dict(len=4)))
C("C36", *[R("c36_distance", what=w, delays=0) for w in (0, 1, 2, 3, 4)])
C("C21", R("c21_message", mode=0, len=4, delays=0, flags=CT, t=dict(len=5)), R("c21_message", mode=2, delays=2, flags=CT, t=dict(delays=3)), R("c21_message", mode=2, size=1, senders=3, delays=1, flags=CT, t=dict(delays=2)), R("c21_message", mode=1, size=1, n=3, delays=2, flags=CT, t=dict(delays=4)), R("c21_message", mode=1, size=1, producers=2, n=2, delays=2, flags=CT, t=dict(delays=3)), R("c21_message", mode=1, size=2, producers=2, consumers=2, n=2, delays=2, flags=CT, t=dict(delays=3)))
C("C22", R("c22_pubsub", mode=0, len=4, delays=0, t=dict(len=6)), R("c22_pubsub", mode=1, delays=2, t=dict(delays=3)), R("c22_pubsub", mode=1, publishers=2, n=1, delays=2, t=dict(delays=3)))
C("C28", R("c28_pool", tasks=1, idle=1, delays=1, flags=CT, t=dict(delays=2)), R("c28_pool", tasks=2, idle=1, prim=1, delays=1, flags=CT, t=dict(delays=2)), R("c28_pool", tasks=1, idle=1, sec=1, prim=1, delays=1, flags=CT, t=dict(delays=2)), R("c29_config", mode=6, delays=0), R("c28_pool", tasks=2, delays=1, t=dict(delays=2)), R("c28_pool", tasks=1, prim=1, sec=1, kinds=4, release=1, delays=2, t=dict(tasks=2)), R("c28_pool", tasks=1, prim=1, sec=1, batch=1, kinds=7, delays=0, t=dict(delays=1)), R("c28_pool", tasks=2, prim=1, sec=1, kinds=7, delays=1), R("c28_pool", tasks=2, batch=1, delays=1), R("c28_pool", tasks=2, nest=1, kinds=2, delays=1), R("c28_pool", tasks=2, nest=2, kinds=2, sec=1, delays=1, t=dict(delays=2)), R("c28_pool", tasks=1, rounds=2, sec=1, kinds=7, delays=0), R("c28_pool", tasks=1, fresh=1, delays=2, t=dict(delays=3)), R("c28_pool", tasks=3, deliver=1, delays=0), R("c28_pool", tasks=3, kinds=3, delays=0, batch=1),
  assumptions=["long-time tasks need a secondary thread, prioritised ones a secondary thread or room for one", "tasks still queued when the pool is destroyed are not covered"])
C("C29", R("c29_config", mode=0, delays=0, t=dict(range=40)), R("c29_config", mode=1, delays=0), R("c29_config", mode=2, delays=0), R("c29_config", mode=6, delays=0, t=dict(maxprim=3, picks=3)), R("c29_config", mode=3, len=3, delays=0, t=dict(len=4)), R("c29_config", mode=4, what=0, delays=2, t=dict(delays=3)), R("c29_config", mode=4, what=1, delays=2, t=dict(delays=3)), R("c29_config", mode=5, len=2, delays=0, flags=["--clock-advance", "--timer-order"], reach=["end", "again"], t=dict(len=3)))
C("C30", R("c30_queues", mode=0, len=4, delays=0, t=dict(len=5)), R("c30_queues", mode=1, len=4, delays=0, t=dict(len=6)), R("c30_queues", mode=6, len=4, delays=0, t=dict(len=5)), R("c30_queues", mode=2, delays=2, t=dict(delays=4)), R("c30_queues", mode=2, popping=0, batch=1, n=3, delays=2, t=dict(delays=3)), R("c30_queues", mode=3, delays=2, t=dict(delays=4)), R("c30_queues", mode=3, batch=1, delays=2, t=dict(delays=4)), R("c30_queues", mode=3, timed=1, delays=2, flags=CT, t=dict(delays=4)), R("c30_queues", mode=4, len=4, delays=0, reach=["full", "end"], t=dict(len=5)), R("c30_queues", mode=5, delays=2, flags=CT, t=dict(delays=3)), R("c30_queues", mode=5, n=2, delays=2, flags=CT, t=dict(delays=3)))
C("C31", R("c31_priority", mode=2, delays=0), R("c31_priority", mode=0, len=4, delays=0, t=dict(len=6)), R("c31_priority", mode=1, len=3, delays=0), R("c31_priority", mode=1, len=2, delays=1, t=dict(delays=2)), R("c31_priority", mode=1, len=2, batched=1, delays=1))
C("C32", *[R("c32_spawn", group=g, delays=0) for g in range(8)], R("c32_spawn", group=1, inner=2, delays=0), R("c32_spawn", group=1, kids=1, delays=1, t=dict(delays=2)), R("c32_spawn", group=2, kids=2, delays=1, t=dict(delays=2)),
  R("c32_group", delays=1, flags=CT, t=dict(delays=2)), R("c32_group", delays=1, single=1, tasks=1, rounds=2, flags=CT), R("c32_group", delays=0, tasks=3, sec=1, flags=CT), R("c32_group", delays=0, prim=1, flags=CT), R("c32_group", delays=0, batch=1, flags=CT), R("c32_group", delays=2, slow=0, flags=CT), R("c32_group", delays=0, tasks=0, flags=CT, reach=["ok", "end"]))
ST = dict(std="c++17", extra=["-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness", "include")])
C("C37", R("c37_storage", mode=0, nodes=3, times=2, delays=0, t=dict(nodes=4), **ST), R("c37_storage", mode=0, stray=1, delays=0, **ST), R("c37_storage", mode=0, run=1, delays=0, t=dict(delays=1), **ST), R("c37_storage", mode=1, delays=0, t=dict(times=2), **ST), R("c37_storage", mode=2, times=2, delays=0, **ST), R("c37_storage", mode=3, delays=0, reach=["saved", "end"], **ST), R("c37_storage", mode=4, cuts=256, delays=0, reach=["fault", "end"], t=dict(cuts=4096), **ST))
C("C38", *[R("c38_perf", nodes=2, engine=e, loops=1, aspfail=1, delays=0, reach=["end", "failing"]) for e in (0, 1, 2)], R("c38_perf", nodes=3, delays=0, reach=["end", "failing"]), *[R("c38_perf", nodes=1, group=g, delays=0, reach=["end", "failing"], t=dict(nodes=2)) for g in (1, 2, 3, 4, 7)])
C("C41", R("c41_async", delays=0, calls=3), R("c41_async", delays=0, mode=1, t=dict(calls=2)), R("c41_async", delays=1, calls=1, late=1, t=dict(calls=2)), R("c41_async", delays=1, mode=1, calls=1, t=dict(delays=2)), R("c41_async", delays=0, engine=1), R("c41_async", delays=0, engine=2, nodes=3), R("c41_async", delays=1, pipes=2, t=dict(delays=2)), R("c41_async", delays=1, pipes=2, mode=1, t=dict(delays=2)))
C("C39", R("c39_depend", len=2, group=0, delays=0), R("c39_depend", ops=6, len=2, width=1, group=1, delays=0, reach=["created", "ran", "mixed", "refused", "end"]), R("c39_depend", remove=1, len=2, width=2, group=0, delays=0, reach=["removed", "ran", "mixed", "end"]), R("c39_depend", remove=1, len=2, width=2, group=1, delays=0, reach=["removed", "ran", "end"], t=dict(len=3)), R("c39_depend", ops=6, len=1, width=3, group=2, delays=0, reach=["created", "ran", "end"], t=dict(len=2, width=2)), *[R("c39_depend", len=2, width=1, group=1, foreign=1, engine=e, delays=0) for e in (0, 1)], R("c39_depend", len=2, width=1, group=2, foreign=1, engine=2, delays=0), *[R("c39_depend", len=2, width=1, group=g, late=1, delays=0) for g in (0, 2)], *[R("c39_depend", len=1, width=1, group=g, invalid=1, delays=0) for g in (0, 2)],
  R("c39_depend", len=2, group=2, delays=0, tiers=TH), R("c39_depend", len=3, width=1, group=2, delays=0, tiers=TH))
C("C40", *[R("c40_ann", runs=1, crash=1, engine=e, delays=0, t=dict(runs=2)) for e in (0, 1, 2)], R("c40_ann", bare=1, delays=0), R("c40_ann", runs=1, loops=2, engine=2, delays=0, t=dict(runs=2)), R("c40_ann", runs=2, delays=0, tiers=TH))
C("C42", R("c42_eparam", delays=0), R("c42_eparam", mode=1, delays=1, flags=CT), R("c42_eparam", mode=1, daemon=1, delays=1, flags=CT), R("c42_eparam", mode=2, delays=0), *[R("c42_eparam", group=g, len=2, delays=0) for g in (1, 2, 6)], R("c42_eparam", group=1, write=1, len=2, delays=0, t=dict(len=3)))
C("C43", *[R("c43_locks", mode=m, delays=2, t=dict(delays=4)) for m in (0, 1, 2)])
C("C12", R("c12_some", kids=2, runs=1, delays=1, t=dict(delays=2)), R("c12_some", kids=2, runs=2, fails=0, delays=1, t=dict(delays=2)), R("c12_some", kids=2, runs=1, fails=0, wrap=1, over=0, delays=1, t=dict(delays=2), reach=["full"]), R("c12_some", kids=3, runs=2, pool=7, delays=0, t=dict(delays=1)), R("c12_some", kids=2, runs=2, engine=1, wrap=1, delays=0), R("c12_some", kids=2, runs=2, engine=2, fails=0, over=0, delays=1), R("c12_some", kids=2, runs=1, fails=0, wrap=1, over=0, w1=1, w2=2, delays=2, reach=["full"]),
  assumptions=["the pool has a worker for the group and two for every child (a child's body is a task of its own)"])
C("C15", R("c15_timeout", runs=2, exact=1, idle=1, delays=0, flags=CT, reach=["intime", "error", "hold", "nohold", "end"]), R("c15_timeout", runs=1, exact=1, idle=1, pool=1, delays=1, flags=CT, reach=["intime", "error", "hold", "nohold", "end"]), *[R("c15_timeout", runs=2, exact=1, idle=1, engine=e, delays=0, flags=CT, reach=["intime", "error", "hold", "nohold", "end"]) for e in (1, 2)], R("c15_timeout", mode=2, delays=1, flags=CT, reach=["without", "end"], t=dict(delays=2)), R("c15_timeout", mode=2, engine=2, delays=0, flags=CT, reach=["without", "end"]), R("c15_timeout", runs=2, exact=1, delays=0, flags=CT, reach=["intime", "error", "hold", "nohold", "end"]), R("c15_timeout", delays=1, runs=2, flags=CT, t=dict(delays=2)), R("c15_timeout", delays=1, crash=1, engine=1, flags=CT, t=dict(delays=2)), R("c15_timeout", delays=1, engine=2, flags=CT, t=dict(delays=2)), R("c15_timeout", mode=1, delays=1, pool=4, flags=CT, t=dict(runs=2)), R("c15_timeout", mode=1, delays=0, runs=2, engine=1, flags=CT),
  R("c15_timeout", fence=1, delays=1, runs=2, pool=4, flags=CT, t=dict(delays=2)), R("c15_timeout", fence=2, delays=1, pool=5, flags=CT, t=dict(delays=2)), R("c15_timeout", fence=2, crash=1, delays=1, engine=1, pool=5, flags=CT), R("c15_timeout", fence=1, delays=0, engine=2, pool=5, flags=CT), R("c15_timeout", fence=3, delays=1, pool=6, flags=CT, reach=["hold", "nohold", "end"], t=dict(delays=2)),
  assumptions=["an element that is not held (or reported as an error) may still run when run() returns; the next run is started after it has ended"])
C("C13", R("c13_mutable", nodes=2, delays=0, t=dict(runs=3)), R("c13_mutable", nodes=3, first=6, delays=0), R("c13_mutable", nodes=3, first=3, back=0, delays=0), R("c13_mutable", nodes=3, back=0, delays=0, t=dict(back=1, runs=1)), R("c13_mutable", nodes=3, back=0, runs=1, fails=1, delays=1, t=dict(delays=2)), R("c13_mutable", nodes=2, refuse=1, groups=1, loops=1, delays=0, engine=1), R("c13_mutable", nodes=2, back=0, runs=2, fails=1, delays=0, engine=2, t=dict(delays=1)))
C("C16", *[R("c16b_attach", delays=0, reach=["two", "end"], **o) for o in (dict(kind=1, calls=1), dict(kind=2, inner=1), dict(kind=3, engine=2), dict(kind=7, calls=1, runs=2), dict(kind=6, engine=1, inner=1, calls=1), dict(kind=5, inner=2, calls=1))], R("c16_aspect", kind=0, delays=0, t=dict(aspects=3, runs=3)), R("c16_aspect", kind=1, engine=1, pop=1, delays=0), R("c16_aspect", kind=2, engine=2, aspects=3, delays=0), R("c16_aspect", kind=2, engine=0, pop=1, delays=0))
C("C17", R("c17_param", mode=0, len=3, delays=0, t=dict(len=4)), R("c17_param", mode=1, delays=1, t=dict(delays=2)), R("c17_param", mode=1, engine=1, delays=0), R("c17_param", mode=1, engine=2, delays=0), R("c17_param", mode=2, delays=2, t=dict(delays=3)), R("c17_param", mode=3, runs=1, delays=2, t=dict(runs=2)), R("c17_param", mode=3, sync=1, delays=0), R("c17_param", mode=4, delays=0, reach=["setupfail", "end"]), R("c17_param", mode=5, depth=1, delays=1), R("c17_param", mode=5, depth=3, delays=0))
C("C18", *[R("c18_event", late=l, nodes=1, pool=3, ops=1, keys=2, kinds=k, runs=2, delays=d, flags=CT, reach=["end"]) for l, k, d in ((1, 3, 1), (2, 3, 0))], R("c18_event", delays=0, rounds=2), R("c18_event", delays=1, runs=1, t=dict(delays=2)), R("c18_event", nodes=2, pool=3, ops=1, runs=1, delays=1, t=dict(runs=2)), R("c18_event", delays=0, engine=1), R("c18_event", delays=0, engine=2), R("c18_event", daemon=1, ops=1, runs=1, delays=1, flags=CT, t=dict(delays=2)), R("c18_event", daemon=1, dstrat=1, ops=1, runs=1, delays=1, kinds=1, keys=1, flags=CT, reach=["end"], t=dict(delays=2)), R("c18_event", ops=1, kinds=5, futstrategy=1, delays=1),
  assumptions=["as many workers as elements that wait for a future, and one more"])
C("C19", R("c19_stage", rounds=2, delays=1, t=dict(delays=3)), R("c19_stage", rounds=1, delays=2, t=dict(rounds=3)), R("c19_stage", nodes=3, rounds=2, delays=1, t=dict(delays=2)), R("c19_stage", nodes=4, threshold=2, rounds=1, delays=1), R("c19_stage", runs=2, delays=1, t=dict(delays=2)), R("c19_stage", engine=1, delays=1),
  assumptions=["the number of arrivals is a multiple of the threshold, every round can be completed (several rounds only with as many elements as the threshold), the engine is a parallel one, and there are as many workers as elements at the stage"])
C("C20", R("c20_daemon", badinit=1, rounds=1, delays=1, flags=CT, t=dict(delays=3)), R("c20_daemon", badinit=1, daemons=2, rounds=1, delays=1, flags=CT, t=dict(delays=2)), R("c20_daemon", exact=3, rounds=2, delays=1, flags=CT, t=dict(delays=3)), R("c20_daemon", daemons=2, rounds=1, delays=1, flags=CT, t=dict(delays=3)), R("c20_daemon", slow=1, rounds=2, delays=1, flags=CT, t=dict(delays=2)), R("c20_daemon", modify=5, rounds=1, delays=1, flags=CT, t=dict(rounds=2)), R("c20_daemon", work=0, rounds=2, delays=2, flags=CT, t=dict(delays=3)), R("c20_daemon", work=30, rounds=1, delays=2, flags=CT, t=dict(delays=3)))
C("C23", R("c23_manager", len=4, kinds=1, delays=0, t=dict(len=5)), R("c23_manager", ini=1, len=3, kinds=5, delays=0, t=dict(pipes=3)), R("c23_manager", ini=1, len=4, kinds=1, delays=0, t=dict(len=6)), R("c23_manager", mode=1, delays=2, t=dict(delays=4)), R("c23_manager", mode=1, pipes=1, delays=2, t=dict(delays=4)), R("c23_manager", mode=1, users=3, kinds=1, count=1, delays=2, t=dict(delays=3)))
C("C24", R("c24_cancel", shape=7, delays=1, t=dict(delays=3)), R("c24_cancel", delays=0, t=dict(delays=2)), R("c24_cancel", shape=3, delays=1, engine=1, t=dict(shape=-1)), R("c24_cancel", shape=7, delays=1, engine=2, t=dict(delays=2)), R("c24_cancel", shape=1, nodes=2, script=3, delays=3), R("c24_cancel", shape=0, nodes=1, scripts=2, delays=3, engine=2, t=dict(delays=4)), R("c24_cancel", shape=7, call=1, immediate=1, delays=1, t=dict(delays=2)),
  R("c24_cancel", shape=7, call=2, delays=1, t=dict(delays=2)), R("c24_cancel", shape=7, nodes=2, call=3, immediate=1, delays=1), R("c24_cancel", shape=7, nodes=2, hold=1, delays=1), R("c24_cancel", shape=7, nodes=2, loop=2, delays=1, t=dict(nodes=3)), *[R("c24_cancel", group=g, delays=0 if g in (2, 6, 7) else 1, pool=3, t=dict(delays=1)) for g in (1, 2, 3, 4, 5, 6, 7)],
  assumptions=["an element counts as started in time when everything it waits for had finished before cancel or suspend returned (it may be entering its body in that moment)", "no element waits for another through a stage, message or future while the pipeline is cancelled"])
C("C27", R("c27_serial", nodes=3, bind=1, delays=1, flags=CT, t=dict(nodes=4)), R("c27_serial", nodes=3, configs=4, delays=0, t=dict(nodes=4)), *[R("c27_serial", group=g, nodes=1, delays=0, flags=CT, t=dict(kids=3, delays=1), **{"async": 0 if g == 7 else 1}) for g in (1, 2, 3, 4, 5, 6, 7)], *[R("c27_serial", group=g, kids=1, nodes=1, bind=1, delays=0, flags=CT, t=dict(nodes=2)) for g in (1, 2, 5)],
  *[R("c27_serial", group=g, inner=i, nodes=0, delays=0, flags=CT, t=dict(nodes=1)) for g in (1, 2, 4) for i in (1, 2, 3, 5)],
  assumptions=["no asynchronous event is triggered in a serial pipeline (its pool has no thread)"])
C("C44", *[R("c44_dump", delays=0, reach=["drawn", "end"], **o) for o in (dict(nodes=3, names=2), dict(nodes=2, adapters=1), dict(nodes=1, names=3), dict(nodes=1, group=1), dict(nodes=1, group=1, kids=3), dict(nodes=1, group=2, kids=3), dict(nodes=1, group=5, kids=3), dict(nodes=2, group=2), dict(nodes=1, group=2, inner=1), dict(nodes=1, group=3, inner=2), dict(nodes=1, group=6, inner=2), dict(nodes=1, group=7), dict(nodes=1, group=4, inner=6), dict(nodes=1, group=5), dict(nodes=1, group=2, names=1, engine=1, inner=2), dict(nodes=3, names=1, engine=2))],
  assumptions=["names hold no quotation marks", "the elements inside a mutable group, the loop counts of mutable groups, fences and coordinators and the names of shared singletons are not covered"])
C("C45", R("c45_owner", delays=0, reach=["threw", "release", "end"]), *[R("c45_owner", group=g, delays=0, reach=["threw", "release", "end"]) for g in range(1, 7)], R("c45_owner", group=7, pool=6, delays=0, reach=["threw", "release", "end"]), R("c45_owner", phase=3, what=0, refuse=1, delays=0, reach=["refused", "release", "end"]), R("c45_owner", phase=4, what=15, refuse=1, delays=0, reach=["refused", "release", "end"]), R("c45_owner", mode=1, delays=0, reach=["release", "end"], t=dict(len=5)), R("c45_owner", mode=2, delays=0, reach=["release", "end"], t=dict(len=5)),
  *[R("c45_owner", engine=e, delays=0, reach=["threw", "release", "end"]) for e in (1, 2)], R("c45_owner", refuse=1, delays=0, reach=["refused", "release", "end"], tiers=TH), assumptions=["as many workers as a group needs"])
C("C46", R("c46_shared", delays=1, reach=["both", "end"], t=dict(delays=2)), R("c46_shared", process=1, tasks=1, delays=0, reach=["both", "end"], t=dict(delays=1)), R("c46_shared", process=1, delays=1, reach=["both", "end"]), R("c46_shared", engine=1, engine2=2, tasks=1, delays=0, reach=["both", "end"], t=dict(delays=1)), R("c46_shared", group=1, delays=0, reach=["both", "end"]), R("c46_shared", group=2, pool=4, delays=0, reach=["both", "end"]), R("c46_shared", group=7, pool=6, delays=0, reach=["both", "end"]), R("c46_shared", batch=1, engine=1, nodes=3, delays=0, reach=["both", "end"]), R("c46_shared", mode=1, len=5, delays=0, reach=["ops", "notup", "end"], t=dict(len=6)), R("c46_shared", mode=1, engine=2, use=1, delays=0, reach=["ops", "end"]), R("c46_shared", sec=1, delays=0, tasks=1, reach=["both", "end"], t=dict(delays=1)), R("c46_shared", nodes=3, shape=1, delays=1, reach=["both", "end"], tiers=TH),
  assumptions=["the shared pool has the workers that the groups need, and outlives the pipelines"])
C("C47", R("c47_access", delays=1, reach=["busy", "end"], t=dict(delays=2)), R("c47_access", nodes=3, pool=3, delays=1, reach=["busy", "end"], tiers=TH), R("c47_access", runs=2, engine=2, how=4, delays=1, reach=["end"]), R("c47_access", mode=1, pool=3, delays=1, reach=["end"], t=dict(delays=2)), R("c47_access", mode=3, pool=3, delays=1, reach=["end"], t=dict(delays=2)), R("c47_access", mode=2, delays=0, reach=["traced", "end"], t=dict(len=5)),
  assumptions=["parameters are created before the run that uses them, and removed between runs; a parameter's own fields are only used under its lock"])
C("C48", R("c48_utils", len=3, delays=2, flags=CT, reach=["tick", "end"], t=dict(len=4, delays=3)), R("c48_utils", len=5, delays=1, flags=CT, reach=["tick", "end"]), R("c48_utils", exact=1, slow=1, delays=1, flags=CT, reach=["tick", "end"], t=dict(delays=2)), R("c48_utils", modify=15, exact=1, len=5, delays=1, flags=CT, reach=["tick", "end"], t=dict(delays=2)), R("c48_utils", modify=3, exact=1, slow=1, delays=1, flags=CT, reach=["tick", "end"]), R("c48_utils", mode=1, delays=2, t=dict(threads=3)), R("c48_utils", mode=1, threads=3, delays=1), R("c48_utils", mode=2, delays=0), R("c48_utils", mode=3, delays=0), R("c48_utils", mode=4, delays=0), R("c48_utils", mode=5, delays=0, flags=["--clock-advance"], t=dict(len=6)),
  assumptions=["time passes only while threads sleep or wait, plus what the clock model adds; a timer is started and stopped from one thread and never from its own task", "what std::random_device yields is modelled by fixed values"])
C("C49", R("c49_hooks", delays=1, reach=["unprepared", "unchecked", "failed", "full", "end"], t=dict(delays=2)), *[R("c49_hooks", engine=e, delays=0, reach=["unprepared", "unchecked", "failed", "full", "end"], t=dict(delays=1)) for e in (1, 2)], *[R("c49_hooks", kind=k, delays=0, reach=["unprepared", "unchecked", "full", "end"], t=dict(delays=1)) for k in range(1, 7)],
  R("c49_hooks", mode=1, delays=1, reach=["primary", "main", "end"], t=dict(delays=2)), R("c49_hooks", mode=1, engine=1, delays=0, reach=["primary", "end"], t=dict(delays=1)), R("c49_hooks", mode=1, engine=2, delays=0, reach=["main", "end"]), R("c49_hooks", mode=1, sec=1, nodes=2, delays=1, reach=["primary", "secondary", "end"]), R("c49_hooks", mode=1, shared=1, nodes=2, delays=1, reach=["primary", "end"]), *[R("c49_hooks", mode=1, kind=k, nodes=2, delays=0, reach=["primary", "end"]) for k in (1, 2)],
  R("c49_hooks", mode=2, delays=0, flags=CT, reach=["cut", "end"]), R("c49_hooks", mode=2, depth=3, pool=3, delays=0, flags=CT, reach=["cut", "end"]), *[R("c49_hooks", mode=2, engine=e, delays=0, flags=CT, reach=["cut", "end"]) for e in (1, 2)],
  assumptions=["run is called from the thread that called init", "the result hook is not used on asynchronous elements, as its documentation asks", "for timeouts: threads that can run do so at once, and time passes only while all of them sleep or wait, plus what the clock model adds"])
