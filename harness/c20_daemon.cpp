// C20: daemons tick between init and destroy only, never concurrently with themselves, at their interval, and stop.
#include "h.h"
static int ticks20[2], act20[2], phase20, bad20, mod20, modv20, pv20; static int64_t last20[2];
struct Dp : GDaemonParam { int v = 0; CVoid clone(GPassedParam* p) override { v = ((Dp*)p)->v; } };
template <int K> struct Dm : GDaemon { CVoid daemonTask(GDaemonParamPtr p) override { if (phase20 != 1 || act20[K]++) bad20++; if (((Dp*)p)->v != pv20) bad20++; ticks20[K]++; __sym_visible(); act20[K]--; if (sym_opt("slow", 0)) CGRAPH_SLEEP_MILLISECOND(15); } CMSec modify(GDaemonParamPtr) override { return modv20 && ++mod20 % 2 == 1 ? modv20 : 0; } };
struct Sl : GNode { CStatus run() override { CGRAPH_SLEEP_MILLISECOND(sym_opt("work", 35)); return CStatus(); } };
static bool fail20; struct Bad : GNode { CStatus init() override { return fail20 ? CStatus(-4, "no") : CStatus(); } CStatus run() override { return CStatus(); } };
extern "C" void harness_main() {
  const int nd = sym_opt("daemons", 1), rounds = sym_opt("rounds", 2), iv = sym_opt("interval", 10), exact = sym_opt("exact", 0); CStatus s; GPipelinePtr p = h_pipe(1); GElementPtr e = nullptr; Dp dp; pv20 = dp.v = sym_int("param"); bool work = sym_bool("work"), sync = exact;
  s = p->registerGElement<Sl>(&e, {}, "w"); p->addGDaemon<Dm<0>, Dp>(iv, &dp); if (nd > 1) p->addGDaemon<Dm<1>, Dp>(iv, &dp); dp.v = pv20 + 1; modv20 = sym_opt("modify", 0); SYM_ASSERT(s.isOK(), "registration succeeds");
  if (sym_opt("badinit", 0)) { GElementPtr b = nullptr; s = p->registerGElement<Bad>(&b, {}, "b"); SYM_ASSERT(s.isOK(), "registration succeeds"); }
  __sym_sched(1); SYM_ASSERT(ticks20[0] == 0, "no tick before init");
  if (sym_opt("badinit", 0)) { fail20 = true; bool proc = sym_bool("process"); s = proc ? p->process() : p->init(); SYM_ASSERT(s.isErr(), "an init with a failing element fails"); CGRAPH_SLEEP_MILLISECOND(35); fail20 = false; SYM_ASSERT(ticks20[0] + ticks20[1] == 0, "no tick after an init that failed"); }
  for (int q = 0; q < rounds; q++) {
    ticks20[0] = ticks20[1] = mod20 = 0; phase20 = 1; int64_t t0 = __sym_now(); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); if (work) { s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); } else if (sym_opt("work", 35)) CGRAPH_SLEEP_MILLISECOND(sym_opt("work", 35));
    int64_t t1 = __sym_now(); s = p->destroy(); phase20 = 2; int64_t t2 = __sym_now(); SYM_ASSERT(s.isOK(), "destroy succeeds"); int k0 = ticks20[0], k1 = ticks20[1];
    if (exact) { int el = (int)((t1 - t0) / 1000000), want = modv20 ? 2 : 3; for (int d = 0; d < nd; d++) SYM_ASSERT(ticks20[d] == exact, "a daemon ticks once per interval"); (void)el; (void)want; }
    for (int d = 0; d < nd; d++) SYM_ASSERT((int64_t)ticks20[d] * (modv20 && modv20 < iv ? modv20 : iv) <= (t2 - t0) / 1000000, "no tick before its interval has passed"); SYM_ASSERT((t2 - t1) / 1000000 < (sym_opt("slow", 0) ? 16 : 1), "destroy does not wait for the interval");
    CGRAPH_SLEEP_MILLISECOND(30); SYM_ASSERT(ticks20[0] == k0 && ticks20[1] == k1 && act20[0] + act20[1] == 0, "no tick after destroy"); SYM_ASSERT(!bad20, "ticks only between init and destroy, one at a time, with the daemon's parameter");
  }
  __sym_sched(0); GPipelineFactory::remove(p); (void)sync; __sym_reach("end");
}
