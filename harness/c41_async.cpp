// C41: asyncRun / asyncProcess do what run / process do, once per call; the future carries that status and is ready only after the last body has ended.
#include "h.h"
static std::launch pol41(int k) { return k == 0 ? std::launch::async : k == 1 ? std::launch::deferred : std::launch::async | std::launch::deferred; }
static void done41(int n, int want, bool fail, int code, CStatus s, const char* what) {
  int act = 0; for (int i = 0; i < n; i++) act += h_active[i]; SYM_ASSERT(!act, "nothing is running any more when the future has its value");
  if (fail) { SYM_ASSERT(s.isErr() && s.getCode() == code, "the future carries the status of the run"); SYM_ASSERT(h_runs[0] == (want ? 1 : 0), "a failed run is not repeated"); for (int i = 1; i < n; i++) SYM_ASSERT(h_runs[i] == 0, "and nothing follows the failed element"); }
  else { SYM_ASSERT(s.isOK(), "the future carries the status of the run"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[i] == want, "one run per call"); }
}
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), n = sym_opt("nodes", 2), calls = sym_opt("calls", 2), eng = sym_opt("engine", 0), two = sym_opt("pipes", 1) > 1; CStatus s; GPipelinePtr p[2] = {h_pipe(sym_opt("pool", 2)), nullptr}; GElementPtr e[2][MAXE] = {}; if (two) p[1] = h_pipe(sym_opt("pool", 2));
  for (int k = 0; k < (two ? 2 : 1); k++) { p[k]->setGEngineType(h_engine(eng)); for (int i = 0; i < n; i++) { GElementPtrSet d; if (i) d.insert(e[k][0]); s += p[k]->registerGElement<Nv>(&e[k][i], d, "n", 1); } } SYM_ASSERT(s.isOK(), "registration succeeds");
  __sym_sched(1); bool ini = false, ex = false; bool anyFail = false;
  if (two) {                                                                                            // two pipelines driven at the same time do not disturb each other
    int c[2], pk = 0; for (int k = 0; k < 2; k++) { c[k] = sym_bool("fails") ? (int)sym_range("code", -1000, -1) : 0; h_rc[k * n] = c[k]; if (mode == 0) { s = p[k]->init(); SYM_ASSERT(s.isOK(), "init succeeds"); } }
    { std::future<CStatus> f[2]; for (int k = 0; k < 2; k++) f[k] = mode == 0 ? p[k]->asyncRun(std::launch::async) : p[k]->asyncProcess(1, std::launch::async); pk = sym_bool("second");
      for (int q = 0; q < 2; q++) { int k = q ^ pk; s = f[k].get(); SYM_ASSERT(s.getCode() == c[k], "each future carries its own pipeline's status"); for (int i = 0; i < n; i++) SYM_ASSERT(!h_active[k * n + i] && h_runs[k * n + i] == (i == 0 || !c[k]), "each pipeline ran once"); } }
    for (int k = 0; k < 2; k++) if (mode == 0) p[k]->destroy(); __sym_sched(0); for (int k = 0; k < 2; k++) GPipelineFactory::remove(p[k]); __sym_reach("end"); return;
  }
  ex = false; try { if (mode == 0) p[0]->asyncRun(pol41(sym_pick("policy", 3))); } catch (const CException&) { ex = true; } SYM_ASSERT(mode || ex, "a run of a pipeline that is not initialised is refused");
  for (int q = 0; q < calls; q++) {
    bool isAsync = sym_bool("async"), fail = sym_bool("fails"); int pol = isAsync ? sym_pick("policy", 3) : 0, code = fail ? (int)sym_range("code", -1000000, -1) : 0, times = mode == 1 ? sym_pick("times", 3) : 1; int initBad = mode == 1 && sym_bool("initFails") ? (int)sym_range("icode", -1000, -1) : 0; h_rc[0] = code; h_irc[0] = initBad; anyFail |= fail;
    if (mode == 0 && !ini) { s = p[0]->init(); SYM_ASSERT(s.isOK(), "init succeeds"); ini = true; ex = false; try { p[0]->asyncProcess(1, std::launch::deferred); } catch (const CException&) { ex = true; } SYM_ASSERT(ex, "asyncProcess of an initialised pipeline is refused"); }
    if (ini && sym_bool("cancelled")) { s = p[0]->cancel(); SYM_ASSERT(s.isOK(), "cancel is accepted"); __sym_reach("cancelled"); }     // with nothing running it has nothing to cancel
    h_reset(); int i0 = h_inits[0], d0 = h_dests[0];
    if (!isAsync) { try { s = mode == 0 ? p[0]->run() : p[0]->process(times); } catch (const CException&) { s = CStatus(internal::STATUS_CRASH, "x"); SYM_ASSERT(initBad == internal::STATUS_CRASH, "only a crash in init is thrown"); } }   // the crash code of init() leaves as an exception, see DESIGN.md
    else {
      std::future<CStatus> f = mode == 0 ? p[0]->asyncRun(pol41(pol)) : p[0]->asyncProcess(times, pol41(pol)); SYM_ASSERT(f.valid(), "a future is returned");
      if (pol == 1) SYM_ASSERT(!h_runs[0], "a deferred call starts with get"); else if (sym_bool("poll") && f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { int act = 0; for (int i = 0; i < n; i++) act += h_active[i]; SYM_ASSERT(!act && (h_runs[0] || !times || initBad), "a future is not ready before the run has ended"); __sym_reach("polled"); }
      try { s = f.get(); } catch (const CException&) { s = CStatus(internal::STATUS_CRASH, "x"); SYM_ASSERT(initBad == internal::STATUS_CRASH, "only a crash in init is thrown"); } __sym_reach("async");
    }
    if (initBad) { SYM_ASSERT(s.getCode() == initBad, "the status of init is returned"); for (int i = 0; i < n; i++) SYM_ASSERT(!h_runs[i] && !h_active[i], "nothing runs when init fails"); h_irc[0] = 0; __sym_reach("initfail"); continue; }
    done41(n, times, fail && times, code, s, ""); if (mode == 1) SYM_ASSERT(h_inits[0] == i0 + 1 && h_dests[0] == d0 + 1, "process initialises and destroys once");
    int r0 = h_runs[0]; if (sym_opt("late", 0)) { CGRAPH_SLEEP_MILLISECOND(5); SYM_ASSERT(h_runs[0] == r0, "no further run follows"); }
  }
  if (ini) { s = p[0]->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); }
  ex = false; try { p[0]->asyncRun(std::launch::async); } catch (const CException&) { ex = true; } SYM_ASSERT(ex, "and after destroy it is refused again");
  __sym_sched(0); GPipelineFactory::remove(p[0]); __sym_reach("end");
}
