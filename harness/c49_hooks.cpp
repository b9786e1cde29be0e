// C49: what an element may ask or override about its own execution: prepare and result hooks, the thread it is on, whether it has timed out.
#include "h.h"
static int prep[MAXE], prepAt[MAXE], prepRc[MAXE], res[MAXE], resRc[MAXE], resRuns[MAXE], ti[MAXE], truth[MAXE], tmoIn[MAXE]; static UThreadPool* tp49; static int holds[MAXE]; static int bad49;
struct H : Nv { CStatus prepareRun() override { prep[id]++; prepAt[id] = ++h_seq; if (h_runs[id]) bad49++; return h_status(prepRc[id]); } CStatus checkRunResult() override { res[id]++; resRuns[id] = h_runs[id]; return h_status(resRc[id]); } CBool isHold() override { return holds[id]-- > 0; } CBool isMatch() override { return true; } };
struct W : Nd { int slow = 0; CBool isMatch() override { return true; } CStatus run() override { ti[id] = getThreadIndex(); std::thread::id me = std::this_thread::get_id(); truth[id] = __sym_tid() == 0 ? CGRAPH_MAIN_THREAD_ID : CGRAPH_SECONDARY_THREAD_COMMON_ID; UThreadPool* tp = tp49 ? tp49 : thread_pool_; for (size_t i = 0; i < tp->primary_threads_.size(); i++) if (tp->primary_threads_[i]->thread_.get_id() == me) truth[id] = (int)i; return Nd::run(); } void body() override { __sym_visible(); if (slow) { CGRAPH_SLEEP_MILLISECOND(20); } tmoIn[id] = isTimeout(); } };
struct H2 : GCluster { int n = 0; CStatus prepareRun() override { n++; return CStatus(); } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), eng = sym_opt("engine", 0), kind = sym_opt("kind", 0), pool = sym_opt("pool", 2); CStatus s; h_choose = 0; h_wait = 1; for (bool& b : h_match) b = true;
  if (mode == 0) {                                                              // prepare once between an init and the first body, check after all repetitions
    GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr t = nullptr, g = nullptr, z = nullptr; int loop = sym_pick("loop", 3), outer = kind ? 1 + (kind < K_SOME ? sym_pick("outer", 2) : 0) : 1; if (kind && (!loop || kind == K_MUT)) loop = 1;
    if (kind) { t = p->createGNode<H>(GElementPtrSet(), "t", loop); g = h_wrap(p, kind, {t}); s = p->registerGGroup(&g, {}, "g", outer); } else { s = p->registerGElement<H>(&t, {}, "t", loop); g = t; }
    s += p->registerGElement<H>(&z, {g}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds"); int hold = loop && !kind ? sym_pick("hold", 2) : 0; int times = loop * outer + hold;
    int bp = sym_bool("prepfails") ? (int)sym_range("code", -900, -1) : 0, br = bp ? 0 : sym_bool("resultfails") ? (int)sym_range("result", -900, -1) : 0; if (!bp && !br && sym_bool("runfails")) h_rc[0] = -5; __sym_sched(1);
    for (int q = 0; q < 2; q++) {                                               // two lives, two runs each
      for (int i = 0; i < MAXE; i++) prep[i] = res[i] = 0; s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); SYM_ASSERT(!prep[0] && !res[0], "the hooks are not part of init");
      for (int r = 0; r < 2; r++) {
        h_reset(); res[0] = res[1] = bad49 = 0; holds[0] = hold; prepRc[0] = r ? 0 : bp; resRc[0] = r ? 0 : br; int was = prep[0]; s = p->run(); SYM_ASSERT(!bad49, "preparing comes before the body");
        if (prepRc[0]) { SYM_ASSERT(s.isErr() && s.getCode() == bp, "a failing preparation is the error of the run"); SYM_ASSERT(prep[0] == was + 1 && !h_runs[0] && !h_runs[1] && !res[0], "and nothing else of it happens"); __sym_reach("unprepared"); continue; }
        SYM_ASSERT(prep[0] == (bp ? 2 : 1), "an element is prepared once after init"); if (!r && !bp && h_runs[0]) SYM_ASSERT(prepAt[0] < h_beg[0], "before its first body");
        if (h_rc[0]) { SYM_ASSERT(s.isErr() == (loop > 0) && h_runs[0] == (loop ? 1 : 0), "a failing body is the error of the run"); if (loop) __sym_reach("failed"); continue; }
        if (resRc[0]) { SYM_ASSERT(s.isErr(), "a failing check is an error of the run"); SYM_ASSERT(h_runs[1] == 0, "a failing check is an error of the run"); SYM_ASSERT(res[0] == 1, "a failing check is asked once and is an error of the run"); SYM_ASSERT(h_runs[0] == loop + hold && resRuns[0] == loop + hold, "after all repetitions"); __sym_reach("unchecked"); continue; }
        SYM_ASSERT(s.isOK() && h_runs[0] == times && h_runs[1] == 1, "the run succeeds"); SYM_ASSERT(res[0] == outer && resRuns[0] == times, "an element is checked once after all its repetitions"); __sym_reach("full");
      }
      SYM_ASSERT(prep[1] <= 1, "every element is prepared once"); s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); if (sym_opt("lives", 2) == 1) break;
    }
    __sym_sched(0); GPipelineFactory::remove(p);
  } else if (mode == 1) {                                                       // an element knows the thread it runs on
    const int n = sym_opt("nodes", 3), sec = sym_opt("sec", 0), shared = sym_opt("shared", 0); GPipelinePtr p = h_pipe(pool, sec); p->setGEngineType(h_engine(eng)); GElementPtr e[MAXE] = {}, top[MAXE] = {}; if (shared) { tp49 = new UThreadPool(true, h_cfg(pool, sec)); p->setSharedThreadPool(tp49); }
    for (int i = 0; i < n; i++) { if (kind) { GElementPtr x = p->createGNode<W>(GElementPtrSet(), "x", 1); top[i] = h_wrap(p, kind, {x}); s += p->registerGGroup(&top[i], i && sym_bool("dep") ? GElementPtrSet{top[i - 1]} : GElementPtrSet(), "g", 1); e[i] = x; } else s += p->registerGElement<W>(&e[i], i && sym_bool("dep") ? GElementPtrSet{top[i - 1]} : GElementPtrSet(), "n"); if (!kind) top[i] = e[i]; int b = sym_pick("bind", pool + 1 + (sec ? 1 : 0)); if (b && b <= pool) e[i]->setBindingIndex(b - 1); else if (b) e[i]->setBindingIndex(CGRAPH_LONG_TIME_TASK_STRATEGY); }
    SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); for (int r = 0; r < 2; r++) { h_reset(); s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); for (int i = 0; i < n; i++) { SYM_ASSERT(h_runs[i] == 1 && ti[i] == truth[i], "an element knows its thread"); SYM_ASSERT(!tmoIn[i], "nothing has timed out"); if (truth[i] == CGRAPH_SECONDARY_THREAD_COMMON_ID) __sym_reach("secondary"); else if (truth[i] >= 0) __sym_reach("primary"); else __sym_reach("main"); } }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); if (tp49) delete tp49;
  } else {                                                                      // what is in a group that timed out has timed out, however deep; what has not started does not start
    GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); const int depth = sym_opt("depth", 2); GElementPtr c0 = p->createGNode<W>(GElementPtrSet(), "c0", 1), c1 = p->createGNode<W>(GElementPtrSet(), "c1", 1), g = nullptr, z = nullptr; ((W*)c0)->slow = 1; bool own = sym_bool("own");
    g = h_wrap(p, K_CLUSTER, {c0, c1}); for (int i = 1; i < depth; i++) { static const int K[4] = {K_CLUSTER, K_REGION, K_COND, K_MUT}; g = h_wrap(p, K[sym_pick("kind", 4)], {g}); } s = p->registerGGroup(&g, {}, "g", 1); s += p->registerGElement<W>(&z, {g}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds"); GElementPtr late = own ? c0 : g; bool tol = sym_bool("late"); late->setTimeout(tol ? 10 : 1000, GElementTimeoutStrategy::HOLD_BY_PIPELINE); __sym_sched(1);
    s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); for (int r = 0; r < 2; r++) { h_reset(); for (int& x : tmoIn) x = -1; s = p->run(); SYM_ASSERT(s.isOK() && h_runs[0] == 1 && h_runs[2] == 1 && h_active[0] == 0, "the run goes on"); SYM_ASSERT(tmoIn[0] == (tol ? 1 : 0), "an element tells whether it, or a group it is in, has timed out"); SYM_ASSERT(tmoIn[2] == 0, "others have not"); if (!tol || own) SYM_ASSERT(h_runs[1] == 1 && tmoIn[1] == 0, "what follows in time runs"); else { SYM_ASSERT(h_runs[1] == 0, "what has not started when the group times out does not start"); __sym_reach("cut"); } }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  }
  __sym_reach("end");
}
