// C12: a some-group lets its successor start once the requested number of children have finished (or one failed), always returns, and leaves nothing running behind the pipeline's run.
#include "h.h"
static int done12, failed12, seenDone, seenFailed, zruns, wantNow, n12, base12;
struct Kid : Nd { CStatus run() override { h_runs[id]++; h_active[id]++; __sym_visible(); CStatus s = h_status(h_rc[id]); h_active[id]--; done12++; if (h_rc[id]) failed12++; return s; } };
static int ws12[2], it12; struct Some12 : GSome { protected: CSize getWaitNum() override { return (CSize)ws12[it12++ & 1]; } };
struct After : GNode { CStatus run() override { zruns++; seenDone = done12; seenFailed = failed12; return CStatus(); } };
extern "C" void harness_main() {
  const int n = sym_opt("kids", 2), runs = sym_opt("runs", 2), pool = sym_opt("pool", 5), fails = sym_opt("fails", 1), eng = sym_opt("engine", 0), over = sym_opt("over", 1), wrap = sym_opt("wrap", 0), times = wrap ? 2 : 1;   // wrap: the group is inside a region repeated twice
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); CStatus s; GElementPtrArr ch; GElementPtr g = nullptr, z = nullptr; base12 = h_next;
  for (int i = 0; i < n; i++) { ch.push_back(p->createGNode<Kid>(GElementPtrSet(), "c", 1)); if (fails && sym_bool("fails")) h_rc[base12 + i] = -5 - i; }
  g = p->createGGroup<Some12>(ch, {}, "g"); if (wrap) g = p->createGGroup<GRegion>({g}, {}, "w", 2); s += p->registerGGroup(&g, {}, "g", times); s += p->registerGElement<After>(&z, {g}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds");
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    const int w1 = sym_opt("w1", 0), w2 = sym_opt("w2", 0); h_wait = w1 ? w1 : 1 + sym_pick("want", n + over); ws12[0] = ws12[1] = h_wait; it12 = 0; if (wrap) ws12[1] = w2 ? w2 : 1 + sym_pick("want2", n); const int need = wrap ? ws12[0] + ws12[1] : h_wait, all = wrap ? (ws12[0] == n) + (ws12[1] == n) : h_wait == n; for (int i = 0; i < n; i++) h_runs[base12 + i] = 0; done12 = failed12 = zruns = 0; seenDone = seenFailed = -1;
    s = p->run();
    if (h_wait > n) { SYM_ASSERT(s.isErr() && zruns == 0, "a request for more children than there are is an error"); __sym_reach("refused"); continue; }
    int act = 0; for (int i = 0; i < n; i++) { SYM_ASSERT(h_runs[base12 + i] <= times, "no child runs twice"); act += h_active[base12 + i]; }
    if (zruns) SYM_ASSERT(seenDone >= need || seenFailed > 0, "the group has finished only when enough children have");
    if (s.isOK()) { SYM_ASSERT(failed12 == 0, "an error of a child that ran is reported"); SYM_ASSERT(zruns == 1 && seenDone >= need, "a successful run has run enough children"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[base12 + i] >= all, "a group that waits for all its children has run all of them, each time"); __sym_reach("full"); }
    else { SYM_ASSERT(failed12 > 0, "an error comes from a failing child"); __sym_reach("failed"); }
    SYM_ASSERT(act == 0, "no child is still running when run returns");
    int before = 0, after = 0; for (int i = 0; i < n; i++) before += h_runs[base12 + i]; __sym_visible(); for (int i = 0; i < n; i++) after += h_runs[base12 + i]; SYM_ASSERT(before == after, "no child starts after run returned");
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
