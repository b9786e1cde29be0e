// C15: elements with a timeout: reported or tolerated per strategy, waited for by fences and by the end of the run.
#include "h.h"
static int body15[MAXE], rel15[MAXE]; static int tmo, sawEnd;
struct Slow : Nd { CStatus run() override { int k = id; h_runs[k]++; h_active[k]++; if (!h_beg[k]) h_beg[k] = ++h_seq; switch (body15[k]) { case 0: __sym_visible(); break; case 1: CGRAPH_SLEEP_MILLISECOND(5); break; default: CGRAPH_SLEEP_MILLISECOND(20); } h_active[k]--; h_end[k] = ++h_seq; if (h_throwIn[k] & 1) { CGRAPH_THROW_EXCEPTION("slow") } return h_status(h_rc[k]); } };
struct Watch : GAspect { CVoid enterTimeout() override { tmo++; } };
static int b15 = -1, open15; struct Over : GAspect { CVoid finishRun(const CStatus&) override { if (!h_end[b15] || !h_end[0] || h_active[0] || h_active[b15]) open15++; } };
struct Tail15 : Nd { CStatus run() override { sawEnd = h_end[0]; return Nd::run(); } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), eng = sym_opt("engine", 0), runs = sym_opt("runs", 1), pool = sym_opt("pool", 3), fence = sym_opt("fence", 0); CStatus s;
  if (mode == 2) {                                                              // what an element reported in one run is not reported again in a run it has no part in
    GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr c0 = p->createGNode<Slow>(GElementPtrSet(), "c0", 1), c1 = p->createGNode<Slow>(GElementPtrSet(), "c1", 1), g = h_wrap(p, K_COND, {c0, c1}); s = p->registerGGroup(&g, {}, "g", 1); SYM_ASSERT(s.isOK(), "registration succeeds"); c0->setTimeout(10, (GElementTimeoutStrategy)sym_pick("strategy", 3)); body15[0] = sym_pick("body", 3); h_rc[0] = sym_bool("fails") ? (int)sym_range("code", -900, -1) : 0; c0->addGAspect<Watch>(); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < 3; r++) { int was0 = h_runs[0], was1 = h_runs[1]; tmo = 0; h_choose = r % 2; s = p->run(); if (h_choose) { SYM_ASSERT(s.isOK() && h_runs[1] == was1 + 1 && h_runs[0] == was0, "a run without the element knows nothing of its status"); __sym_reach("without"); } else if (!tmo) SYM_ASSERT(s.isErr() == (h_rc[0] != 0) && h_runs[0] == was0 + 1, "a run with it reports it"); while (h_active[0] || (h_choose == 0 && h_runs[0] == was0)) std::this_thread::yield(); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end"); return;
  }
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr a = nullptr, y = nullptr, z = nullptr, f = nullptr, f2 = nullptr, b2 = nullptr, z2 = nullptr; int z2i = -1; int strat = fence ? 1 + sym_pick("strategy", 2) : sym_pick("strategy", 3), kind = sym_pick("body", 3); body15[0] = body15[1] = kind;
  if (sym_bool("fails")) { h_rc[0] = sym_opt("crash", 0) ? 0 : (int)sym_range("code", -1000000, -1); h_throwIn[0] = sym_opt("crash", 0); } const bool bad = h_rc[0] || h_throwIn[0];
  if (mode == 0) s += p->registerGElement<Slow>(&a, {}, "a");                   // one element; its successor; possibly fences on it
  else { GElementPtr c0 = p->createGNode<Slow>(GElementPtrSet(), "c0", 1), c1 = p->createGNode<Slow>(GElementPtrSet(), "c1", 1); a = p->createGGroup<GCluster>({c0, c1}); s += p->registerGGroup(&a, {}, "a"); }
  a->setTimeout(10, (GElementTimeoutStrategy)strat); a->addGAspect<Watch>();
  s += p->registerGElement<Tail15>(&y, {a}, "y"); const int yi = ((Nd*)y)->id; z = y; int zi = yi;
  if (fence) { s += p->registerGElement<GFence>(&f, {a}, "f"); ((GFence*)f)->waitGElement(a); GElementPtrSet d{f}; if (fence == 3) { s += p->registerGElement<Slow>(&b2, {}, "b"); b2->setTimeout(10, (GElementTimeoutStrategy)strat); b15 = ((Nd*)b2)->id; body15[b15] = 2; ((GFence*)f)->waitGElement(b2); f->addDependGElements({b2}); f->addGAspect<Over>(); } if (fence == 2) { s += p->registerGElement<GFence>(&f2, {a}, "f2"); ((GFence*)f2)->waitGElement(a); d.insert(f2); } s += p->registerGElement<Tail15>(&z, d, "z"); zi = ((Nd*)z)->id; if (fence == 2) { s += p->registerGElement<Tail15>(&z2, {f2}, "z2"); z2i = ((Nd*)z2)->id; } }
  SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); tmo = 0; sawEnd = 0; if (sym_opt("idle", 0)) std::this_thread::sleep_for(std::chrono::milliseconds(100)); s = p->run(); const bool late = tmo > 0; if (z2i >= 0 && h_runs[z2i]) SYM_ASSERT(h_end[0] && h_end[0] < h_beg[z2i], "every fence waits for the element"); if (b15 >= 0 && !h_throwIn[0]) SYM_ASSERT(!open15, "a fence waits for all its elements, whatever their status");
    SYM_ASSERT(tmo <= 1, "the timeout hook runs at most once");
    if (kind == 2 && sym_opt("exact", 0)) SYM_ASSERT(late, "a long element is timed out"); if (kind < 2 && sym_opt("exact", 0) && mode == 0) SYM_ASSERT(!late, "an element shorter than its timeout is in time, also when the pool was idle");
    if (mode == 0 && (!late || strat == 1)) { SYM_ASSERT(h_runs[0] == 1 && h_active[0] == 0, "the element has finished when run returns"); SYM_ASSERT(s.isErr() == bad && (!bad || s.getCode() == (h_throwIn[0] ? -996 : h_rc[0])), "its status is reported"); }
    if (mode == 1 && (!late || strat == 1)) { SYM_ASSERT(h_active[0] + h_active[1] == 0, "the group's children have finished when run returns"); SYM_ASSERT(h_runs[0] <= 1 && h_runs[1] <= 1, "no child runs twice"); if (!late) SYM_ASSERT(s.isErr() == bad && h_runs[0] == 1 && h_runs[1] == (bad ? 0 : 1), "a group in time behaves as usual"); }
    if (!late) { SYM_ASSERT(h_runs[yi] == (bad ? 0 : 1), "in time: successors run as usual"); __sym_reach("intime"); }
    else if (strat == 0) { SYM_ASSERT(s.isErr() && h_runs[yi] == 0, "the error strategy makes the run an error"); __sym_reach("error"); }
    else { SYM_ASSERT(h_runs[yi] == 1 || (fence && bad), "the run goes on without the element"); if (strat == 2 && !fence) SYM_ASSERT(s.isOK(), "an element not held does not fail the run"); __sym_reach(strat == 1 ? "hold" : "nohold"); }
    if (fence) { SYM_ASSERT(h_runs[zi] == (bad ? 0 : 1), "what follows the fence depends on the element's status"); SYM_ASSERT(s.isErr() == bad, "the status of a fenced element is reported"); if (h_runs[zi] && mode == 0) SYM_ASSERT(h_end[0] && h_end[0] < h_beg[zi], "the fence waits for the element"); SYM_ASSERT(h_active[0] == 0, "the fence waits for the element"); }
    while (h_active[0] || h_active[1] || (b15 >= 0 && h_active[b15]) || (strat != 1 && mode == 0 && !h_runs[0])) std::this_thread::yield();
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
