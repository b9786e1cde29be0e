// C18: events: synchronous and asynchronous notifications, with every strategy, from parallel elements (and from a daemon).
#include "h.h"
static int beg18[2], end18[2], par18[2], inits18[2], dests18[2], want18[2], dwant18[2], nops; enum { SYNC, RUNF, DESTR, NOW, FUT };
struct Ep : GEventParam { int k = 0; CVoid clone(GPassedParam* p) override { k = ((Ep*)p)->k; } };
struct Ev : GEvent { int k = 0; CStatus init() override { return CStatus(); } CVoid trigger(GEventParamPtr p) override { int i = ((Ep*)p)->k; beg18[i]++; __sym_visible(); end18[i]++; } };
static bool slow18;                                                                // the notifying element comes after its time is up
static const char* K18[] = {"e0", "e1", "no"};
struct Notifier : GNode { int base = 0; int ops[3], keys[3];
  CStatus run() override { if (slow18) { CGRAPH_SLEEP_MILLISECOND(25) }
    for (int i = 0; i < nops; i++) { int k = keys[i]; CStatus s;
      if (k == 2) { s = notify("no", ops[i] == SYNC ? GEventType::SYNC : GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH); SYM_ASSERT(s.isErr(), "an unknown key is an error"); bool threw = false; try { asyncNotify("no"); } catch (const CException&) { threw = true; } SYM_ASSERT(threw, "an unknown key is an error"); __sym_reach("unknown"); continue; }
      int e0 = end18[k]; want18[k]++;
      switch (ops[i]) { case SYNC: s = notify(K18[k], GEventType::SYNC); SYM_ASSERT(end18[k] > e0, "a synchronous trigger has finished when notify returns"); break; case RUNF: s = notify(K18[k], GEventType::ASYNC); break; case DESTR: s = notify(K18[k], GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_DESTROY); dwant18[k]++; break; case NOW: s = notify(K18[k], GEventType::ASYNC, GEventAsyncStrategy::NO_WAIT); dwant18[k]++; break;
        default: { auto f = asyncNotify(K18[k], (GEventAsyncStrategy)(sym_opt("futstrategy", 0))); f.wait(); SYM_ASSERT(end18[k] > e0, "the future of an asynchronous notification is ready after the trigger"); } }
      SYM_ASSERT(s.isOK(), "a notification is accepted"); }
    return CStatus(); } };
struct Dm : GDaemon { CVoid daemonTask(GDaemonParamPtr) override { if (notify("e0", GEventType::ASYNC, sym_opt("dstrat", 0) ? GEventAsyncStrategy::PIPELINE_RUN_FINISH : GEventAsyncStrategy::PIPELINE_DESTROY).isOK()) { want18[0]++; dwant18[0]++; } } };
extern "C" void harness_main() {
  const int nodes = sym_opt("nodes", 1), runs = sym_opt("runs", 2), pool = sym_opt("pool", 2), kinds = sym_opt("kinds", 5), daemon = sym_opt("daemon", 0), nk = sym_opt("keys", 3), eng = sym_opt("engine", 0); nops = sym_opt("ops", 2); CStatus s; GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); Notifier* nd[3]; GElementPtr e = nullptr;
  Ep ep; ep.k = 0; p->addGEvent<Ev, Ep>("e0", &ep); ep.k = 1; p->addGEvent<Ev, Ep>("e1", &ep); ep.k = 7; bool dup = false; try { p->addGEvent<Ev, Ep>("e0", &ep); } catch (const CException&) { dup = true; } SYM_ASSERT(dup, "a key can be registered once"); if (daemon) p->addGDaemon<Dm>(10);
  const int late = sym_opt("late", 0); slow18 = late && sym_bool("slow"); h_wait = 1;
  for (int i = 0; i < nodes; i++) { if (late == 2) { e = h_node<Notifier>(p); GElementPtr g = h_wrap(p, K_SOME, {h_node<Nd>(p), e}); s += p->registerGGroup(&g, {}, "g", 1); } else { s += p->registerGElement<Notifier>(&e, {}, "n"); if (late == 1) e->setTimeout(10, GElementTimeoutStrategy::HOLD_BY_PIPELINE); } nd[i] = (Notifier*)e; for (int j = 0; j < nops; j++) { nd[i]->ops[j] = sym_pick("op", kinds); nd[i]->keys[j] = sym_pick("key", nk); } } SYM_ASSERT(s.isOK(), "registration succeeds");
  __sym_sched(1);
  for (int q = 0; q < sym_opt("rounds", 1); q++) {
    for (int k = 0; k < 2; k++) want18[k] = dwant18[k] = beg18[k] = end18[k] = 0; bool nowait = false; for (int i = 0; i < nodes; i++) for (int j = 0; j < nops; j++) nowait |= nd[i]->ops[j] == NOW;
    s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < runs; r++) { s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); for (int k = 0; k < 2; k++) SYM_ASSERT(end18[k] >= want18[k] - dwant18[k] && beg18[k] <= want18[k], "everything to be finished at the end of the run has finished, nothing is triggered twice"); }
    if (daemon) CGRAPH_SLEEP_MILLISECOND(25);
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); for (int k = 0; k < 2; k++) { SYM_ASSERT(beg18[k] == end18[k] && beg18[k] <= want18[k], "no trigger is running after destroy"); if (!nowait) SYM_ASSERT(end18[k] == want18[k], "every notification has triggered once when destroy returns"); }
  }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
