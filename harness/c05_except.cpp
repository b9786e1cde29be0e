// C05: a CException thrown by the run hook of an element, wherever the element sits, becomes an error status of run(); thrown by an init or destroy hook it
// reaches the caller of init()/destroy() as an error status or a CException; it never ends the program, never leaves a worker thread, never hangs.
#include "h.h"
extern "C" void harness_main() {
  const int eng = sym_opt("engine", 0), phase = sym_opt("phase", 1), kinds = sym_opt("kinds", K_COUNT), kind0 = sym_opt("kind0", 0), async = sym_opt("async", 0);
  GPipelinePtr p = h_pipe(2); p->setGEngineType(h_engine(eng)); CStatus s; GElementPtr a, b, z;
  s += p->registerGElement<Nt>(&a, {}, "a");                                         // id 0: may throw too
  int kind = kind0 + sym_pick("kind", kinds); GElementPtr t;
  if (kind == K_NODE) { s += p->registerGElement<Nt>(&t, {a}, "t"); s += p->registerGElement<Nt>(&b, {}, "u"); }   // ids 1, 2
  else { GElementPtr c1 = h_node<Nm>(p), c2 = h_node<Nm>(p); t = h_wrap(p, kind, {c1, c2}); s += p->registerGGroup(&t, {a}, "g"); h_match[1] = h_match[2] = true; h_wait = 2; h_choose = sym_pick("choose", 2); if (async && kind != K_SOME) c1->setTimeout(100, async == 1 ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::HOLD_BY_PIPELINE); }
  s += p->registerGElement<Nt>(&z, {t}, "z");                                        // id 3 depends on everything that may throw
  if (kind == K_NODE && async) t->setTimeout(100, async == 1 ? GElementTimeoutStrategy::AS_ERROR : GElementTimeoutStrategy::HOLD_BY_PIPELINE);
  SYM_ASSERT(s.isOK(), "registration succeeds");
  bool any = false; for (int i = 0; i < 3; i++) if (sym_bool("throws")) { h_throwIn[i] = phase; any = true; }
  __sym_sched(1);
  int escaped = 0; bool ok = true;
  try { s = p->init(); } catch (const CException&) { escaped = 1; s = CStatus("thrown"); }
  if (phase == 2) { SYM_ASSERT(s.isErr() == any, "a throwing init hook makes init fail"); for (int i = 0; i < 4; i++) SYM_ASSERT(h_runs[i] == 0, "no body runs during init"); __sym_reach(any ? "initfail" : "initok"); }
  else SYM_ASSERT(s.isOK() && !escaped, "init succeeds when nothing throws");
  if (s.isOK()) {
    for (int r = 0; r < 2; r++) {
      h_reset(); escaped = 0; try { s = p->run(); } catch (const CException&) { escaped = 1; }
      SYM_ASSERT(!escaped, "no exception leaves run()");
      bool thrown = false; for (int i = 0; i < 3; i++) thrown |= (phase & 1) && h_throwIn[i] && h_runs[i];
      SYM_ASSERT(s.isErr() == thrown, "run reports an error exactly when a hook threw");
      if (thrown) { SYM_ASSERT(s.isCrash(), "the error carries the crash code"); if (!async && (h_throwIn[0] || (kind != K_SOME))) SYM_ASSERT(h_runs[3] == 0 || (kind == K_NODE && !h_throwIn[0] && !h_throwIn[1]), "a successor of a crashed element does not run"); __sym_reach("crashed"); }
      else for (int i = 0; i < 4; i++) if (kind != K_COND) SYM_ASSERT(h_runs[i] == 1, "without an exception everything runs once");
    }
    escaped = 0; try { s = p->destroy(); } catch (const CException&) { escaped = 1; }
    SYM_ASSERT((phase & 4) && any ? (escaped || s.isErr()) : (!escaped && s.isOK()), "destroy fails exactly when a destroy hook threw");
  }
  __sym_sched(0); GPipelineFactory::remove(p);
  __sym_reach("end");
}
