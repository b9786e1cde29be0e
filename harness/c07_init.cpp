// C07: init and destroy hooks: once per element, before any run hook, ascending by level; a failing hook is reported.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), eng = sym_opt("engine", 0), grp = sym_opt("group", 0), late = sym_opt("late", 0), phase = sym_opt("phase", 0);
  GPipelinePtr p = h_pipe(1 + (grp > 1)); CStatus s; GElementPtr e[MAXE] = {}; int64_t lev[MAXE] = {}; p->setGEngineType(h_engine(eng));
  GElementPtr g = nullptr, x = nullptr; int top = n;                                        // ids 0..n-1 are the graded elements
  if (!grp) for (int i = 0; i < n; i++) {
    lev[i] = (CLevel)sym_int("level");
    if (late) { s += p->registerGElement<Nd>(&e[i], {}, "n"); e[i]->setLevel((CLevel)lev[i]); }
    else { e[i] = h_node<Nd>(p); e[i]->setLevel((CLevel)lev[i]); s += p->registerGNode(&e[i], {}, "n"); }
  } else {
    GElementPtrArr a; for (int i = 0; i < n; i++) { e[i] = h_node<Nd>(p); if (grp > 1) { lev[i] = (CLevel)sym_int("level"); e[i]->setLevel((CLevel)lev[i]); } a.push_back(e[i]); }
    if (grp == 1) g = h_wrap(p, K_CLUSTER, a); else if (grp == 2) g = h_wrap(p, K_REGION, a); else if (grp == 3) g = h_wrap(p, K_COND, a); else { g = h_wrap(p, K_CLUSTER, a); g = h_wrap(p, K_REGION, {g}); }
    s += p->registerGGroup(&g, {}, "g"); if (sym_bool("extra")) { s += p->registerGElement<Nd>(&x, {g}, "x"); top++; x->setLevel((CLevel)(CLevel)sym_int("level")); }
  }
  SYM_ASSERT(s.isOK(), "registration succeeds");
  int bad = -1; if (phase == 1 || phase == 2) { bad = sym_pick("bad", top + 1); if (bad < top) (phase == 1 ? h_irc : h_drc)[bad] = (int)sym_range("code", -1000000, -1); else bad = -1; }
  __sym_sched(1);
  for (int round = 0; round < 2; round++) {
    h_reset(); for (int i = 0; i < MAXE; i++) h_inits[i] = h_dests[i] = h_initAt[i] = h_destAt[i] = 0;
    bool thrown = false; try { s = p->init(); } catch (const CException&) { thrown = true; }
    for (int i = 0; i < top; i++) SYM_ASSERT(h_runs[i] == 0, "no body runs during init");
    if (bad >= 0 && phase == 1) {
      SYM_ASSERT(thrown ? h_irc[bad] == -996 : (s.isErr() && s.getCode() == h_irc[bad]), "init reports the failing hook's error"); for (int i = 0; i < top; i++) SYM_ASSERT(h_inits[i] <= 1, "no init hook is called twice");
      s = p->run(); SYM_ASSERT(s.isErr(), "run is refused after a failed init"); for (int i = 0; i < top; i++) SYM_ASSERT(h_runs[i] == 0, "no body runs after a failed init"); __sym_reach("initfail");
      if (sym_opt("retry", 0)) { h_irc[bad] = 0; for (int i = 0; i < MAXE; i++) h_inits[i] = 0; try { s = p->init(); } catch (const CException&) { thrown = true; s = CStatus("x"); } SYM_ASSERT(s.isOK(), "a pipeline whose init failed can be initialised again"); bad = -1; s = p->run(); SYM_ASSERT(s.isOK(), "and run"); s = p->destroy(); for (int i = 0; i < top; i++) SYM_ASSERT((grp == 3 || h_runs[i] == 1) && h_inits[i] == 1, "with every hook called"); }
      break;
    }
    SYM_ASSERT(!thrown && s.isOK(), "init succeeds"); for (int i = 0; i < top; i++) SYM_ASSERT(h_inits[i] == 1, "init reaches every element exactly once");
    if (!grp || grp == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) SYM_ASSERT(!(lev[i] < lev[j]) || h_initAt[i] < h_initAt[j], "elements initialise in ascending level order");
    if (grp == 1 || grp == 3) for (int i = 0; i + 1 < n; i++) SYM_ASSERT(h_initAt[i] < h_initAt[i + 1], "children initialise in order");
    s = p->run(); SYM_ASSERT(s.isOK(), "run succeeds"); for (int i = 0; i < top; i++) { SYM_ASSERT(h_inits[i] == 1 && h_dests[i] == 0, "run neither initialises nor destroys"); }
    thrown = false; try { s = p->destroy(); } catch (const CException&) { thrown = true; }
    if (bad >= 0 && phase == 2) { SYM_ASSERT(thrown ? h_drc[bad] == -996 : (s.isErr() && s.getCode() == h_drc[bad]), "destroy reports the failing hook's error"); for (int i = 0; i < top; i++) SYM_ASSERT(h_dests[i] <= 1, "no destroy hook is called twice"); __sym_reach("destfail"); break; }
    SYM_ASSERT(!thrown && s.isOK(), "destroy succeeds"); for (int i = 0; i < top; i++) SYM_ASSERT(h_dests[i] == 1 && h_inits[i] == 1, "destroy reaches every element exactly once");
    __sym_reach("ok");
  }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
