// C02: every directed graph over n elements (all ordered pairs symbolic): init is an error exactly when the graph has a cycle, and then no body runs.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), eng = sym_opt("engine", 0), grp = sym_opt("group", 0), viaOp = sym_opt("op", 0);
  GPipelinePtr p = h_pipe(1 + grp); GElementPtr e[MAXE] = {}; bool r[MAXE][MAXE] = {}; CStatus s;
  GElementPtr g = nullptr, other = nullptr;
  if (grp) {
    GElementPtrArr arr; for (int i = 0; i < n; i++) { e[i] = p->createGNode<Nd>(GElementPtrSet(), "n", 1); arr.push_back(e[i]); }
    g = p->createGGroup<GRegion>(arr); ((GRegion*)g)->setGEngineType(h_engine(eng)); s += p->registerGElement<Nd>(&other, {}, "o"); s += p->registerGGroup(&g, {other}, "g");
  } else { p->setGEngineType(h_engine(eng)); for (int i = 0; i < n; i++) s += p->registerGElement<Nd>(&e[i], {}, "n"); }
  SYM_ASSERT(s.isOK(), "registration succeeds");
  bool any = false;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && sym_bool("edge")) { r[i][j] = any = true; if (viaOp) (*e[i]) > e[j]; else { s = e[j]->addDependGElements({e[i]}); SYM_ASSERT(s.isOK(), "a dependency between elements of one group is accepted"); } }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
  bool cyc = false; for (int i = 0; i < n; i++) cyc |= r[i][i];
  __sym_sched(1);
  s = p->init();
  if (cyc) { SYM_ASSERT(s.isErr(), "init of a cyclic graph fails"); for (int i = 0; i < n + grp; i++) SYM_ASSERT(h_runs[i] == 0, "no body runs when init fails"); __sym_reach("cyclic");
    h_reset(); GPipelinePtr q = p; s = q->process(); SYM_ASSERT(s.isErr(), "process of a cyclic graph fails"); for (int i = 0; i < n + grp; i++) SYM_ASSERT(h_runs[i] == 0, "no body runs when the graph is cyclic"); }
  else { SYM_ASSERT(s.isOK(), "init of an acyclic graph succeeds"); s = p->run(); SYM_ASSERT(s.isOK(), "run of an acyclic graph succeeds"); for (int i = 0; i < n + grp; i++) SYM_ASSERT(h_runs[i] == 1, "every element runs once"); s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_reach("acyclic"); }
  __sym_sched(0); GPipelineFactory::remove(p);
  __sym_reach("end");
}
