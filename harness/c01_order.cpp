// C01: every DAG over n nodes (edges symbolic), every engine, several runs: each body exactly once per run (times its loop), after all it depends on.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), runs = sym_opt("runs", 2), eng = sym_opt("engine", 0), pool = sym_opt("pool", 2), macro = sym_opt("macro", 0), late = sym_opt("late", 0), loops = sym_opt("loops", 0), sec = sym_opt("secondary", 0), bind = sym_opt("bind", 0), shape = sym_opt("shape", -1);
  GPipelinePtr p = h_pipe(pool, sec); p->setGEngineType(h_engine(eng));
  GElementPtr e[MAXE] = {}; bool edge[MAXE][MAXE] = {};
  CStatus s; int loop[MAXE];
  for (int j = 0; j < n; j++) {
    GElementPtrSet dep; loop[j] = loops ? 1 + sym_pick("loop", 2) : 1;
    for (int i = 0; i < j; i++) { edge[i][j] = shape < 0 ? sym_bool("edge") : (shape >> (j * (j - 1) / 2 + i)) & 1; if (edge[i][j] && !late) dep.insert(e[i]); }
    s += p->registerGElement<Nv>(&e[j], dep, "n", loop[j]);
    if (macro && j == n - 1 && sym_bool("macro")) e[j]->setMacro(true);
    if (bind && j == n - 1) e[j]->setBindingIndex(sym_pick("binding", 4) - 2);
  }
  // with late=1 the nodes are registered first and connected afterwards, so that registration order and dependency order are independent
  if (late) { for (int j = n - 1; j >= 0; j--) for (int i = 0; i < j; i++) if (edge[i][j]) { if (late == 2) (*e[n - 1 - i]) > e[n - 1 - j]; else s += e[j]->addDependGElements({e[i]}); } }
  bool rev = late == 2;
  SYM_ASSERT(s.isOK(), "registration of an acyclic graph is accepted");
  __sym_sched(1);
  s = p->init(); SYM_ASSERT(s.isOK(), "init of an acyclic graph succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); s = p->run();
    SYM_ASSERT(s.isOK(), "a run without failures succeeds");
    for (int i = 0; i < n; i++) { SYM_ASSERT(h_runs[i] == loop[i], "each element runs exactly its loop count per run"); SYM_ASSERT(h_active[i] == 0 && h_end[i] != 0, "run returns only when every element has finished"); }
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (edge[a][b]) { int i = rev ? n - 1 - a : a, j = rev ? n - 1 - b : b; SYM_ASSERT(h_end[i] < h_beg[j], "an element starts only after those it depends on have finished"); }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds");
  __sym_sched(0); GPipelineFactory::remove(p);
  __sym_reach("end");
}
