// C03/C04: any elements of any DAG fail with any negative code (or report any positive one) on every schedule: run returns, its code is that of an element that
// really failed, nothing that depends on a failed element runs, and the following run is unaffected.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), eng = sym_opt("engine", 0), pool = sym_opt("pool", 2), runs = sym_opt("runs", 2), warn = sym_opt("warn", 0), shape = sym_opt("shape", -1), mode = sym_opt("mode", 0), macro = sym_opt("macro", 0);
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng));
  GElementPtr e[MAXE] = {}; bool r[MAXE][MAXE] = {}; CStatus s;
  for (int j = 0; j < n; j++) {
    GElementPtrSet dep;
    for (int i = 0; i < j; i++) { bool ed = shape < 0 ? sym_bool("edge") : (shape >> (j * (j - 1) / 2 + i)) & 1; if (ed) { r[i][j] = true; dep.insert(e[i]); } }
    s += p->registerGElement<Nv>(&e[j], dep, "n"); if (macro && (macro > 1 || sym_bool("macro"))) e[j]->setMacro(true);
  }
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][k] && r[k][j]) r[i][j] = true;
  bool bad[MAXE]; bool anyBad = false;
  for (int i = 0; i < n; i++) { bad[i] = sym_bool("fails"); anyBad |= bad[i]; h_rc[i] = bad[i] ? (int)sym_range("code", -1000000, -1) : warn ? (int)sym_range("wcode", 0, 1000000) : 0; }
  __sym_sched(1);
  s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int k = 0; k < runs; k++) {
    h_reset(); s = p->run();
    bool failedRun = false, codeSeen = false;
    for (int i = 0; i < n; i++) if (bad[i] && h_runs[i]) { failedRun = true; codeSeen |= s.getCode() == h_rc[i]; }
    if (anyBad) { SYM_ASSERT(failedRun, "some failing element was executed"); SYM_ASSERT(s.isErr(), "a run with a failed element returns an error"); SYM_ASSERT(codeSeen, "the error of run is the code of an element that failed"); __sym_reach("failed"); }
    else { SYM_ASSERT(!s.isErr(), "a run in which nothing failed returns no error"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[i] == 1, "every element runs once"); }
    for (int i = 0; i < n; i++) { SYM_ASSERT(h_runs[i] <= 1, "no element runs twice"); for (int j = 0; j < n; j++) if (r[i][j] && bad[i]) SYM_ASSERT(h_runs[j] == 0, "nothing that depends on a failed element runs"); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (r[i][j] && h_runs[j]) SYM_ASSERT(h_runs[i] == 1 && h_end[i] && h_end[i] < h_beg[j], "dependencies finish first, failing or not");
    if (k + 1 < runs && sym_bool("heal")) { for (int i = 0; i < n; i++) { bad[i] = false; h_rc[i] = 0; } anyBad = false; }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds after failures");
  for (int i = 0; i < n; i++) SYM_ASSERT(h_active[i] == 0, "no body is still running after destroy");
  __sym_sched(0); GPipelineFactory::remove(p);
  __sym_reach("end");
}
