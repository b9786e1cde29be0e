// C11: conditions: every 32-bit choice, every subset of matching children, serial and parallel, repeated, with failing children.
#include "h.h"
static int asked = 0, ch_at[8];
struct HC11 : GCondition { protected: CIndex choose() override { return ch_at[asked++ & 7]; } };
struct N11 : Nm { CStatus run() override { h_runs[id]++; ++h_seq; h_beg[id] = h_seq; h_active[id]++; __sym_visible(); h_active[id]--; h_end[id] = ++h_seq; return h_status(h_rc[id]); } };
extern "C" void harness_main() {
  const int n = sym_opt("children", 3), kind = sym_opt("kind", 0), eng = sym_opt("engine", 0), runs = sym_opt("runs", 2), pool = sym_opt("pool", 2), fails = sym_opt("fails", 1), gl = 1 + (sym_opt("loops", 0) ? sym_pick("gloop", 2) : 0), nested = sym_opt("nested", 0);
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); CStatus s; GElementPtr c[MAXE] = {}, g = nullptr, z = nullptr; GElementPtrArr ch;
  for (int i = 0; i < n; i++) { c[i] = p->createGNode<N11>(GElementPtrSet(), "c", 1); ch.push_back(nested && i == 0 ? p->createGGroup<GCluster>({c[i]}, {}, "in", 1) : c[i]); }
  if (kind == 0) g = p->createGGroup<HC11>(ch, {}, "g", gl); else if (kind == 1) g = p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>(ch, {}, "g", gl); else g = p->createGGroup<GMultiCondition<GMultiConditionType::PARALLEL>>(ch, {}, "g", gl);
  s = p->registerGGroup(&g, {}, "g", gl); s += p->registerGElement<N11>(&z, {g}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds"); const int zi = ((N11*)z)->id;
  for (int i = 0; i < n; i++) if (fails && sym_bool("fails")) h_rc[i] = (int)sym_range("code", -1000000, -1);
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); asked = 0; int want[MAXE] = {}; int code = 0; bool failed = false, okCode = false;
    if (kind == 0) { for (int k = 0; k < gl; k++) { int v = sym_int("choose"); ch_at[k] = v; if (failed) continue; for (int i = 0; i < n; i++) if (v == i || (v == -1 && i == n - 1)) { want[i]++; if (h_rc[i]) { failed = true; code = h_rc[i]; } } } }
    else { for (int i = 0; i < n; i++) h_match[i] = nested && i == 0 ? false : sym_bool("match"); for (int k = 0; k < gl && !failed; k++) for (int i = 0; i < n; i++) if (h_match[i] && !(failed && kind == 1)) { want[i]++; if (h_rc[i]) { failed = true; code = h_rc[i]; } } }
    s = p->run();
    for (int i = 0; i < n; i++) { SYM_ASSERT(h_runs[i] == want[i], "exactly the selected children run"); okCode |= want[i] && h_rc[i] && s.getCode() == h_rc[i]; }
    SYM_ASSERT(s.isErr() == failed, "the run fails exactly when a selected child fails"); if (failed) { SYM_ASSERT(kind == 2 ? okCode : s.getCode() == code, "with the error of that child"); SYM_ASSERT(h_runs[zi] == 0, "the successor does not run"); __sym_reach("failed"); }
    else { SYM_ASSERT(h_runs[zi] == 1, "the successor runs"); for (int i = 0; i < n; i++) if (want[i]) SYM_ASSERT(h_end[i] < h_beg[zi], "all selected children finish before the group does"); __sym_reach("full"); }
    if (kind == 1) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (want[i] && want[j] && gl == 1) SYM_ASSERT(h_end[i] < h_beg[j], "a serial multi-condition runs its children in order");
    for (int i = 0; i < n; i++) SYM_ASSERT(!h_active[i], "no child is left running");
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
