// C09: clusters (nested, repeated, next to other elements) run their children strictly in order, stop at the first failing child and report its error.
#include "h.h"
static int h_log[64], h_nlog = 0, fail_at[MAXE];
struct N9 : Nd { CStatus run() override { SYM_ASSERT(h_active[id] == 0, "not entered twice"); if (h_nlog < 64) h_log[h_nlog++] = id; h_runs[id]++; h_beg[id] = ++h_seq; h_active[id] = 1; __sym_visible(); h_active[id] = 0; h_end[id] = ++h_seq; return fail_at[id] && h_runs[id] == fail_at[id] ? CStatus(h_rc[id], "boom") : CStatus(); } };
extern "C" void harness_main() {
  const int n = sym_opt("children", 3), nest = sym_opt("nest", 0), eng = sym_opt("engine", 0), runs = sym_opt("runs", 2), par = sym_opt("parallel", 0), maxl = sym_opt("maxloop", 2);
  GPipelinePtr p = h_pipe(2); p->setGEngineType(h_engine(eng)); CStatus s; GElementPtr c[MAXE] = {}, g = nullptr, in = nullptr, x = nullptr, z = nullptr; int loop[MAXE], gl = 1 + sym_pick("gloop", maxl), il = 1;
  for (int i = 0; i < n; i++) { c[i] = p->createGNode<N9>(GElementPtrSet(), "c", 1); loop[i] = 1; if (maxl > 1 && i == 0) { loop[0] = 1 + sym_pick("loop", maxl); c[0]->setLoop(loop[0]); } }
  GElementPtrArr ch; const int s0 = nest == 2 ? 0 : 1, s1 = nest == 2 ? n - 1 : n;   // children s0..s1 are in a nested cluster
  if (nest && n > 1) { GElementPtrArr sub; for (int i = s0; i < s1; i++) sub.push_back(c[i]); in = p->createGGroup<GCluster>(sub, {}, "in", 1); il = 1 + sym_pick("iloop", maxl); in->setLoop(il); if (nest == 2) ch = {in, c[n - 1]}; else ch = {c[0], in}; } else for (int i = 0; i < n; i++) ch.push_back(c[i]);
  g = p->createGGroup<GCluster>(ch, {}, "g", gl); s = p->registerGGroup(&g, {}, "g", gl); if (par) s += p->registerGElement<N9>(&x, {}, "x"); s += p->registerGElement<N9>(&z, {g}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds");
  int bad = sym_pick("bad", n + 1), at = bad < n ? 1 + sym_pick("at", 3) : 0, code = bad < n ? (int)sym_range("code", -1000000, -1) : 0; const int zi = ((N9*)z)->id, xi = x ? ((N9*)x)->id : -1;
  if (bad < n) { fail_at[((N9*)c[bad])->id] = at; h_rc[((N9*)c[bad])->id] = code; }
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); h_nlog = 0; s = p->run();
    int want[64], k = 0, cnt[MAXE] = {}; bool dead = false;                     // reference
    for (int a = 0; a < gl && !dead; a++) { auto one = [&](int i) { for (int q = 0; q < loop[i] && !dead; q++) { want[k++] = i; if (i == bad && ++cnt[i] == at) dead = true; } };
      for (int i = 0; i < n && !dead; i++) { if (nest && i >= s0 && i < s1) { if (i == s0) for (int b = 0; b < il && !dead; b++) for (int j = s0; j < s1 && !dead; j++) one(j); } else one(i); } }
    int got = 0; for (int i = 0; i < h_nlog; i++) { int id = h_log[i]; if (id == zi || id == xi) continue; SYM_ASSERT(got < k && id == want[got], "children run one after another in the given order"); got++; }
    SYM_ASSERT(got == k, "every child of every iteration runs until one fails"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) SYM_ASSERT(!h_active[i], "no child is left running");
    if (dead) { SYM_ASSERT(s.isErr() && s.getCode() == code, "the error of the failing child is reported"); SYM_ASSERT(h_runs[zi] == 0, "the successor of a failed cluster does not run"); __sym_reach("failed"); }
    else { SYM_ASSERT(s.isOK(), "the run succeeds"); SYM_ASSERT(h_runs[zi] == 1 && h_log[h_nlog - 1] == zi || par, "the successor runs after the cluster"); SYM_ASSERT(h_runs[zi] == 1, "the successor runs once"); for (int i = 0; i < n; i++) SYM_ASSERT(h_end[i] < h_beg[zi], "after all children"); if (par) SYM_ASSERT(h_runs[xi] == 1, "the neighbour runs once"); __sym_reach("full"); }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
