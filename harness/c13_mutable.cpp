// C13: a mutable group runs, every time, exactly the graph its reshape hook has just described.
#include "h.h"
static bool e13[MAXE][MAXE], single13[MAXE]; static int n13, rc13, loop13[MAXE], via13;
struct Mu : GMutable { CStatus reshape(GElementPtrArr& c) override {
  if (rc13) return h_status(rc13);
  for (int i = 0; i < n13; i++) { for (int j = 0; j < n13; j++) if (e13[i][j]) { if (via13) (*c[i]) & c[j]; else (*c[i]) > c[j]; } if (single13[i]) (*c[i])--; if (loop13[i] != 1) (*c[i]) * (CSize)loop13[i]; }
  return CStatus(); } };
extern "C" void harness_main() {
  const int n = n13 = sym_opt("nodes", 3), runs = sym_opt("runs", 2), pool = sym_opt("pool", 2), eng = sym_opt("engine", 0), fails = sym_opt("fails", 0), back = sym_opt("back", 1), loops = sym_opt("loops", 0), first = sym_opt("first", -1), groups = sym_opt("groups", 0);
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr x = nullptr, g = nullptr, z = nullptr; GElementPtrArr ch; CStatus s = p->registerGElement<Nv>(&x, {}, "x"); const int b = h_next;
  for (int i = 0; i < n; i++) ch.push_back(p->createGNode<Nv>(GElementPtrSet(), "c", 1));
  if (groups) ch[n - 1] = p->createGGroup<GCluster>({ch[n - 1]});                // the last child is a group
  g = p->createGGroup<Mu>(ch); s += p->registerGGroup(&g, {x}, "g"); s += p->registerGElement<Nv>(&z, {g}, "z"); const int zi = b + n; SYM_ASSERT(s.isOK(), "registration succeeds"); SYM_ASSERT(((Nd*)z)->id == zi, "ids");
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    bool vis[MAXE] = {}, cl[MAXE][MAXE] = {}, cyc = false, bad = false; rc13 = sym_opt("refuse", 0) && sym_bool("refuse") ? -9 : 0; via13 = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { e13[i][j] = i != j && (r == 0 && first >= 0 ? i < j && ((first >> (j * (j - 1) / 2 + i)) & 1) : (i < j || back) && sym_bool("edge")); cl[i][j] = e13[i][j]; if (e13[i][j]) vis[i] = vis[j] = true; }
    for (int i = 0; i < n; i++) { single13[i] = !vis[i] && (r == 0 && first >= 0 ? 1 : sym_bool("single")); vis[i] |= single13[i]; loop13[i] = loops && vis[i] ? 1 + sym_pick("loop", 2) : 1; h_rc[b + i] = fails && vis[i] && sym_bool("fails") ? -5 - i : 0; bad |= h_rc[b + i] != 0; }
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cl[i][j] |= cl[i][k] && cl[k][j]; for (int i = 0; i < n; i++) cyc |= cl[i][i];
    h_reset(); s = p->run(); SYM_ASSERT(h_runs[b - 1] == 1, "what the group depends on runs");
    if (rc13 || cyc) { SYM_ASSERT(s.isErr() && (!rc13 || s.getCode() == -9), "a refused or cyclic reshape is an error"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[b + i] == 0, "nothing of a refused or cyclic graph runs"); SYM_ASSERT(h_runs[zi] == 0, "what depends on the group does not run"); __sym_reach(cyc ? "cycle" : "refused"); continue; }
    bool any = false;
    for (int i = 0; i < n; i++) { int id = b + i; SYM_ASSERT(h_active[id] == 0, "no child is still running"); if (!bad) SYM_ASSERT(h_runs[id] == (vis[i] ? loop13[i] : 0), "exactly the children of this reshape run"); else SYM_ASSERT(h_runs[id] <= (vis[i] ? loop13[i] : 0), "only the children of this reshape run"); any |= h_runs[id] && h_rc[id];
      for (int j = 0; j < n; j++) if (cl[i][j] && h_runs[b + j]) SYM_ASSERT(h_runs[id] && !h_rc[id] && h_end[id] < h_beg[b + j], "the dependencies of this reshape are respected"); }
    if (bad) { SYM_ASSERT(s.isErr() && any && h_runs[zi] == 0, "an error of a child is the group's"); __sym_reach("failed"); } else { SYM_ASSERT(s.isOK() && h_runs[zi] == 1, "the run succeeds"); for (int i = 0; i < n; i++) if (vis[i]) SYM_ASSERT(h_beg[b + i] > h_end[b - 1] && h_end[b + i] < h_beg[zi], "the group as a whole keeps its place"); __sym_reach("full"); }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
