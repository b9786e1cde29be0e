// C10: a region with any acyclic graph inside, between outer elements: ordering inside and outside, isolation, errors, repetition.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), eng = sym_opt("engine", 0), ie = sym_opt("inner", 0), pool = sym_opt("pool", 2), runs = sym_opt("runs", 2), fails = sym_opt("fails", 1), shape = sym_opt("shape", -1), outer = sym_opt("outer", 1), loops = sym_opt("loops", 0), late = sym_opt("late", 0), wrap = sym_opt("wrap", 0);
  GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); CStatus s; GElementPtr c[MAXE] = {}, g = nullptr, x = nullptr, y = nullptr, z = nullptr; bool e[MAXE][MAXE] = {}; GElementPtrArr ch; int gl = loops ? 1 + sym_pick("gloop", 2) : 1;
  if (outer) s += p->registerGElement<Nv>(&x, {}, "x"); const int xi = 0;
  int b = h_next;                                                               // ids of the children start here
  for (int i = 0; i < n; i++) { c[i] = p->createGNode<Nv>(GElementPtrSet(), "c", 1); ch.push_back(c[i]); }
  for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) { e[i][j] = shape < 0 ? sym_bool("edge") : (shape >> (j * (j - 1) / 2 + i)) & 1; if (e[i][j] && !late) s += c[j]->addDependGElements({c[i]}); }
  g = p->createGGroup<GRegion>(ch, {}, "g", gl); ((GRegion*)g)->setGEngineType(h_engine(ie)); for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) if (e[i][j] && late) s += c[j]->addDependGElements({c[i]});
  if (wrap) { GElementPtr w = p->createGGroup<GCluster>({g}, {}, "w", 1); s += p->registerGGroup(&w, outer ? GElementPtrSet{x} : GElementPtrSet{}, "w"); g = w; } else s += p->registerGGroup(&g, outer ? GElementPtrSet{x} : GElementPtrSet{}, "g", gl);
  if (outer > 1) s += p->registerGElement<Nv>(&y, outer ? GElementPtrSet{x} : GElementPtrSet{}, "y"); const int yi = y ? ((Nd*)y)->id : -1; s += p->registerGElement<Nv>(&z, {g}, "z"); const int zi = ((Nd*)z)->id; SYM_ASSERT(s.isOK(), "registration succeeds");
  if (outer) SYM_ASSERT(c[0]->addDependGElements({x}).isErr(), "an element inside a region cannot depend on one outside");
  for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (e[i][k] && e[k][j]) e[i][j] = true;
  bool anyBad = false; for (int i = 0; i < n; i++) if (fails && sym_bool("fails")) { h_rc[b + i] = (int)sym_range("code", -1000000, -1); anyBad = true; }
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); s = p->run(); bool seen = false, any = false; int firstBeg = 1 << 30, lastEnd = 0;
    for (int i = 0; i < n; i++) { int id = b + i; SYM_ASSERT(h_active[id] == 0, "no child is still running when run returns"); if (h_runs[id]) { any |= h_rc[id] != 0; seen |= h_rc[id] && s.getCode() == h_rc[id]; if (h_beg[id] < firstBeg) firstBeg = h_beg[id]; if (h_end[id] > lastEnd) lastEnd = h_end[id]; }
      if (!anyBad) SYM_ASSERT(h_runs[id] == gl, "each child runs once per repetition of the region"); else SYM_ASSERT(h_runs[id] <= gl, "no child runs too often");
      for (int j = 0; j < n; j++) if (e[i][j]) { if (h_rc[id]) SYM_ASSERT(h_runs[b + j] == 0, "nothing inside that depends on a failed child runs"); if (h_runs[b + j]) SYM_ASSERT(h_runs[id] && (gl > 1 || h_end[id] < h_beg[b + j]), "children obey their own dependencies"); } }
    if (outer) SYM_ASSERT(h_runs[xi] == 1 && h_end[xi] < firstBeg, "the region starts after what it depends on"); if (yi >= 0 && !anyBad) SYM_ASSERT(h_runs[yi] == 1, "a neighbour runs once");
    if (anyBad) { SYM_ASSERT(any && s.isErr() && seen, "an error of a child is the error of the region"); SYM_ASSERT(h_runs[zi] == 0, "what depends on a failed region does not run"); __sym_reach("failed"); } else { SYM_ASSERT(s.isOK(), "the run succeeds"); SYM_ASSERT(h_runs[zi] == 1 && h_beg[zi] > lastEnd, "the region has finished only when all of its children have"); __sym_reach("full"); }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
