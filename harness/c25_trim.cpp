// C25/C26: all acyclic graphs over n elements (edges free): trimming gives exactly the transitive reduction; maximum parallelism and separation are exact.
#include "h.h"
struct A25 : GNode { CStatus run() override { return CStatus(); } };
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 4), what = sym_opt("what", 0), grp = sym_opt("group", 0), late = sym_opt("late", 0), outer = sym_opt("outer", 0); int dep = 0; GElementPtr in2 = nullptr, o = nullptr;
  GPipelinePtr p = h_pipe(2); GElementPtr e[MAXE] = {}, r = nullptr; bool ed[MAXE][MAXE] = {}, cl[MAXE][MAXE] = {}, dir[MAXE][MAXE] = {}; CStatus s; GElementPtrArr ch;
  for (int j = 0; j < n; j++) { if (grp) { e[j] = p->createGNode<A25>(GElementPtrSet(), "n", 1); ch.push_back(e[j]); } else s += p->registerGElement<A25>(&e[j], {}, "n"); }
  const int rev = sym_opt("reverse", 0); for (int j = 0; j < n; j++) for (int q = 0; q < j; q++) { int i = rev ? j - 1 - q : q; if ((ed[i][j] = sym_bool("edge"))) s += e[j]->addDependGElements({e[i]}); }
  if (late) for (int j = 0; j < n; j++) e[j]->setLevel(sym_pick("level", late + 1));
  if (grp) { r = h_wrap(p, grp == 1 ? K_REGION : grp == 2 ? K_CLUSTER : grp == 3 ? K_MULTIP : K_COND, ch); if (!outer) s += p->registerGGroup(&r, {}, "r"); else { in2 = p->createGNode<A25>(GElementPtrSet(), "y", 1); dep = sym_pick("deep", 3); if (dep == 1) s += in2->addDependGElements({r}); if (dep == 2) s += r->addDependGElements({in2}); GElementPtr mid = outer > 1 ? p->createGGroup<GCluster>({r}, {}, "m") : r; if (outer > 1 && dep) { s = dep == 1 ? in2->removeDepend(r) : r->removeDepend(in2); s += dep == 1 ? in2->addDependGElements({mid}) : mid->addDependGElements({in2}); } o = p->createGGroup<GRegion>({mid, in2}, {}, "o"); s += p->registerGGroup(&o, {}, "o"); } }
  SYM_ASSERT(s.isOK(), "registration succeeds");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) cl[i][j] = ed[i][j]; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (cl[i][k] && cl[k][j]) cl[i][j] = true;
  if (what == 0) {
    unsigned want = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (ed[i][j]) { bool red = false; for (int k = 0; k < n; k++) red |= cl[i][k] && cl[k][j]; if (red) want++; else dir[i][j] = true; }
    CSize got = p->trim(); SYM_ASSERT(got == want, "the reported number of removed edges is exact"); if (want) __sym_reach("trimmed");
    for (int i = 0; i < n; i++) { GElementRelation rel = e[i]->getRelation(); unsigned np = 0, ns = 0;
      for (int j = 0; j < n; j++) { bool pre = false, suc = false; for (auto* x : rel.predecessors_) pre |= x == e[j]; for (auto* x : rel.successors_) suc |= x == e[j]; SYM_ASSERT(pre == dir[j][i], "exactly the implied dependencies are removed"); SYM_ASSERT(suc == dir[i][j], "both directions agree"); np += dir[j][i]; ns += dir[i][j]; }
      SYM_ASSERT(rel.predecessors_.size() == np && rel.successors_.size() == ns, "each kept dependency is recorded once"); }
    SYM_ASSERT(p->trim() == 0, "trimming again removes nothing"); if (sym_opt("init", 0)) { __sym_sched(1); s = p->process(); __sym_sched(0); SYM_ASSERT(s.isOK(), "the trimmed pipeline runs"); }
  } else if (what == 1) {
    unsigned best = 0; for (int m = 1; m < (1 << n); m++) { bool ok = true; unsigned c = 0; for (int i = 0; i < n; i++) if (m >> i & 1) { c++; for (int j = i + 1; j < n; j++) if (m >> j & 1) ok &= !cl[i][j]; } if (ok && c > best) best = c; }
    if (grp) { bool th = false; try { (void)p->getMaxPara(); } catch (const CException&) { th = true; } SYM_ASSERT(th, "with groups the analysis is refused"); } else SYM_ASSERT(p->getMaxPara() == best, "the largest set of pairwise independent elements"); __sym_reach("para");
  } else {
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool w = i != j && (grp == 0 || grp == 1 ? cl[i][j] || cl[j][i] : grp == 3 ? false : true); SYM_ASSERT(p->checkSeparate(e[i], e[j]) == w, "separate exactly when they can never run at the same time"); }
    if (outer) {                                                                // a group one level deeper, beside another element
      for (int i = 0; i < n; i++) { bool w = dep != 0; SYM_ASSERT(p->checkSeparate(e[i], in2) == w && p->checkSeparate(in2, e[i]) == w, "separate exactly when they can never run at the same time, on different levels"); SYM_ASSERT(p->checkSeparate(e[i], o) && p->checkSeparate(o, e[i]), "a group and what is in it count as related"); } __sym_reach("deep"); }
    if (grp) for (int i = 0; i < n; i++) SYM_ASSERT(p->checkSeparate(e[i], r) && p->checkSeparate(r, e[i]), "a group and its child count as related"); __sym_reach("sep");
  }
  GPipelineFactory::remove(p); __sym_reach("end");
}
