// C39: dependencies are recorded in both directions exactly once, or an error is reported and nothing is recorded; what was recorded is what init accepts and run obeys.
#include "h.h"
#include <algorithm>
static bool dep39[MAXE][MAXE], reg39[MAXE]; static GElementPtr el39[MAXE]; static int n39;
static int cnt39(const GElementPtrArr& a, GElementPtr e) { return (int)std::count(a.begin(), a.end(), e); }
static void same39() {
  for (int i = 0; i < n39; i++) { auto r = el39[i]->getRelation(); int np = 0, ns = 0; for (int j = 0; j < n39; j++) { np += dep39[i][j]; ns += dep39[j][i]; SYM_ASSERT(cnt39(r.predecessors_, el39[j]) == (dep39[i][j] ? 1 : 0), "every dependency is recorded once at the dependent element"); SYM_ASSERT(cnt39(r.successors_, el39[j]) == (dep39[j][i] ? 1 : 0), "and once at the element it depends on"); } SYM_ASSERT((int)r.predecessors_.size() == np && (int)r.successors_.size() == ns, "nothing else is recorded"); }
}
extern "C" void harness_main() {
  const int len = sym_opt("len", 3), eng = sym_opt("engine", 0), grp = sym_opt("group", 1), foreign = sym_opt("foreign", 0), width = sym_opt("width", 2), late = sym_opt("late", 0); GPipelinePtr p = h_pipe(3), q = foreign ? h_pipe(2) : nullptr; int group[MAXE] = {}, gi = -1;
  // elements: 0,1 registered nodes; 2 a created, not registered node; 3,4 children of a region; 5 the region; 6 a node of another pipeline
  CStatus s; for (int i = 0; i < 5; i++) el39[i] = h_node<Nv>(p); n39 = 5; for (int i = 0; i < 2; i++) { s += p->registerGNode(&el39[i], {}, "n", 1); reg39[i] = true; }
  if (grp) { el39[5] = h_wrap(p, grp, {el39[3], el39[4]}); s += p->registerGGroup(&el39[5], {}, "g", 1); gi = 5; group[3] = group[4] = 1; reg39[3] = reg39[4] = reg39[5] = true; n39 = 6; } else { for (int i = 3; i < 5; i++) { s += p->registerGNode(&el39[i], {}, "n", 1); reg39[i] = true; } }
  const int other = n39; if (foreign) { el39[n39] = h_node<Nd>(q); s += q->registerGNode(&el39[n39], {}, "o", 1); n39++; } SYM_ASSERT(s.isOK(), "registration succeeds");
  if (sym_opt("invalid", 0)) {                                                                        // what can never be registered is refused without an effect
    GElementPtr none = nullptr, a = el39[0], c = h_wrap(p, K_CLUSTER, {h_node<Nd>(p)}, "c"), kid = el39[3]; int w = sym_pick("which", 7); bool ok = false;
    if (w == 0) ok = p->registerGElement<GCluster>(&none, {}, "x", 1).isOK(); else if (w == 1) ok = p->registerGNode(&none, {}, "x", 1).isOK(); else if (w == 2) ok = p->registerGGroup(&none, {}, "x", 1).isOK(); else if (w == 3) ok = p->registerGNode(&a, {el39[1]}, "x", 1).isOK();
    else if (w == 4) ok = p->registerGGroup(&a, {el39[1]}, "x", 1).isOK(); else if (w == 5) ok = p->registerGElement<GRegion>(&c, {el39[1]}, "x", 1).isOK(); else ok = grp ? p->registerGNode(&kid, {el39[1]}, "x", 1).isOK() : p->registerGNode(&c, {el39[1]}, "x", 1).isOK();
    SYM_ASSERT(!ok, "an element that is null, of another type, registered already or part of a group cannot be registered"); same39(); __sym_reach("invalid"); }
  for (int k = 0; k < len; k++) {
    const int only = sym_opt("remove", 0); int op = only ? (k % 2 ? 6 : sym_pick("op", 2)) : sym_pick("op", sym_opt("ops", 4)), from = n39, t; GElementPtrSet d; bool bad = false; int ds[4], nd = 0; t = op == 0 || (op >= 3 && op != 6) ? n39 : sym_pick("target", n39); if (t == other && foreign) continue;
    if (op == 3) { if (reg39[2]) continue; t = 2; } bool self = false; int w = op == 2 || op == 6 ? 1 : width;
    for (int i = 0; i < w; i++) { int c = sym_pick("dep", from + 1); if (c == from) { if (op == 2 || op == 6) continue; d.insert(nullptr); bad = true; } else { d.insert(el39[c]); ds[nd++] = c; if (c == t) self = true; int gt = t < n39 ? group[t] : 0; if (group[c] != gt) bad = true; } } (void)self;
    if (op == 0 || op == 3) {                                                                           // a new node, or the created one, registered with dependencies
      GElementPtr e = op == 3 ? el39[2] : nullptr; int x = n39; if (op == 3) x = 2; else if (n39 >= MAXE - 1) continue; s = op == 3 ? p->registerGNode(&e, d, "x", 1) : p->registerGElement<Nv>(&e, d, "x", 1); SYM_ASSERT(s.isErr() == bad, "registration fails exactly when a dependency is invalid");
      if (!bad) { el39[x] = e; reg39[x] = true; if (op == 0) n39++; for (int i = 0; i < nd; i++) if (ds[i] != x) dep39[x][ds[i]] = true; __sym_reach("registered"); } else { if (op == 0 && !e) { } __sym_reach("refused"); }
    } else if (op == 6) {                                                                             // removing a dependency
      GElementPtr g = ds[0] >= 0 && nd ? el39[ds[0]] : nullptr; bool have = g && dep39[t][ds[0]]; s = el39[t]->removeDepend(g); SYM_ASSERT(s.isOK() == have, "removing a dependency succeeds exactly when it is there"); if (have) { dep39[t][ds[0]] = false; __sym_reach("removed"); }
    } else if (op >= 4) {                                                                             // a node or group created with dependencies, not registered yet
      if (n39 + 2 >= MAXE) continue; GElementPtr e = nullptr, kid = op == 5 ? h_node<Nv>(p) : nullptr; bool thrown = false; try { if (op == 4) e = p->createGNode<Nv>(GNodeInfo(d, "x", 1)); else e = p->createGGroup<GCluster>(GElementPtrArr{kid}, d, "x", 1); } catch (const CException&) { thrown = true; }
      SYM_ASSERT(thrown == bad, "creation fails exactly when a dependency is invalid"); if (!bad) { el39[n39] = e; for (int i = 0; i < nd; i++) dep39[n39][ds[i]] = true; n39++; if (op == 5) { el39[n39] = kid; group[n39] = n39; n39++; } __sym_reach("created"); if (sym_bool("register")) { int x = op == 5 ? n39 - 2 : n39 - 1; s = op == 4 ? p->registerGNode(&e, {}, "y", 1) : p->registerGGroup(&e, {}, "y", 1); SYM_ASSERT(s.isOK(), "what was created can be registered"); reg39[x] = true; if (op == 5) reg39[x + 1] = true; } }
    } else if (op == 1) { s = el39[t]->addDependGElements(d); SYM_ASSERT(s.isErr() == bad, "adding dependencies fails exactly when one is invalid"); if (!bad) for (int i = 0; i < nd; i++) if (ds[i] != t) dep39[t][ds[i]] = true; }
    else if (nd) { bool thrown = false; try { *el39[ds[0]] > el39[t]; } catch (const CException&) { thrown = true; } SYM_ASSERT(thrown == bad, "the operator throws exactly when the dependency is invalid"); if (!bad && ds[0] != t) dep39[t][ds[0]] = true; }
    same39();
  }
  if (late && !reg39[2] && sym_bool("wrap")) { GElementPtr w = h_wrap(p, sym_bool("region") ? K_REGION : K_CLUSTER, {el39[2]}, "w"); s = p->registerGGroup(&w, {}, "w", 1); SYM_ASSERT(s.isOK(), "registration succeeds"); group[2] = 2; reg39[2] = true; }
  bool mixed = false, cyc = false; for (int i = 0; i < n39; i++) for (int j = 0; j < n39; j++) if (dep39[i][j] && (reg39[i] != reg39[j] || group[i] != group[j])) mixed = true;
  bool re[MAXE][MAXE]; for (int i = 0; i < n39; i++) for (int j = 0; j < n39; j++) re[i][j] = dep39[i][j] && reg39[i] && reg39[j]; for (int k = 0; k < n39; k++) for (int i = 0; i < n39; i++) for (int j = 0; j < n39; j++) if (re[i][k] && re[k][j]) re[i][j] = true; for (int i = 0; i < n39; i++) if (re[i][i]) cyc = true;
  p->setGEngineType(h_engine(eng)); s = p->init(); if (mixed) { SYM_ASSERT(s.isErr(), "a dependency between a registered and an unregistered or foreign element is refused"); __sym_reach("mixed"); }
  else if (cyc && grp != K_REGION) { } else if (cyc) { SYM_ASSERT(s.isErr(), "a cycle is refused"); }
  else { SYM_ASSERT(s.isOK(), "what was recorded without an error can be initialised"); h_reset(); s = p->run(); SYM_ASSERT(s.isOK(), "and run"); bool ord = grp == K_REGION;
    for (int i = 0; i < n39; i++) if (i != gi && !el39[i]->isGGroup() && !(foreign && i == other)) { int id = ((Nd*)el39[i])->id; SYM_ASSERT(h_runs[id] == (reg39[i] ? 1 : 0), "exactly the registered elements run"); for (int j = 0; j < n39; j++) if (j != gi && !el39[j]->isGGroup() && dep39[i][j] && reg39[i] && (ord || !group[i])) SYM_ASSERT(h_beg[id] > h_end[((Nd*)el39[j])->id], "every recorded dependency is obeyed"); }
    p->destroy(); __sym_reach("ran"); }
  GPipelineFactory::remove(p); if (q) GPipelineFactory::remove(q); __sym_reach("end");
}
