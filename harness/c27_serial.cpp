// C27: makeSerial: accepted pipelines run every element once, in order, on the caller's thread, without worker threads; refused ones still run as before.
#include "h.h"
static int probe27; static bool dep27[MAXE][MAXE];
struct Fn : GFunction {};
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), kind = sym_opt("group", -1), inner = sym_opt("inner", -1), kids = sym_opt("kids", 2), as = sym_opt("async", 1), cfg = sym_opt("configs", 1), runs = sym_opt("runs", 2); for (int i = 0; i < MAXE; i++) h_match[i] = true; h_choose = 0; h_wait = kids;
  GPipelinePtr p = h_pipe(3); CStatus s; GElementPtr e[MAXE] = {}, g = nullptr, g2 = nullptr; int want[MAXE] = {}; bool asy = false, chain = true; UThreadPool* tp = nullptr; int eng = 0;
  int base = 0; bool sub = inner >= 0 && kind != K_CLUSTER; (void)sub;
  if (kind >= 0) { GElementPtrArr ch; int m = inner >= 0 ? kids + 1 : kids; for (int i = 0; i < m; i++) { e[i] = p->createGNode<Nm>(GElementPtrSet(), "c", 1); want[i] = 1; }
    if (inner >= 0) { GElementPtrArr in; for (int i = 1; i < m; i++) in.push_back(e[i]); g2 = h_wrap(p, inner, in, "i"); ch = {e[0], g2}; if (inner == K_REGION && m > 2 && sym_bool("rdep")) { s += e[2]->addDependGElements({e[1]}); dep27[2][1] = true; } if (inner == K_CLUSTER || inner == K_MULTIS) for (int i = 2; i < m; i++) dep27[i][i - 1] = true; if (inner == K_COND) for (int i = 2; i < m; i++) want[i] = 0; if (kind >= K_MULTIS) for (int i = 1; i < m; i++) want[i] = 0; }
    else for (int i = 0; i < m; i++) ch.push_back(e[i]);
    g = h_wrap(p, kind, ch); if (kind == K_REGION && ch.size() > 1 && sym_bool("odep")) { s += ch[1]->addDependGElements({ch[0]}); for (int i = 1; i < m; i++) if (inner >= 0 || i == 1) dep27[i][0] = true; }
    if (kind == K_CLUSTER || kind == K_MULTIS) for (int i = 1; i < m; i++) if (inner >= 0) dep27[i][0] = true; else dep27[i][i - 1] = true;
    if (kind == K_COND) for (int i = 1; i < m; i++) want[i] = 0;
    s += p->registerGGroup(&g, {}, "g", 1); base = m; }
  for (int i = base; i < n + base; i++) { GElementPtrSet d; int deps = 0; if (g && sym_bool("gdep")) { d.insert(g); for (int j = 0; j < base; j++) dep27[i][j] = true; deps++; } else if (g) chain = false; for (int j = base; j < i; j++) { bool b = sym_bool("dep"); if (b) { d.insert(e[j]); dep27[i][j] = true; deps++; } if (b != (j == i - 1)) chain = false; } if (g && (deps && i > base)) chain = false; s += p->registerGElement<Nm>(&e[i], d, "n"); want[i] = 1; }
  SYM_ASSERT(s.isOK(), "registration succeeds"); const int tot = n + base; if (kind >= 0) chain = false;
  if (as) { int a = sym_pick("asyncAt", tot + 1 + (g2 ? 2 : g ? 1 : 0)); GElementPtr t = a < tot ? e[a] : a == tot ? nullptr : a == tot + 1 ? g : g2; if (t) { t->setTimeout(3600000); asy = true; } }
  if (sym_opt("bind", 0)) { int b = sym_pick("bindAt", tot + 1); if (b < tot) e[b]->setBindingIndex(0); }
  int c = cfg > 1 ? sym_pick("config", cfg) : 0; if (c == 1) p->setGEngineType(GEngineType::STATIC); if (c == 2) p->setGEngineType(GEngineType::TOPO); if (c == 3) { tp = new UThreadPool(true, h_cfg(2)); p->setSharedThreadPool(tp); } (void)eng;
  s = p->makeSerial(); bool ok = s.isOK(); if (chain && !asy && c == 0) SYM_ASSERT(ok, "a chain of nodes can be made serial"); if (asy || c) SYM_ASSERT(!ok, "what cannot run serially is refused"); __sym_reach(ok ? "serial" : "refused"); if (g && ok) __sym_reach("group");
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  if (ok) { std::thread t([] { probe27 = (int)__sym_tid(); }); t.join(); SYM_ASSERT(probe27 == 1, "a serial pipeline has no worker threads"); }
  for (int r = 0; r < runs; r++) { h_reset(); s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); for (int i = 0; i < tot; i++) { SYM_ASSERT(h_runs[i] == want[i], "every element is executed exactly once"); if (ok) SYM_ASSERT(!h_runs[i] || h_tid[i] == 0, "every element runs on the calling thread"); for (int j = 0; j < tot; j++) if (dep27[i][j] && h_runs[i] && h_runs[j]) SYM_ASSERT(h_beg[i] > h_end[j], "elements run in dependency order"); } }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); if (tp) delete tp; __sym_reach("end");
}
