// C47: parameters under their lock are used by one at a time; a parameter with a trace knows who asked for it, and elements know what they asked for.
#include "h.h"
struct P47 : GParam { int v = 0, in = 0; }; struct Q47 : GParam { int v = 0; };
static GEvent* v47; static GEvent* w47;
static int bad47, got47[MAXE], tryn47, ev47, evNull;
static void crit47(P47* p, int how) {                                                                        // a critical section, taken in one of the ways there are
  if (how == 0) { CGRAPH_PARAM_WRITE_CODE_BLOCK(p) if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; }
  else if (how == 1) { p->lock(); if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; p->unlock(); }
  else if (how == 2) { while (!p->tryLock()) CGRAPH_YIELD(); if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; p->unlock(); }
  else if (how == 3) { CGRAPH_PARAM_READ_CODE_BLOCK(p) CGRAPH_PARAM_WRITE_CODE_BLOCK(p) if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; }        // recursive
  else { if (p->tryLock()) { if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; p->unlock(); } else tryn47++; }
}
static int how47[MAXE];
struct N47 : Nd { CStatus run() override { h_runs[id]++; P47* p = getGParam<P47>("k"); if (!p) return CStatus("none"); got47[id]++; crit47(p, how47[id]); return CStatus(); } };
struct V47 : GEvent { V47() { v47 = this; } CVoid trigger(GEventParamPtr) override { P47* p = getGParam<P47>("k"); Q47* q = getGParam<Q47>("q"); if (!p || !q) { evNull++; return; } CGRAPH_PARAM_WRITE_CODE_BLOCK(p) if (p->in++) bad47++; int x = p->v; __sym_visible(); p->v = x + 1; p->in--; ev47++; } };
struct W47 : GEvent { std::atomic<int> at; W47() : at(0) { w47 = this; } CVoid trigger(GEventParamPtr) override { int i = at.fetch_add(1); if (getGParam<P47>(i % 2 ? "q" : "k")) ev47++; } };   // one event, asked for something else each time
struct E47 : Nd { CStatus run() override { h_runs[id]++; return notify("e", GEventType::ASYNC); } };
static const char* nm47(int i) { return i == 0 ? "a" : i == 1 ? "b" : ""; }
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), n = sym_opt("nodes", 2), runs = sym_opt("runs", 1); CStatus s; GPipelinePtr p = h_pipe(sym_opt("pool", 2)); p->setGEngineType(h_engine(sym_opt("engine", 0))); GElementPtr e[MAXE] = {};
  if (mode == 0) {                                                                                           // elements at the same time, each with its way to lock
    for (int i = 0; i < n; i++) { s += p->registerGElement<N47>(&e[i], {}, "n", 1); how47[i] = sym_opt("how", -1) >= 0 ? sym_opt("how", 0) : (int)sym_pick("how", 5); } bool trace = sym_bool("trace"); s += p->createGParam<P47>("k", trace); SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < runs; r++) { bad47 = tryn47 = 0; P47* k = p->getGParam<P47>("k"); int v = k->v; s = p->run(); SYM_ASSERT(s.isOK(), "run succeeds"); SYM_ASSERT(!bad47, "a locked parameter is used by one at a time"); SYM_ASSERT(k->v == v + n - tryn47, "no change is lost"); SYM_ASSERT(k->tryLock(), "the lock is free afterwards"); k->unlock(); if (tryn47) __sym_reach("busy");
      if (trace) { auto t = k->getBacktrace(); SYM_ASSERT(t.size() == 2, "everybody who asked is recorded once"); bool pn = false, nn = false; for (auto& x : t) if (x == "n") nn = true; else pn = true; SYM_ASSERT(pn && nn, "under its name"); } }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0);
  } else if (mode == 1) {                                                                                    // events at the same time
    for (int i = 0; i < n; i++) s += p->registerGElement<E47>(&e[i], {}, "n", 1); p->addGEvent<V47>("e"); s += p->createGParam<P47>("k", sym_bool("trace")); s += p->createGParam<Q47>("q"); SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); P47* k = p->getGParam<P47>("k");
    for (int r = 0; r < runs; r++) { ev47 = evNull = bad47 = 0; int v = k->v; s = p->run(); SYM_ASSERT(s.isOK(), "run succeeds"); SYM_ASSERT(!evNull && ev47 == n && !bad47 && k->v == v + n, "notifications at the same time find their parameters, and lose nothing under the lock"); auto c = v47->getConcernedGParamKeys(); SYM_ASSERT(c.size() == 2 && ((c[0] == "k" && c[1] == "q") || (c[0] == "q" && c[1] == "k")), "an event knows what it asked for"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0);
  } else if (mode == 3) {                                                                                    // an event that asks for different parameters at the same time
    for (int i = 0; i < n; i++) s += p->registerGElement<E47>(&e[i], {}, "n", 1); p->addGEvent<W47>("e"); s += p->createGParam<P47>("k", sym_bool("trace")); s += p->createGParam<P47>("q"); SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); ev47 = 0;
    s = p->run(); SYM_ASSERT(s.isOK() && ev47 == n, "run succeeds"); auto c = w47->getConcernedGParamKeys(); SYM_ASSERT(c.size() == 2 && c[0] != c[1] && (c[0] == "k" || c[0] == "q") && (c[1] == "k" || c[1] == "q"), "an event knows all it asked for, also when it was asked at the same time");
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0);
  } else if (mode == 2) {                                                                                    // who asked for what: sequences against a model
    const int len = sym_opt("len", 4); for (int i = 0; i < 3; i++) { s += p->registerGElement<N47>(&e[i], {}, nm47(i), 1); } SYM_ASSERT(s.isOK(), "registration succeeds"); std::string who[3] = {"a", "b", e[2]->getName().empty() ? e[2]->getSession() : e[2]->getName()}; const char* K[] = {"k", "q"}; bool have[2] = {}, trace[2] = {}; int tr[2][8], ntr[2] = {}; bool conc[3][2] = {}, was[3][2] = {};
    for (int i = 0; i < len; i++) { int op = sym_pick("op", 5), k = sym_pick("key", 2), w = op == 1 ? sym_pick("who", 3) : 0; GParam* g = nullptr; N47* el = (N47*)e[w];
      if (op == 0) { bool t = sym_bool("trace"); s = p->createGParam<P47>(K[k], t); SYM_ASSERT(s.isOK(), "create succeeds"); if (!have[k]) { have[k] = true; trace[k] = t; ntr[k] = 0; for (int q = 0; q < 3; q++) { if (conc[q][k]) was[q][k] = true; conc[q][k] = false; } } }
      else if (op == 1) { g = el->getGParam<P47>(K[k]); SYM_ASSERT(!!g == have[k], "what is there is found"); if (g) { conc[w][k] = true; bool in = false; for (int q = 0; q < ntr[k]; q++) if (tr[k][q] == w) in = true; if (!in) tr[k][ntr[k]++] = w; } }
      else if (op == 2) { s = p->removeGParam(K[k]); SYM_ASSERT(s.isOK() == have[k], "what is there is removed"); have[k] = false; }
      else if (op == 3 && have[k]) { g = p->param_manager_->get<P47>(K[k]); g->cleanBacktrace(); ntr[k] = 0; }
      else if (op == 4 && have[k]) { g = p->param_manager_->get<P47>(K[k]); s = g->addBacktrace("a"); SYM_ASSERT(s.isOK() == trace[k], "a trace needs to be switched on"); bool in = false; for (int q = 0; q < ntr[k]; q++) if (tr[k][q] == 0) in = true; if (!in && trace[k]) tr[k][ntr[k]++] = 0; }
      for (k = 0; k < 2; k++) if (have[k]) { g = p->param_manager_->get<P47>(K[k]); SYM_ASSERT(g && g->getKey() == K[k], "a parameter knows its key"); bool th = false; std::vector<std::string> t; try { t = g->getBacktrace(); } catch (const CException&) { th = true; } SYM_ASSERT(th == !trace[k], "only a parameter with a trace has one"); if (!th) { SYM_ASSERT((int)t.size() == ntr[k], "everybody who asked is recorded once"); for (int q = 0; q < ntr[k]; q++) SYM_ASSERT(t[q] == who[tr[k][q]], "in the order of their first request"); __sym_reach("traced"); } }
      for (w = 0; w < 3; w++) { auto c = ((N47*)e[w])->getConcernedGParamKeys(); for (k = 0; k < 2; k++) { int cnt = 0; for (auto& x : c) if (x == K[k]) cnt++; if (have[k]) SYM_ASSERT(cnt == (conc[w][k] ? 1 : 0) || (was[w][k] && cnt == 1), "an element knows what it asked for"); else SYM_ASSERT(cnt <= 1, "once"); } } }
  }
  GPipelineFactory::remove(p); __sym_reach("end");
}
