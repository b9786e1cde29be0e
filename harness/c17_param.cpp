// C17: pipeline parameters: one object per key, typed, set up and reset around every run.
#include "h.h"
static int nset, nreset, live17, code17, ord17, setAt, resetAt, setrc;
template <int K> struct Pr : GParam { int v = 0; Pr() { live17++; } ~Pr() override { live17--; } int rc = 0; CStatus setup() override { nset++; setAt = ++h_seq; return h_status(rc ? rc : setrc); } CVoid reset(const CStatus& s) override { nreset++; resetAt = ++h_seq; code17 = s.getCode(); } };
typedef Pr<0> P0; struct P1 : P0 {};                              // related types are different types all the same
static int r17[2], same17[2]; static void* got17[2]; static int kind17[2];
struct User : Nd { CStatus run() override { CStatus s = Nd::run(); return s; } void body() override { __sym_visible(); } };
template <class T> static void mk(GElement* e, int i) { r17[i] = ((User*)e)->createGParam<T>("k").isOK(); got17[i] = ((User*)e)->getGParam<T>("k"); }
struct Maker : User { int k = 0; CStatus run() override { int i = k; if (kind17[i] == 0) mk<P0>(this, i); else mk<P1>(this, i); return CStatus(); } };
static int evAt[2], evN; struct Ev17 : GEvent { CVoid trigger(GEventParamPtr) override { __sym_visible(); SYM_ASSERT(getGParam<P0>("x"), "an event finds the parameter"); int k = evN++; if (k < 2) evAt[k] = ++h_seq; } };
struct Not17 : User { CStatus run() override { CStatus s = Nd::run(); SYM_ASSERT(notify("e", sym_opt("sync", 0) ? GEventType::SYNC : GEventType::ASYNC).isOK(), "notify is accepted"); return s; } };
static int deep17, asp17;
struct Deep17 : User { CBool isMatch() override { return true; } CStatus run() override { P0* x = getGParam<P0>("x"); SYM_ASSERT(x && x->v == 3, "an element finds the parameter"); CStatus s = createGParam<P0>("made"); SYM_ASSERT(s.isOK(), "an element makes a parameter"); getGParamWithNoEmpty<P0>("made")->v++; s = notify("e", GEventType::SYNC); s += enterStage("s"); SYM_ASSERT(s.isOK(), "an element reaches events and stages"); deep17++; return s; } };
struct As17 : GAspect { CStatus beginRun() override { asp17 += getGParam<P0>("x") != nullptr; return CStatus(); } CVoid finishRun(const CStatus&) override { asp17 += getGParam<P0>("made") != nullptr; } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 4), runs = sym_opt("runs", 2); CStatus s;
  if (mode == 0) {                                                              // sequences of operations against a model
    GPipelinePtr p = h_pipe(1); const char* K[] = {"a", "b"}; int type[2] = {-1, -1}; GParam* obj[2] = {}; int val[2] = {};
    for (int i = 0; i < len; i++) { int k = sym_pick("key", 2), t = sym_pick("type", 2);
      switch (sym_pick("op", 4)) {
        case 0: { s = t ? p->createGParam<P1>(K[k]) : p->createGParam<P0>(K[k]); SYM_ASSERT(s.isOK() == (type[k] < 0 || type[k] == t), "create succeeds unless the key has another type"); if (type[k] < 0) { type[k] = t; val[k] = 0; obj[k] = t ? (GParam*)p->getGParam<P1>(K[k]) : (GParam*)p->getGParam<P0>(K[k]); SYM_ASSERT(obj[k], "a created parameter is found"); } break; }
        case 1: { void* g = t ? (void*)p->getGParam<P1>(K[k]) : (void*)p->getGParam<P0>(K[k]); SYM_ASSERT(type[k] == t ? g == (void*)obj[k] : g == nullptr, "get yields the one object of that key and type"); if (g) { int* v = t ? &((P1*)g)->v : &((P0*)g)->v; SYM_ASSERT(*v == val[k], "its value stays"); *v = val[k] = sym_int("value"); SYM_ASSERT(((GParam*)g)->getKey() == K[k], "it knows its key"); } break; }
        case 2: { s = p->removeGParam(K[k]); SYM_ASSERT(s.isOK() == (type[k] >= 0), "remove succeeds for an existing key only"); type[k] = -1; obj[k] = nullptr; break; }
        default: { bool threw = false; void* g = nullptr; try { g = t ? (void*)p->getGParamWithNoEmpty<P1>(K[k]) : (void*)p->getGParamWithNoEmpty<P0>(K[k]); } catch (const CException&) { threw = true; } SYM_ASSERT(threw == (type[k] != t) && (threw || g == (void*)obj[k]), "the strict get throws when there is nothing to get"); }
      }
      int n = (type[0] >= 0) + (type[1] >= 0); SYM_ASSERT(live17 == n && p->getGParamKeys().size() == (size_t)n, "one object per key, removed ones are gone");
    }
    if (sym_opt("run", 1)) { s = p->init(); for (int r = 0; r < runs && s.isOK(); r++) { nset = nreset = 0; s = p->run(); SYM_ASSERT(nset == live17 && nreset == live17, "every parameter is set up and reset once per run"); } s += p->destroy(); SYM_ASSERT(s.isOK(), "an empty pipeline with parameters runs"); }
    GPipelineFactory::remove(p); SYM_ASSERT(live17 == 0, "the pipeline releases its parameters");
  } else if (mode == 1) {                                                       // setup before all elements, reset after them, with the status
    GPipelinePtr p = h_pipe(2); p->setGEngineType(h_engine(sym_opt("engine", 0))); GElementPtr a = nullptr, b = nullptr; s += p->registerGElement<User>(&a, {}, "a"); s += p->registerGElement<User>(&b, {}, "b"); if (sym_bool("async")) a->setTimeout(CGRAPH_MAX_BLOCK_TTL, GElementTimeoutStrategy::HOLD_BY_PIPELINE);
    s += p->createGParam<P0>("x"); SYM_ASSERT(s.isOK(), "registration succeeds"); if (sym_bool("fails")) h_rc[0] = (int)sym_range("code", -1000000, -1); bool bs = sym_bool("setupfails"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < runs; r++) { h_reset(); nset = nreset = 0; setrc = bs && r == 0 ? -3 : 0; s = p->run();
      if (setrc) { SYM_ASSERT(s.isErr() && nset == 1 && h_runs[0] + h_runs[1] == 0, "a failing setup keeps the elements from running"); __sym_reach("setupfail"); continue; }
      SYM_ASSERT(nset == 1 && nreset == 1, "set up and reset once"); for (int i = 0; i < 2; i++) if (h_runs[i]) SYM_ASSERT(setAt < h_beg[i] && h_end[i] < resetAt, "set up before and reset after every element"); SYM_ASSERT(code17 == s.getCode() && s.isErr() == (h_rc[0] != 0), "reset gets the status of the run"); if (s.isErr()) __sym_reach("failed"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  } else if (mode == 4) {                                                       // of several parameters, any one may fail to set up
    const int n = sym_opt("params", 3); GPipelinePtr p = h_pipe(1); GElementPtr a = nullptr; s += p->registerGElement<User>(&a, {}, "a"); const char* K[] = {"a", "b", "c"}; P0* q[3]; for (int i = 0; i < n; i++) { s += p->createGParam<P0>(K[i]); q[i] = p->getGParam<P0>(K[i]); } SYM_ASSERT(s.isOK(), "registration succeeds"); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < runs; r++) { h_reset(); bool any = false; for (int i = 0; i < n; i++) { q[i]->rc = r == 0 ? (int)sym_range("rc", -900, 0) : 0; if (q[i]->rc) any = true; } nset = 0; s = p->run(); SYM_ASSERT(s.isErr() == any && h_runs[0] == (any ? 0 : 1), "a run whose parameters are not all set up is an error, and runs nothing"); SYM_ASSERT(nset == n, "every parameter is asked"); if (any) __sym_reach("setupfail"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); GPipelineFactory::remove(p);
  } else if (mode == 5) {                                                       // elements at any depth, of any kind of group, see the same parameters, events and stages
    GPipelinePtr p = h_pipe(sym_opt("pool", 6)); GElementPtr in = p->createGNode<Deep17>(GElementPtrSet(), "d", 1), other = nullptr, g = in; const int depth = sym_opt("depth", 2); h_choose = 0; h_wait = 1; for (bool& b : h_match) b = true; for (int i = 0; i < depth; i++) { int k = 1 + sym_pick("kind", 7); if (i && (k == K_MULTIS || k == K_MULTIP)) k = K_CLUSTER; g = h_wrap(p, k, {g}, "g"); } s = depth ? p->registerGGroup(&g, {}, "g", 1) : p->registerGNode(&g, {}, "g", 1); s += p->registerGElement<Deep17>(&other, {g}, "o"); in->addGAspect<As17>(); SYM_ASSERT(s.isOK(), "registration succeeds"); p->addGEvent<Ev17>("e"); p->addGStage<GStage>("s", 1); s += p->createGParam<P0>("x"); ((P0*)p->getGParam<P0>("x"))->v = 3; __sym_sched(1);
    s += p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); deep17 = asp17 = evN = 0; s = p->run(); SYM_ASSERT(s.isOK() && deep17 == 2 && evN == 2 && asp17 == 2, "every element finds the parameter, the event and the stage"); P0* m = p->getGParam<P0>("made"); SYM_ASSERT(m && m->v == 2, "what an element makes, the others see");
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); SYM_ASSERT(live17 == 0, "the pipeline releases its parameters");
  } else if (mode == 3) {                                                       // events to be finished in the run are part of it
    GPipelinePtr p = h_pipe(2); GElementPtr a = nullptr; s += p->registerGElement<Not17>(&a, {}, "a"); p->addGEvent<Ev17>("e"); s += p->createGParam<P0>("x"); if (sym_bool("fails")) h_rc[0] = (int)sym_range("code", -1000, -1); __sym_sched(1); s += p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
    for (int r = 0; r < runs; r++) { h_reset(); nset = nreset = evN = 0; s = p->run(); SYM_ASSERT(nset == 1 && nreset == 1 && s.getCode() == h_rc[0], "set up and reset once"); SYM_ASSERT(evN == 1 && setAt < evAt[0] && evAt[0] < resetAt, "set up before and reset after what the run's events do"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  } else {                                                                      // two elements create the same key at the same time
    GPipelinePtr p = h_pipe(2); GElementPtr a = nullptr, b = nullptr; s += p->registerGElement<Maker>(&a, {}, "a"); s += p->registerGElement<Maker>(&b, {}, "b"); ((Maker*)b)->k = 1; kind17[0] = sym_pick("t0", 2); kind17[1] = sym_pick("t1", 2);
    __sym_sched(1); s += p->init(); s += p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); if (kind17[0] == kind17[1]) SYM_ASSERT(r17[0] && r17[1] && got17[0] && got17[0] == got17[1], "both see the same object"); else SYM_ASSERT(r17[0] + r17[1] == 1 && !!got17[0] == !!r17[0] && !!got17[1] == !!r17[1], "the first creation decides the type"); SYM_ASSERT(live17 == 1, "one object per key");
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  }
  __sym_reach("end");
}
