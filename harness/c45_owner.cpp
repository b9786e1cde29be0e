// C45: whatever a pipeline was given or made is released exactly once: when it is replaced or removed, or with the pipeline, in whatever phase that is; a refused request leaves nothing behind.
#include "h.h"
#include "ostream.h"
alignas(16) char h_cout[1024] asm("_ZSt4cout");
enum { NODE, GPARAM, EPARAM, ASPECT, APARAM, DAEMON, DPARAM, EVENT, VPARAM, STAGE, SPARAM, MSG, GROUP, KINDS }; static int live45[KINDS]; static int rc45, irc45, throw45, tick45, runs45;
template <int K> struct Cn { Cn() { live45[K]++; } Cn(const Cn&) { live45[K]++; } ~Cn() { live45[K]--; } };
struct Gp : GParam { Cn<GPARAM> c; int* heap = new int(3); ~Gp() override { delete heap; } }; struct Gp2 : Gp {};
struct Ep : GElementParam { Cn<EPARAM> c; CVoid clone(GPassedParam*) override {} }; struct Ap : GAspectParam { Cn<APARAM> c; CVoid clone(GPassedParam*) override {} }; struct Dp : GDaemonParam { Cn<DPARAM> c; CVoid clone(GPassedParam*) override {} };
struct Vp : GEventParam { Cn<VPARAM> c; CVoid clone(GPassedParam*) override {} }; struct Sp : GStageParam { Cn<SPARAM> c; CVoid clone(GPassedParam*) override {} }; struct Mp : GMessageParam { Cn<MSG> c; };
struct N45 : GNode { Cn<NODE> c; CStatus init() override { if (throw45 == 2) { CGRAPH_THROW_EXCEPTION("init boom") } if (!irc45) (void)createGParam<Gp>("n"); return h_status(irc45); } CStatus run() override { runs45++; if (throw45 == 1) { CGRAPH_THROW_EXCEPTION("run boom") } return h_status(rc45); } };
struct N45b : GNode { CStatus run() override { return CStatus(); } };
struct T45 : GTemplateNode<int> { Cn<NODE> c; explicit T45(int) {} CStatus run() override { return CStatus(); } };
struct A45 : GAspect { Cn<ASPECT> c; }; struct D45 : GDaemon { Cn<DAEMON> c; CVoid daemonTask(GDaemonParamPtr) override { tick45++; } }; struct V45 : GEvent { Cn<EVENT> c; CVoid trigger(GEventParamPtr) override {} }; struct S45 : GStage { Cn<STAGE> c; };
struct TA45 : GTemplateAspect<int> { Cn<ASPECT> c; explicit TA45(int) {} }; struct TD45 : GTemplateDaemon<int> { Cn<DAEMON> c; explicit TD45(int) {} CVoid daemonTask(GDaemonParamPtr) override {} };
template <class G> struct GC : G { Cn<GROUP> c; }; typedef GMultiCondition<GMultiConditionType::SERIAL> MS; typedef GMultiCondition<GMultiConditionType::PARALLEL> MP;
static GElementPtr grp45(GPipelinePtr p, int k, const GElementPtrArr& ch, const GElementPtrSet& d) { switch (k) { case K_CLUSTER: return p->createGGroup<GC<GCluster>>(ch, d, "g"); case K_REGION: return p->createGGroup<GC<GRegion>>(ch, d, "g"); case K_COND: return p->createGGroup<GC<HCond>>(ch, d, "g"); case K_MULTIS: return p->createGGroup<GC<MS>>(ch, d, "g"); case K_MULTIP: return p->createGGroup<GC<MP>>(ch, d, "g"); case K_MUT: return p->createGGroup<GC<HMut>>(ch, d, "g"); default: return p->createGGroup<GC<HSome>>(ch, d, "g"); } }
struct Choice { int grp, phase, how, what, refuse; };
static void check45(const int* want, const char* msg) { for (int k = 0; k < KINDS; k++) SYM_ASSERT(live45[k] == want[k], msg); }
static void cycle45(const Choice& c) {                                                                      // one pipeline, from its creation to its release
  int want[KINDS] = {}; CStatus s; GPipelinePtr p = h_pipe(sym_opt("pool", 3)); p->setGEngineType(h_engine(sym_opt("engine", 0))); GElementPtr a = nullptr, b = nullptr, g = nullptr; rc45 = irc45 = throw45 = 0; int base[KINDS]; for (int k = 0; k < KINDS; k++) base[k] = live45[k]; Ep ep; Ap ap; Dp dp; Vp vp; Sp sp; h_choose = 0; h_wait = 1;
  for (int k : {EPARAM, APARAM, DPARAM, VPARAM, SPARAM}) want[k]++; for (int k = 0; k < KINDS; k++) want[k] += base[k];
  s = p->registerGElement<N45>(&a, {}, "a", 1); s += p->registerGElement<N45>(&b, {a}, "b", 2); SYM_ASSERT(s.isOK(), "registration succeeds"); want[NODE] += 2;
  if (c.what & 1) { s = p->createGParam<Gp>("k"); s += p->createGParam<Gp>("k"); s += p->createGParam<Gp2>("k2"); SYM_ASSERT(s.isOK(), "parameters are created"); want[GPARAM] += 2; check45(want, "a parameter that is there is not created again"); s = p->createGParam<Gp2>("k"); SYM_ASSERT(s.isErr(), "nor replaced by another type"); check45(want, "a refused parameter is not made"); s = p->removeGParam("k"); SYM_ASSERT(s.isOK(), "a parameter is removed"); want[GPARAM]--; check45(want, "and released"); }
  if (c.what & 2) { a->addGAspect<A45, Ap>(&ap)->addGAspect<A45>(); b->addGAspect<TA45>(3); p->addGAspect<A45, Ap>({a}, &ap); want[ASPECT] += 4; want[APARAM] += 2; check45(want, "every aspect with its own parameter"); a->addEParam<Ep>("e", &ep)->addEParam<Ep>("f", &ep); want[EPARAM] += 2; check45(want, "every element parameter is kept"); a->addEParam<Ep>("e", &ep); check45(want, "a replaced element parameter is released"); }
  if (c.what & 4) { p->addGDaemon<D45, Dp>(50, &dp); p->addGDaemon<D45>(70); p->addGDaemon<TD45>(90, 4); p->addGEvent<V45, Vp>("v", &vp); p->addGEvent<V45>("w"); p->addGStage<S45, Sp>("s", 1, &sp); p->addGStage<S45>("t", 1); want[DAEMON] += 3; want[DPARAM]++; want[EVENT] += 2; want[VPARAM]++; want[STAGE] += 2; want[SPARAM]++; check45(want, "every daemon, event and stage with its parameter"); }
  if (c.what & 8) { p->createGNode<N45>(GElementPtrSet(), "u", 1); want[NODE]++; T45* t = nullptr; t = p->registerGNode<T45, int>({a}, 3); SYM_ASSERT(t, "a node with arguments is registered"); want[NODE]++; GElementPtr x = nullptr; s = p->registerGElement<GFunction>(&x, {a}, "fn", 1); int cap[6] = {}; ((GFunction*)x)->setFunction(CFunctionType::RUN, [cap] { return CStatus(); }); s += p->registerGElement<GFence>(&x, {a}, "fe", 1); s += p->registerGElement<GCoordinator<2>>(&x, {a}, "co", 1); s += p->registerGElement<GSingleton<N45b>>(&x, {a}, "si", 1); SYM_ASSERT(s.isOK(), "adapters are registered"); }
  if (c.grp) { GElementPtr x = p->createGNode<N45>(GElementPtrSet(), "x", 1), y = p->createGNode<N45>(GElementPtrSet(), "y", 1); g = grp45(p, c.grp, {x, y}, {}); if (c.what & 16) { GElementPtr h = grp45(p, K_CLUSTER, {g}, {}); g = h; want[GROUP]++; } s = p->registerGGroup(&g, {a}, "g", 1); SYM_ASSERT(s.isOK(), "registration succeeds"); want[NODE] += 2; want[GROUP]++; if (c.what & 2) { g->addGAspect<A45>(); x->addGAspect<A45, Ap>(&ap); want[ASPECT] += 2; want[APARAM]++; } }
  check45(want, "everything the pipeline was given is there once");
  if (c.refuse) { bool th = false; GElementPtr z = nullptr, in = c.refuse == 3 ? p->createGNode<N45>(GElementPtrSet(), "in", 1) : nullptr, gg = in ? grp45(p, K_CLUSTER, {in}, {}) : nullptr; if (in) { want[NODE]++; want[GROUP]++; s = p->registerGGroup(&gg, {}, "gg", 1); SYM_ASSERT(s.isOK(), "registration succeeds"); } GElementPtr lone = c.refuse == 4 || c.refuse == 3 ? p->createGNode<N45>(GElementPtrSet(), "l", 1) : nullptr; if (lone) want[NODE]++;
    try { if (c.refuse == 1) { s = p->registerGElement<N45>(&z, {nullptr}, "z", 1); th = s.isErr(); } else if (c.refuse == 2) p->createGNode<N45>(GElementPtrSet{nullptr}, "z", 1); else if (c.refuse == 3) grp45(p, 1 + sym_pick("refused", 7), {lone}, {in}); else if (c.refuse == 4) grp45(p, K_REGION, {lone, nullptr}, {}); else if (c.refuse == 5) { p->addGEvent<V45>("v0"); want[EVENT]++; p->addGEvent<V45, Vp>("v0", &vp); } else if (c.refuse == 6) { p->addGStage<S45>("s0", 1); want[STAGE]++; p->addGStage<S45, Sp>("s0", 1, &sp); } else if (c.refuse == 7) p->addGStage<S45, Sp>("s1", 0, &sp); else if (c.refuse == 8) p->registerGNode<T45, int>({nullptr}, 3); } catch (const CException&) { th = true; }
    SYM_ASSERT(th, "the request is refused"); __sym_reach("refused"); check45(want, "a refused request leaves nothing behind"); if (lone) { GElementPtr g3 = grp45(p, K_CLUSTER, {lone}, {}); want[GROUP]++; s = p->registerGGroup(&g3, {}, "g3", 1); SYM_ASSERT(s.isOK(), "and what it was given can be used"); } }
  int made = 0, exp = c.phase; bool crashed = false; runs45 = 0;
  try {
    if (exp == 1) { irc45 = -5; s = p->init(); SYM_ASSERT(s.isErr(), "a failed init"); if (c.how & 2) { irc45 = 0; s = p->init(); SYM_ASSERT(s.isOK(), "and another"); s = p->destroy(); SYM_ASSERT(s.isOK(), "and a destroy"); made = 1; } }
    else if (exp == 2) { throw45 = 2; s = p->init(); }
    else if (exp == 3) { s = p->process((c.how & 2) ? 2 : 1); SYM_ASSERT(s.isOK(), "the pipeline runs"); made = 1; if (c.what & 8) { s = p->process(); SYM_ASSERT(s.isOK(), "the pipeline runs"); } }
    else if (exp == 4) { rc45 = -6; s = p->process(); SYM_ASSERT(s.isErr(), "the pipeline fails"); made = 1; }
    else if (exp == 5) { throw45 = 1; made = 1; s = p->process(); }
    else if (exp == 6) { s = p->init(); s += p->run(); SYM_ASSERT(s.isOK(), "the pipeline runs"); made = 1; if (c.how & 2) { s = p->destroy(); SYM_ASSERT(s.isOK(), "and is destroyed"); } }
    else if (exp == 7) { s = p->perf(h_stream()); SYM_ASSERT(s.isOK(), "perf runs the pipeline"); made = 1; }
  } catch (const CException&) { crashed = true; }
  if (exp == 2 || exp == 5) { if (!crashed) SYM_ASSERT(s.isErr(), "an exception is an error"); __sym_reach("threw"); }
  if (exp != 2) { if (made) want[GPARAM]++; check45(want, "running makes and releases nothing else"); }
  __sym_reach("release"); if (c.how & 1) s = GPipelineFactory::clear(); else s = GPipelineFactory::remove(p); SYM_ASSERT(s.isOK(), "the pipeline is released"); for (int k : {EPARAM, APARAM, DPARAM, VPARAM, SPARAM}) base[k]++; check45(base, "with the pipeline, everything it was given is released, once");
}
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0); h_stream(h_cout); CStatus s;
  if (mode == 0) {
    Choice c{sym_opt("group", 0), sym_opt("phase", -1) >= 0 ? sym_opt("phase", 0) : (int)sym_pick("phase", 8), (int)sym_pick("how", 4), sym_opt("what", -1) >= 0 ? sym_opt("what", 0) : (int)sym_pick("what", 32), sym_opt("refuse", 0) > 9 ? sym_opt("refuse", 0) - 10 : sym_opt("refuse", 0) ? (int)sym_pick("refuse", 9) : 0}; if (!c.grp && (c.what & 16)) return;
    cycle45(c); uint64_t l1 = __sym_live(); cycle45(c); uint64_t l2 = __sym_live(); SYM_ASSERT(l1 == l2, "nothing that a pipeline allocated is left behind");
  } else if (mode == 2) {                                                                                 // the factory: pipelines come and go in any order
    const int len = sym_opt("len", 4); GPipelinePtr ps[4] = {}; int n = 0; uint64_t l0 = 0; for (int r = 0; r < 2; r++) {
      for (int i = 0; i < len; i++) { int op = sym_pick("op", 3); if (op == 0 && n < 3) { ps[n] = h_pipe(1); GElementPtr a = nullptr; s = ps[n]->registerGElement<N45>(&a, {}, "a", 1); s += ps[n]->createGParam<Gp>("k"); SYM_ASSERT(s.isOK(), "registration succeeds"); n++; } else if (op == 1 && n) { int k = sym_pick("which", n); s = GPipelineFactory::remove(ps[k]); SYM_ASSERT(s.isOK(), "a pipeline is removed"); ps[k] = ps[--n]; } else if (op == 2) { s = GPipelineFactory::clear(); SYM_ASSERT(s.isOK(), "all are removed"); n = 0; } SYM_ASSERT(live45[NODE] == n && live45[GPARAM] == n, "removing releases that pipeline and no other, clearing all of them"); }
      s = GPipelineFactory::clear(); n = 0; SYM_ASSERT(s.isOK() && live45[NODE] == 0 && live45[GPARAM] == 0 && GPipelineFactory::s_pipeline_list_.empty(), "clearing releases every pipeline"); if (!r) { l0 = __sym_live(); } else SYM_ASSERT(__sym_live() == l0, "and nothing is left behind"); }
    SYM_ASSERT(GPipelineFactory::remove(nullptr).isErr(), "there is nothing to remove"); __sym_reach("release");
  } else {                                                                                                // messages
    const int len = sym_opt("len", 4); { std::shared_ptr<Mp> w(new Mp()); GMessageManagerSingleton::get()->createTopic<Mp>("w", 2); GMessageManagerSingleton::get()->sendTopicValue<Mp>("w", w, GMessagePushStrategy::WAIT); for (int i = 0; i < 8; i++) GMessageManagerSingleton::get()->bindTopic<Mp>("p", 2); GMessageManagerSingleton::get()->clear(); } SYM_ASSERT(live45[MSG] == 0, "clearing releases the messages of a topic"); uint64_t l1 = __sym_live(); auto* m = GMessageManagerSingleton::get(); int topic = 0, held = 0, conns = 0; CIndex conn[8] = {}; int cheld[8] = {};
    for (int i = 0; i < len; i++) { int op = sym_pick("op", 8);
      if (op == 0 && !topic) { s = m->createTopic<Mp>("t", 2); topic = 1; } else if (op == 1 && topic) { std::shared_ptr<Mp> x(new Mp()); s = m->sendTopicValue<Mp>("t", x, GMessagePushStrategy::DROP); if (held < 2) held++; } else if (op == 2 && topic && held) { std::shared_ptr<Mp> x; s = m->recvTopicValue<Mp>("t", x); held--; x.reset(); } else if (op == 3 && topic) { s = m->removeTopic("t"); topic = held = 0; }
      else if (op == 4 && conns < 3) { conn[conns] = m->bindTopic<Mp>("p", 2); cheld[conns++] = 0; } else if (op == 5 && conns) { std::shared_ptr<Mp> x(new Mp()); s = m->pubTopicValue<Mp>("p", x, GMessagePushStrategy::REPLACE); for (int k = 0; k < conns; k++) cheld[k]++; } else if (op == 6 && conns) { s = m->detachConnId("p", conn[--conns]); cheld[conns] = 0; } else if (op == 7 && conns) { s = m->dropTopic("p"); while (conns) cheld[--conns] = 0; } 
      SYM_ASSERT(s.isOK(), "the request is accepted"); if (!conns && !topic) SYM_ASSERT(live45[MSG] == 0, "a removed topic releases its messages"); }
    s = m->clear(); SYM_ASSERT(s.isOK() && live45[MSG] == 0, "clearing releases every message"); SYM_ASSERT(__sym_live() == l1, "and nothing is left behind"); __sym_reach("release");
  }
  __sym_reach("end");
}
