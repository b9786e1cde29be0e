// C14: function elements, singletons (several uses, two pipelines), coordinators (free sizes) behave as what they wrap.
#include "h.h"
struct S14 : GNode { static int inits, runs, dests, holds, code, icode, dcode; CStatus init() override { inits++; return h_status(icode); } CStatus run() override { runs++; __sym_visible(); return h_status(code); } CStatus destroy() override { dests++; return h_status(dcode); } CBool isHold() override { return holds > 0 && holds-- > 0; } };
int S14::inits, S14::runs, S14::dests, S14::holds, S14::code, S14::icode, S14::dcode;
template <int SZ> static GElementPtr coord(GPipelinePtr p, const GElementPtrSet& d) { GElementPtr g = nullptr; CStatus s = p->registerGElement<GCoordinator<SZ>>(&g, d, "co"); SYM_ASSERT(s.isOK(), "registration succeeds"); return g; }
extern "C" void harness_main() {
  const int what = sym_opt("what", 0), eng = sym_opt("engine", 0), runs = sym_opt("runs", 2), pool = sym_opt("pool", 2); CStatus s;
  if (what == 0) {                                                              // function element
    GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr fe = nullptr; GFunctionPtr f = nullptr; GElementPtr z = nullptr; int ni = 0, nr = 0, nd = 0, loop = 1 + sym_pick("loop", 2), rc = sym_bool("fails") ? (int)sym_range("code", -1000000, -1) : 0; bool hi = sym_bool("init"), hr = sym_bool("run"), hd = sym_bool("destroy"), boom = hr && sym_bool("throws");
    s = p->registerGElement<GFunction>(&fe, GElementPtrSet(), std::string("f"), (CSize)loop); f = (GFunctionPtr)fe; s += p->registerGElement<Nd>(&z, {f}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds");
    if (hi) f->setFunction(CFunctionType::INIT, [&] { ni++; return CStatus(); }); if (hr) f->setFunction(CFunctionType::RUN, [&] { nr++; if (boom) { CGRAPH_THROW_EXCEPTION("f") } return h_status(rc); }); if (hd) f->setFunction(CFunctionType::DESTROY, [&] { nd++; return CStatus(); });
    __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK() && ni == (hi ? 1 : 0), "the init callable runs in init"); int exp = 0;
    for (int r = 0; r < runs; r++) { h_reset(); s = p->run(); bool bad = hr && (rc || boom); exp += hr ? (bad ? 1 : loop) : 0; SYM_ASSERT(nr == exp && ni == (hi ? 1 : 0) && nd == 0, "the run callable runs once per repetition"); SYM_ASSERT(s.isErr() == bad && (!bad || s.getCode() == (boom ? -996 : rc)), "its status is the element's status"); SYM_ASSERT(h_runs[0] == (bad ? 0 : 1), "the successor depends on it"); if (bad) __sym_reach("failed"); }
    s = p->destroy(); SYM_ASSERT(s.isOK() && nd == (hd ? 1 : 0) && ni == (hi ? 1 : 0), "the destroy callable runs in destroy"); __sym_sched(0); GPipelineFactory::remove(p);
  } else if (what == 1) {                                                       // singleton
    int uses = 1 + sym_pick("uses", 3), hold = sym_pick("hold", 2), rounds = 2; GPipelinePtr p = h_pipe(pool); p->setGEngineType(h_engine(eng)); GElementPtr e[4] = {}; bool chain = sym_bool("chain"); S14::code = sym_bool("fails") ? -7 : 0;
    for (int i = 0; i < uses; i++) { s += p->registerGElement<GSingleton<S14>>(&e[i], chain && i ? GElementPtrSet{e[i - 1]} : GElementPtrSet{}, "s", 1); } SYM_ASSERT(s.isOK(), "registration succeeds");
    __sym_sched(1);
    for (int q = 0; q < rounds; q++) { S14::inits = S14::dests = 0;
      if (sym_opt("hooks", 0) && sym_bool("initFails")) { S14::icode = -9; s = p->init(); SYM_ASSERT(s.isErr() && s.getCode() == -9, "a failing init of the shared instance is reported"); S14::icode = 0; S14::inits = 0; __sym_reach("initfail"); }
      s = p->init(); SYM_ASSERT(s.isOK() && S14::inits == 1, "the shared instance is initialised once for all its uses");
      for (int r = 0; r < runs; r++) { S14::runs = 0; S14::holds = uses == 1 ? hold : 0; s = p->run(); if (S14::code) { SYM_ASSERT(s.isErr() && S14::runs >= 1, "its error is the element's error"); __sym_reach("failed"); } else SYM_ASSERT(s.isOK() && S14::runs == uses + (uses == 1 ? hold : 0), "its run hook runs at every use"); }
      if (sym_opt("hooks", 0) && sym_bool("destroyFails")) { S14::dcode = -8; s = p->destroy(); SYM_ASSERT(s.isErr() && s.getCode() == -8, "a failing destroy of the shared instance is reported"); S14::dcode = 0; S14::dests = 0; __sym_reach("destfail"); }
      s = p->destroy(); SYM_ASSERT(s.isOK() && S14::dests == 1 && S14::inits == 1, "the shared instance is destroyed once"); }
    __sym_sched(0); GPipelineFactory::remove(p);
  } else if (what == 3) {                                                       // several coordinators after one another, beside another element; they may run on the very threads they release
    int sec = 1 + sym_pick("secondary", 2), n = sym_opt("coordinators", 2), alive0 = sec; UThreadPoolConfig c = h_cfg(1, sec, 1 + sec); GPipelinePtr p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(c); p->setGEngineType(h_engine(eng)); GElementPtr a = nullptr, z = nullptr, co = nullptr;
    for (int i = 0; i < n; i++) co = coord<-1>(p, co ? GElementPtrSet{co} : GElementPtrSet{}); s = p->registerGElement<Nv>(&a, {}, "a"); s += p->registerGElement<Nd>(&z, {co, a}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); auto* tp = p->schedule_.getThreadPool();
    auto alive = [&] { int k = 0; for (auto& st : tp->secondary_threads_) k += st->done_ ? 1 : 0; return k; };
    for (int r = 0; r < runs; r++) { h_reset(); s = p->run(); bool refused = alive0 < n; alive0 = refused ? 0 : alive0 - n; SYM_ASSERT(s.isOK() == !refused, "the run succeeds, or reports that too few threads are left to release"); SYM_ASSERT(alive() == alive0, "each coordinator released one thread"); SYM_ASSERT(refused || (h_runs[0] == 1 && h_runs[1] == 1), "the other elements run as usual"); if (refused) __sym_reach("refused"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  } else {                                                                      // coordinator: changes the number of secondary threads, never beyond the maximum
    int mx = 2 + sym_pick("room", 2), kind = sym_pick("kind", 4), sec = sym_pick("secondary", 2); UThreadPoolConfig c = h_cfg(1, sec, mx); GPipelinePtr p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(c); p->setGEngineType(h_engine(eng)); GElementPtr a = nullptr, z = nullptr, co = nullptr;
    s = p->registerGElement<Nd>(&a, {}, "a"); switch (kind) { case 0: co = coord<1>(p, {a}); break; case 1: co = coord<2>(p, {a}); break; case 2: co = coord<0>(p, {a}); break; default: co = coord<-1>(p, {a}); }
    s += p->registerGElement<Nd>(&z, {co}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); auto* tp = p->schedule_.getThreadPool(); int want = sec;
    auto alive = [&] { int n = 0; for (auto& st : tp->secondary_threads_) n += st->done_ ? 1 : 0; return n; };
    for (int r = 0; r < runs; r++) { h_reset(); s = p->run(); int d = kind == 0 ? 1 : kind == 1 ? 2 : kind == 2 ? 0 : -1; bool refused = d < 0 && want < -d; if (d >= 0) { int left = mx - 1 - want; want += d < left ? d : left; } else if (!refused) want += d;
      SYM_ASSERT(s.isOK() == !refused && h_runs[0] == 1 && h_runs[1] == (refused ? 0 : 1), "the run succeeds, or reports that too few threads are left to release"); SYM_ASSERT(alive() == want && tp->secondary_threads_.size() + 1 <= (size_t)mx, "the number of secondary threads follows the request within the pool's maximum"); if (refused) __sym_reach("refused"); }
    s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p);
  }
  __sym_reach("end");
}
