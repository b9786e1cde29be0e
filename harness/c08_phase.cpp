// C08: every sequence of calls of bounded length against a two-phase model: refused calls return an error (or the library's exception) and change nothing, allowed ones work.
#include "h.h"
struct Pm : GParam { CVoid reset(const CStatus&) override {} };
template <class F> static bool okCall(F f) { try { CStatus s = f(); return !s.isErr(); } catch (const CException&) { return false; } }
extern "C" void harness_main() {
  const int len = sym_opt("len", 4), eng = sym_opt("engine", 0), ops = sym_opt("ops", 13), maxreg = 3;
  GPipelinePtr p = h_pipe(1); p->setGEngineType(h_engine(eng)); GElementPtr e[MAXE] = {}; int regs = 2, runs = 0, inits = 0, dests = 0; bool on = false, dep = false;
  CStatus s = p->registerGElement<Nd>(&e[0], {}, "n"); s += p->registerGElement<Nd>(&e[1], {e[0]}, "n"); SYM_ASSERT(s.isOK(), "registration succeeds");
  __sym_sched(1);
  for (int k = 0; k < len; k++) {
    int op = sym_pick("op", ops); bool ok, want;
    switch (op) {
      case 0: ok = okCall([&] { return p->init(); }); want = !on; if (want) { on = true; inits++; } break;
      case 1: ok = okCall([&] { return p->run(); }); want = on; if (want) runs++; break;
      case 2: ok = okCall([&] { return p->destroy(); }); want = on; if (want) { on = false; dests++; } break;
      case 3: ok = okCall([&] { return p->process(2); }); want = !on; if (want) { runs += 2; inits++; dests++; } break;
      case 4: if (regs >= maxreg && !on) continue; { GElementPtr t = nullptr; ok = okCall([&] { return p->registerGElement<Nd>(&t, {}, "n"); }); want = !on; if (want) { e[regs++] = t; if (inits || runs || dests) { h_runs[regs - 1] = runs; h_inits[regs - 1] = inits; h_dests[regs - 1] = dests; } } } break;
      case 5: ok = okCall([&] { p->setGEngineType(h_engine(eng)); return CStatus(); }); want = !on; break;
      case 6: ok = okCall([&] { return p->suspend(); }); want = on; if (want) { CStatus r = p->resume(); SYM_ASSERT(!r.isErr(), "resume is allowed while initialised"); } break;
      case 7: ok = okCall([&] { return p->cancel(); }); want = on; break;
      case 8: ok = okCall([&] { p->trim(); return CStatus(); }); want = !on; break;
      case 9: ok = okCall([&] { e[0]->setName("m"); return CStatus(); }); want = !on; break;
      case 10: if (regs < 3) continue; ok = okCall([&] { return e[regs - 1]->addDependGElements({e[0]}); }); want = !on; break;
      case 11: ok = okCall([&] { p->setUniqueThreadPoolConfig(h_cfg(1)); return CStatus(); }); want = !on; break;
      case 13: h_rc[1] = -7; ok = okCall([&] { return p->process(2); }); h_rc[1] = 0; SYM_ASSERT(!ok, "processing a failing graph is an error"); want = false; if (!on) { inits++; dests++; runs++; SYM_ASSERT(h_runs[0] == runs && h_runs[1] == runs, "a failing round is the last"); for (int i = 2; i < regs; i++) { SYM_ASSERT(h_runs[i] <= runs, "nothing runs twice in a round"); h_runs[i] = runs; } __sym_reach("failed"); } break;
      case 12: ok = okCall([&] { auto f = p->asyncRun(); CStatus r = f.get(); return r; }); want = on; if (want) runs++; break;
    }
    SYM_ASSERT(ok == want, want ? "an allowed call works" : "a call the phase does not allow is refused"); __sym_reach(want ? "allowed" : "refused");
    for (int i = 0; i < regs; i++) { SYM_ASSERT(h_runs[i] == runs, "every element runs once per accepted run"); SYM_ASSERT(h_inits[i] == inits && h_dests[i] == dests, "hooks are called once per accepted init and destroy"); }
  }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
