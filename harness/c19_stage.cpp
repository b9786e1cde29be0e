// C19: a stage is a barrier: nobody passes before the threshold, all pass then, round after round.
#include "h.h"
static int arr19, pas19, lau19, thr19, rnd19, bad19; static int pv;
struct Sp : GStageParam { int v = 0; CVoid clone(GPassedParam* p) override { v = ((Sp*)p)->v; } };
struct St : GStage { CVoid launch(GStageParamPtr p) override { __sym_visible(); lau19++; if (((Sp*)p)->v != pv) bad19++; if (arr19 < lau19 * thr19) bad19++; __sym_visible(); } };
struct En : GNode { int rounds = 1; CStatus run() override { for (int r = 0; r < rounds; r++) { arr19++; CStatus s = enterStage("s"); SYM_ASSERT(s.isOK(), "entering succeeds"); pas19++; SYM_ASSERT(lau19 > r && pas19 <= lau19 * thr19 && arr19 >= thr19 * (r + 1), "nobody passes before the threshold of the round has arrived"); } SYM_ASSERT(enterStage("?").isErr(), "an unknown key is an error"); return CStatus(); } };
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 2), rounds = sym_opt("rounds", 2), runs = sym_opt("runs", 1), eng = sym_opt("engine", 0); thr19 = sym_opt("threshold", n); CStatus s; GPipelinePtr p = h_pipe(n); p->setGEngineType(h_engine(eng));
  Sp sp; pv = sp.v = sym_int("param"); p->addGStage<St, Sp>("s", thr19, &sp); sp.v = pv + 1; bool threw = false; int bad = (int)sym_range("bad", -1000000, 0); try { p->addGStage<St>("t", bad); } catch (const CException&) { threw = true; } SYM_ASSERT(threw, "a threshold below one is refused"); if (sym_bool("twice")) { threw = false; int other = (int)sym_range("other", 1, 1000); Sp sq; sq.v = pv + 2; try { p->addGStage<St, Sp>("s", other, &sq); } catch (const CException&) { threw = true; } SYM_ASSERT(threw, "a stage that is there is not made again"); }
  for (int i = 0; i < n; i++) { GElementPtr e = nullptr; s += p->registerGElement<En>(&e, {}, "n"); ((En*)e)->rounds = rounds; } SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) { arr19 = pas19 = lau19 = 0; s = p->run(); SYM_ASSERT(s.isOK() && pas19 == n * rounds, "everybody passes"); SYM_ASSERT(lau19 * thr19 == n * rounds && !bad19, "the launch hook runs once per round, with the stage's parameter, after the threshold arrived"); }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
