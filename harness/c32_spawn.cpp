// C32: a node of any kind of group can submit a task group to the pipeline's pool while it runs, and only while it is initialised.
#include "h.h"
static int cnt32[MAXE], started32;
struct Sp : Nm { CStatus ask() { UTaskGroup g; int i = id; for (int k = 0; k < 2; k++) g.addTask([i] { __sym_visible(); cnt32[i]++; }); return spawn(g, 1000000); }
  CStatus init() override { SYM_ASSERT(ask().isErr() && !cnt32[id], "before the element is initialised nothing is submitted"); return CStatus(); }
  CStatus run() override { started32++; int c = cnt32[id]; CStatus s = ask(); SYM_ASSERT(s.isOK(), "an initialised node can submit a group"); SYM_ASSERT(cnt32[id] == c + 2, "success means that every task has finished"); return s; } };
extern "C" void harness_main() {
  const int kind = sym_opt("group", 0), inner = sym_opt("inner", 0), kids = sym_opt("kids", 2), runs = sym_opt("runs", 1), eng = sym_opt("engine", 0); for (int i = 0; i < MAXE; i++) h_match[i] = true; h_wait = kids; GPipelinePtr p = h_pipe(sym_opt("pool", 5)); p->setGEngineType(h_engine(eng)); GElementPtrArr ch; Sp* el[MAXE]; int want = 0; CStatus s;
  for (int i = 0; i < kids; i++) { ch.push_back(h_node<Sp>(p)); el[i] = (Sp*)ch.back(); } GElementPtr g = inner ? h_wrap(p, inner, ch, "i") : nullptr; if (g) ch = {g}; if (kind) { g = h_wrap(p, kind, ch); ch = {g}; } for (auto* c : ch) s += c->isGGroup() ? p->registerGGroup(&c, {}, "g", 1) : p->registerGNode(&c, {}, "n", 1); SYM_ASSERT(s.isOK(), "registration succeeds");
  want = (kind == K_COND || inner == K_COND) ? 1 : kids; __sym_sched(1); for (int q = 0; q < 2; q++) { s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); for (int r = 0; r < runs; r++) { started32 = 0; s = p->run(); SYM_ASSERT(s.isOK() && started32 == want, "every element runs"); } s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); SYM_ASSERT(el[0]->ask().isErr(), "after destroy nothing is submitted"); for (int i = 0; i < kids; i++) cnt32[i] = 0; }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
