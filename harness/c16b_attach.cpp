// C16: aspects attached through the pipeline: who gets one, which element it belongs to, what it can reach.
#include "h.h"
struct P16 : GParam { int v = 0; CVoid reset(const CStatus&) override {} };
struct Pa : GAspectParam { int v = 0; CVoid clone(GPassedParam* p) override { v = ((Pa*)p)->v; } };
static int cnt16[8][6], bad16, par16, want16;                                     // by element and phase
static const char* NM[] = {"a", "g", "x", "y", "i", "z", "f"};
static int who16(const std::string& n) { for (int i = 0; i < 7; i++) if (n == NM[i]) return i; return 7; }
struct As : GAspect {
  void hit(int ph) { cnt16[who16(getName())][ph]++; Pa* q = getAParam<Pa>(); if (!q || q->v != want16) bad16++; if (ph != 0 && ph != 1) { P16* k = getGParam<P16>("k"); if (k) par16++; else bad16++; } }
  CStatus beginInit() override { hit(0); return CStatus(); } CVoid finishInit(const CStatus& c) override { hit(1); if (!c.isOK()) bad16++; } CStatus beginRun() override { hit(2); return CStatus(); } CVoid finishRun(const CStatus& c) override { hit(3); if (!c.isOK()) bad16++; }
  CStatus beginDestroy() override { hit(4); return CStatus(); } CVoid finishDestroy(const CStatus& c) override { hit(5); if (!c.isOK()) bad16++; } };
static int tv16; struct At : GTemplateAspect<int, int> { int a, b; At(int x, int y) : a(x), b(y) {} CStatus beginRun() override { if (a == 7 && b == tv16) cnt16[who16(getName())][2] += 100; else bad16++; return CStatus(); } };
extern "C" void harness_main() {
  const int kind = sym_opt("kind", 1), inner = sym_opt("inner", 0), eng = sym_opt("engine", 0), calls = sym_opt("calls", 2), runs = sym_opt("runs", 1); CStatus s; GPipelinePtr p = h_pipe(2), o = GPipelineFactory::create(); p->setGEngineType(h_engine(eng));
  GElementPtr e[7] = {}; const int loop = 1 + sym_pick("loop", 2); s = p->registerGElement<Nm>(&e[0], {}, "a", 1); h_match[0] = false;
  e[2] = h_node<Nm>(p, "x"); e[3] = h_node<Nm>(p, "y"); GElementPtrArr ch = {e[2], e[3]}; if (inner) { e[5] = h_node<Nm>(p, "z"); e[4] = h_wrap(p, inner, {e[5]}, "i"); ch.push_back(e[4]); } h_choose = sym_pick("choose", 2); h_wait = 2; for (int i = 1; i < MAXE; i++) h_match[i] = true;
  e[1] = h_wrap(p, kind, ch, "g"); s += p->registerGGroup(&e[1], {e[0]}, "g", kind == K_SOME ? 1 : loop); s += o->registerGElement<Nm>(&e[6], {}, "f", 1); s += p->createGParam<P16>("k"); SYM_ASSERT(s.isOK(), "registration succeeds");
  const int n = inner ? 6 : 4; int has[7] = {}; Pa pa; want16 = pa.v = sym_int("param");
  for (int c = 0; c < calls; c++) { GElementPtrSet set; const int pick = sym_pick("to", 6); const int M[] = {0 /* everybody */, 1, 1 << 1 | 1 << 2, 1 << 3, 1 << 0 | 1 << 6, inner ? 1 << 5 | 1 << 1 : 1 << 6}; for (int i = 0; i < 7; i++) if (M[pick] >> i & 1) set.insert(e[i]);
    p->addGAspect<As, Pa>(set, &pa); for (int i = 0; i < n; i++) if (!M[pick] || M[pick] >> i & 1) has[i]++; }
  SYM_ASSERT(!e[6]->aspect_manager_, "an element of another pipeline gets nothing"); pa.v = 0; tv16 = sym_int("arg"); const bool tpl = sym_bool("template"); if (tpl) e[3]->addGAspect<At, int, int>(7, tv16);
  __sym_sched(1); for (int cyc = 0; cyc < sym_opt("cycles", 2); cyc++) { memset(cnt16, 0, sizeof cnt16); par16 = 0; s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); int r0[MAXE]; for (int i = 0; i < MAXE; i++) r0[i] = h_runs[i];
    for (int r = 0; r < runs; r++) { s = p->run(); SYM_ASSERT(s.isOK(), "run succeeds"); } s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds");
    for (int i = 0; i < n; i++) { const int id = i == 0 ? 0 : i == 2 ? 1 : i == 3 ? 2 : i == 5 ? 3 : -1, rn = id >= 0 ? h_runs[id] - r0[id] : i == 1 ? runs * (kind == K_SOME ? 1 : loop) : -1;
      for (int ph = 0; ph < 6; ph++) { int x = cnt16[i][ph]; if (i == 3 && ph == 2 && tpl) { SYM_ASSERT(x / 100 == rn, "an aspect made from arguments works with them"); x %= 100; }
        if (ph == 2 || ph == 3) { if (rn >= 0) SYM_ASSERT(x == has[i] * rn, "every aspect sees every execution of its element"); } else SYM_ASSERT(x == has[i], "every aspect sees init and destroy of its element once"); }
      if (has[i] > 1) __sym_reach("two"); }
    SYM_ASSERT(!cnt16[6][0] && !cnt16[7][0], "an aspect belongs to the element it was attached to"); SYM_ASSERT(!bad16, "an aspect has its own parameter, reaches the pipeline's and sees the right status"); }
  __sym_sched(0); GPipelineFactory::clear(); __sym_reach("end");
}
