// C06: loop counts 0..max and hold answers, on a node and on groups: the body (the whole content) is repeated exactly loop + held times, and both stop at the first error.
#include "h.h"
static int hold_left[3], fail_at = 0, fail_id = -1, warn = 0;
static bool h_holdAsk(int w) { if (hold_left[w] > 0) { hold_left[w]--; return true; } return false; }
struct N6 : Nd { bool top = false; CStatus run() override { CStatus s = Nd::run(); if (fail_id == id && h_runs[id] == fail_at) return CStatus(-7, "boom"); return warn ? CStatus(warn, "note") : s; } CBool isHold() override { return top && h_holdAsk(0); } };
struct HC : GCluster { CBool isHold() override { return h_holdAsk(0); } };
struct HR : GRegion { CBool isHold() override { return h_holdAsk(0); } };
struct HM : GMutable { CStatus reshape(GElementPtrArr& es) override { for (auto* e : es) e->setVisible(true); return CStatus(); } CBool isHold() override { return h_holdAsk(0); } };
struct HN : GCondition { CBool isHold() override { return h_holdAsk(0); } CIndex choose() override { return 0; } };
extern "C" void harness_main() {
  const int kind = sym_opt("kind", 0), eng = sym_opt("engine", 0), maxLoop = sym_opt("maxloop", 3), inner = sym_opt("inner", 0);
  GPipelinePtr p = h_pipe(2); p->setGEngineType(h_engine(eng)); CStatus s; int n = kind == 0 ? 1 : 2;
  int loop = sym_pick("loop", maxLoop + 1), hold = loop ? sym_pick("hold", 3) : 0, inloop = 1; GElementPtr t = nullptr, z = nullptr; N6* c[2] = {};
  if (kind == 0) { s = p->registerGElement<N6>(&t, {}, "t", loop); c[0] = (N6*)t; c[0]->top = true; }
  else {
    for (int i = 0; i < 2; i++) c[i] = p->createGNode<N6>(GElementPtrSet(), "c", 1);
    if (inner) { inloop = 1 + sym_pick("inloop", 2); c[0]->setLoop(inloop); }
    GElementPtrArr a{c[0], c[1]};
    switch (kind) { case 1: t = p->createGGroup<HC>(a, {}, "g", loop); break; case 2: t = p->createGGroup<HR>(a, {}, "g", loop); break; case 3: t = p->createGGroup<HM>(a, {}, "g", loop); inloop = 1; break; default: t = p->createGGroup<HN>(a, {}, "g", loop); n = 1; }
    s = p->registerGGroup(&t, {}, "g", loop);
  }
  SYM_ASSERT(s.isOK(), "registration succeeds"); s = p->registerGElement<Nd>(&z, {t}, "z"); SYM_ASSERT(s.isOK(), "registration succeeds");
  int times = loop ? loop + hold : 0; bool fails = kind != 2 && sym_bool("fails"); if (fails) { fail_id = sym_pick("who", n); fail_at = 1 + sym_pick("when", 4); }
  if (sym_opt("warn", 1)) warn = (int)sym_range("warning", 0, 1000000);         // a positive status is not an error
  __sym_sched(1); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < 2; r++) {
    h_reset(); hold_left[0] = hold; s = p->run();
    bool hit = fails && times * (fail_id == 0 ? inloop : 1) >= fail_at; SYM_ASSERT(s.isErr() == hit, "the run fails exactly when a repetition failed");
    if (!hit) { SYM_ASSERT(h_runs[c[0]->id] == times * inloop, "the body runs exactly its loop count plus its held repetitions"); if (n == 2) SYM_ASSERT(h_runs[c[1]->id] == times, "the whole content of a group is repeated"); SYM_ASSERT(h_runs[((Nd*)z)->id] == 1, "the successor runs once"); __sym_reach("full"); }
    else {
      SYM_ASSERT(s.getCode() == -7, "the error of the repetition is returned"); SYM_ASSERT(h_runs[fail_id] == fail_at, "repetition stops at the first error"); SYM_ASSERT(h_runs[((Nd*)z)->id] == 0, "the successor does not run after an error"); __sym_reach("failed");
      if (n == 2 && kind == 1) SYM_ASSERT(fail_id == 0 ? h_runs[1] == (fail_at - 1) / inloop : h_runs[0] == fail_at * inloop, "the group stops with its failing child");
    }
  }
  s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
