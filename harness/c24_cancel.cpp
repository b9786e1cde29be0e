// C24: cancel, suspend and resume from another thread during a run: what was not due yet when the call returned does not start.
#include "h.h"
static int call24, n24, how24, done24, started24, hold24[MAXE], held24[MAXE], cancelled24, suspended24, dep24[MAXE][MAXE], base24[MAXE], late24, total24; static bool due24[MAXE], dueS24[MAXE]; static int runsAt24[MAXE];
struct Nc : Nd { CBool isMatch() override { return true; } CStatus run() override { int k = id; if (cancelled24) { if (!due24[k]) late24++; due24[k] = false; } if (suspended24) { if (!dueS24[k]) late24++; dueS24[k] = false; } h_runs[k]++; total24++; started24++; if (!h_beg[k]) h_beg[k] = ++h_seq; h_active[k]++; __sym_visible(); h_active[k]--; h_end[k] = ++h_seq; return CStatus(); } CBool isHold() override { return hold24[id] && ++held24[id] % (hold24[id] + 1) != 0; } };
static int want24[MAXE], round24 = 1;
static void snap(bool* due) { for (int i = 0; i < n24; i++) { if (!want24[i]) { due[i] = false; continue; } bool d = h_runs[i] < want24[i] * round24 && !h_active[i]; for (int j = 0; j < n24; j++) if (dep24[i][j] && (h_runs[j] < h_runs[i] / want24[i] * want24[j] + want24[j] || h_active[j])) d = false; if (h_runs[i] && h_runs[i] % want24[i] == 0) { for (int j = 0; j < n24; j++) if (h_active[j] || h_runs[j] < h_runs[i] / want24[i] * want24[j]) d = false; } due[i] = d; } }
static void ctl(GPipelinePtr p, int k, int script, int gap) {
  while (k >= 0 && started24 <= k && !done24) sched_yield();
  auto cancel = [&] { CStatus s = p->cancel(); SYM_ASSERT(s.isOK() || call24 > 1, "cancel is accepted"); if (s.isOK()) { snap(due24); cancelled24 = 1; } };
  auto suspend = [&] { CStatus s = p->suspend(); SYM_ASSERT(s.isOK() || call24 > 1, "suspend is accepted"); if (s.isOK()) { snap(dueS24); suspended24 = 1; } if (gap) CGRAPH_SLEEP_MILLISECOND(5); };
  auto resume = [&] { suspended24 = 0; CStatus s = p->resume(); SYM_ASSERT(s.isOK() || call24 > 1, "resume is accepted"); };
  switch (script) { case 0: cancel(); break; case 1: suspend(); resume(); break; case 2: suspend(); suspended24 = 0; cancel(); break; case 3: suspend(); resume(); suspend(); resume(); break; case 4: suspend(); resume(); cancel(); break; case 5: suspend(); suspend(); resume(); resume(); break; }
}
extern "C" void harness_main() {
  const int n = n24 = sym_opt("nodes", 3), eng = sym_opt("engine", 0), call = call24 = sym_opt("call", 0), rounds = call == 2 || call == 3 ? 2 : 1, group = sym_opt("group", -1), imm = sym_opt("immediate", 0), shape = sym_opt("shape", -1); GPipelinePtr p = h_pipe(sym_opt("pool", 2)); p->setGEngineType(h_engine(eng)); GElementPtr e[MAXE] = {}; CStatus s; GElementPtr g = nullptr;
  SYM_ASSERT(p->cancel().isErr() && p->suspend().isErr() && p->resume().isErr(), "refused on a pipeline that is not initialised");
  if (group >= 0) { for (int i = 0; i < MAXE; i++) h_match[i] = true; GElementPtrArr kids; for (int i = 0; i < 2; i++) { e[i] = p->createGNode<Nc>(GElementPtrSet(), "n", 1); kids.push_back(e[i]); } if (group == K_CLUSTER || group == K_MULTIS) dep24[1][0] = 1; g = h_wrap(p, group, kids); s += p->registerGGroup(&g, {}, "g", 1); h_wait = 2; h_choose = 1; for (int i = 2; i < n; i++) { s += p->registerGElement<Nc>(&e[i], {g}, "n"); dep24[i][0] = dep24[i][1] = 1; } if (group == K_COND) dep24[2][0] = 0; }
  else for (int i = 0; i < n; i++) { GElementPtrSet d; for (int j = 0; j < i; j++) if (shape < 0 ? sym_bool("dep") : (shape >> (i * (i - 1) / 2 + j)) & 1) { d.insert(e[j]); dep24[i][j] = 1; } s += p->registerGElement<Nc>(&e[i], d, "n"); }
  const int hold = sym_opt("hold", 0), loop = sym_opt("loop", 1); for (int i = 0; i < n; i++) { want24[i] = 1; if (loop > 1 && (group < 0 || i >= 2)) { e[i]->setLoop(loop); want24[i] = loop; } if (hold) { hold24[i] = hold; want24[i] = hold + 1; } } if (group == K_COND) want24[0] = 0;
  SYM_ASSERT(s.isOK(), "registration succeeds"); const int only = sym_opt("script", -1), script = only >= 0 ? only : sym_pick("script", sym_opt("scripts", 6)), k = imm ? -1 : sym_pick("after", n), gap = sym_bool("gap"); round24 = rounds;
  __sym_sched(1); if (call < 2) { s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); }
  if (call == 0 || call == 2) { std::thread t(ctl, p, k, script, gap); s = call == 0 ? p->run() : p->process(2); done24 = 1; if (call == 0) t.join(); else t.join(); }
  else if (call == 1) { auto f = p->asyncRun(); ctl(p, k, script, gap); s = f.get(); done24 = 1; }
  else { auto f = p->asyncProcess(2); ctl(p, k, script, gap); s = f.get(); done24 = 1; }
  SYM_ASSERT(s.isOK(), "the run returns without error"); SYM_ASSERT(!late24, "no element starts that was not due when cancel or suspend returned"); bool full = true;
  for (int i = 0; i < n; i++) { SYM_ASSERT(!h_active[i] && h_runs[i] <= want24[i] * rounds, "nothing is left running, nothing runs too often"); if (h_runs[i] != want24[i] * rounds) full = false; }
  if (!cancelled24) SYM_ASSERT(full, "after resume every element is executed exactly once"); if (cancelled24 && !full) __sym_reach("cut"); __sym_reach(full ? "full" : "notfull");
  cancelled24 = suspended24 = 0; for (int i = 0; i < n; i++) base24[i] = h_runs[i]; if (call > 1) { s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); }
  for (int i = 0; i < n; i++) held24[i] = 0; s = p->run(); SYM_ASSERT(s.isOK(), "a later run succeeds"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[i] == base24[i] + want24[i], "a later run works normally"); s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds");
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
