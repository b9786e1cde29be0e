// C38: perf() runs the pipeline like process(), and afterwards - whatever failed - the pipeline is what it was: same aspects, same behaviour.
#include "h.h"
#include "ostream.h"
alignas(16) char h_cout[1024] asm("_ZSt4cout");
static int asp38[4][6], ab38[4]; static bool stop38;
template <int K> struct As : GAspect {
  CStatus beginInit() override { asp38[K][0]++; return CStatus(); } CVoid finishInit(const CStatus&) override { asp38[K][1]++; } CStatus beginRun() override { asp38[K][2]++; return h_status(ab38[K]); } CVoid finishRun(const CStatus&) override { asp38[K][3]++; }
  CStatus beginDestroy() override { asp38[K][4]++; return CStatus(); } CVoid finishDestroy(const CStatus&) override { asp38[K][5]++; }
};
struct Log { int runs[MAXE], inits[MAXE], dests[MAXE], asp[4][6], code; bool thrown; };
static void zero38() { h_reset(); for (int i = 0; i < MAXE; i++) h_inits[i] = h_dests[i] = 0; for (int k = 0; k < 4; k++) for (int j = 0; j < 6; j++) asp38[k][j] = 0; }
static Log log38(CStatus s, bool thrown) { Log l; for (int i = 0; i < MAXE; i++) { l.runs[i] = h_runs[i]; l.inits[i] = h_inits[i]; l.dests[i] = h_dests[i]; } for (int k = 0; k < 4; k++) for (int j = 0; j < 6; j++) l.asp[k][j] = asp38[k][j]; l.code = s.getCode(); l.thrown = thrown; return l; }
static void same38(const Log& a, const Log& b) { for (int i = 0; i < MAXE; i++) SYM_ASSERT(a.runs[i] == b.runs[i] && a.inits[i] == b.inits[i] && a.dests[i] == b.dests[i], "perf() calls what process() calls, before and after"); for (int k = 0; k < 4; k++) for (int j = 0; j < 6; j++) SYM_ASSERT(a.asp[k][j] == b.asp[k][j], "every aspect hook as often as without perf()"); SYM_ASSERT(a.code == b.code && a.thrown == b.thrown, "with the same status"); }
static char d38[2][8192]; static size_t dn38[2]; static void dump38(GPipelinePtr p, int k) { h_outn = 0; CStatus s = p->dump(h_stream()); SYM_ASSERT(s.isOK(), "the pipeline can be drawn"); dn38[k] = h_outn < 8192 ? h_outn : 8192; memcpy(d38[k], h_out, dn38[k]); h_outn = 0; }
static Log go38(GPipelinePtr p, bool perf) { zero38(); CStatus s; bool t = false; try { s = perf ? p->perf(h_stream()) : p->process(); } catch (const CException&) { t = true; } return log38(s, t); }
extern "C" void harness_main() {
  const int n = sym_opt("nodes", 3), eng = sym_opt("engine", 0), grp = sym_opt("group", 0), times = sym_opt("perfs", 2); CStatus s; GPipelinePtr p = h_pipe(2); p->setGEngineType(h_engine(eng)); GElementPtr e[MAXE] = {}; h_stream(h_cout); bool asp[4] = {};
  for (int j = 0; j < n; j++) { GElementPtrSet d; for (int i = 0; i < j; i++) if (sym_bool("edge")) d.insert(e[i]); s += p->registerGElement<Nd>(&e[j], d, "n", 1 + (sym_opt("loops", 0) && sym_bool("loop"))); }
  GElementPtr g = nullptr; if (grp) { GElementPtr c0 = p->createGNode<Nd>(GElementPtrSet(), "c", 1), c1 = p->createGNode<Nd>(GElementPtrSet(), "c", 1); GElementPtrArr ch{c0, c1}; h_match[0] = h_match[1] = true; h_wait = 1; g = grp == 3 ? (GElementPtr)p->createGGroup<HCond>(ch) : h_wrap(p, grp, ch); s += p->registerGGroup(&g, n ? GElementPtrSet{e[0]} : GElementPtrSet(), "g", 1); e[n] = g; }
  SYM_ASSERT(s.isOK(), "registration succeeds"); const int top = n + (grp ? 1 : 0);
  if (sym_opt("aspects", 1)) for (int k = 0; k < 2 && k < top; k++) { asp[k] = sym_bool("aspect"); if (asp[k]) { if (k == 0) e[k]->addGAspect<As<0>>()->addGAspect<As<1>>(); else e[top - 1]->addGAspect<As<2>>(); } }
  int who = sym_pick("who", top + 1), where = who < n ? sym_pick("where", 3) : 0, code = sym_range("code", -1000, -1); if (code == internal::STATUS_CRASH && !sym_opt("crash", 1)) return;
  if (who < n) { int id = ((Nd*)e[who])->id; (where == 0 ? h_rc : where == 1 ? h_irc : h_drc)[id] = code; if (where == 2 && !sym_opt("destroy", 0)) return; __sym_reach("failing"); }
  if (asp[0] && sym_opt("aspfail", 0) && sym_bool("aspectFails")) ab38[0] = -7;
  if (sym_opt("drawn", 1)) dump38(p, 0); __sym_sched(1); Log a = go38(p, false); bool dfail = who < n && where == 2;
  if (!dfail) { for (int k = 0; k < times; k++) { h_outn = 0; Log b = go38(p, true); same38(a, b); if (a.code == 0 && !a.thrown) SYM_ASSERT(h_outn > 30, "a report is written"); } Log c = go38(p, false); same38(a, c); if (sym_opt("drawn", 1)) { dump38(p, 1); SYM_ASSERT(dn38[0] == dn38[1] && !memcmp(d38[0], d38[1], dn38[0]), "the pipeline is drawn as it was before perf()"); } }
  for (int i = 0; i < MAXE; i++) h_rc[i] = h_irc[i] = h_drc[i] = 0; ab38[0] = 0;
  if (!dfail) { Log d = go38(p, false); SYM_ASSERT(d.code == 0 && !d.thrown, "once the failure is gone, the pipeline runs as if perf() had not been called"); for (int i = 0; i < n; i++) SYM_ASSERT(h_runs[((Nd*)e[i])->id] >= 1, "with every element"); if (n && asp[0]) SYM_ASSERT(asp38[0][2] == asp38[1][2] && asp38[0][2] >= 1, "and its aspects"); bool ex = false; s = p->init(); try { p->perf(h_stream()); } catch (const CException&) { ex = true; } SYM_ASSERT(ex, "perf of an initialised pipeline is refused"); s = p->run(); SYM_ASSERT(s.isOK(), "and leaves it running"); p->destroy(); }
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
