// C42: parameters handed to elements, aspects, daemons, events and stages are private copies of the values given; values are free 32-bit integers.
#include "h.h"
static const char* TXT42[2] = {"short", "a text that is too long for the small string buffer"};
struct P1 : GPassedParam { int v = 0; std::string t; CVoid clone(GPassedParam* p) override { v = ((P1*)p)->v; t = ((P1*)p)->t; } };
struct P2 : GPassedParam { int v = 0, w = 0; CVoid clone(GPassedParam* p) override { v = ((P2*)p)->v; w = ((P2*)p)->w; } };
static const char* K42[3] = {"k", "a key that is too long for the small string buffer", "none"};
static int type42[2][2], val42[2][2], txt42[2][2], live42;                    // reference: element, key -> type (0 nothing), value
struct Rd : GNode { int me = 0; CStatus run() override { for (int k = 0; k < 3; k++) check(k); if (sym_opt("write", 0)) { P1* p = getEParam<P1>(K42[0]); if (p) { p->v++; val42[me][0] = p->v; } } return CStatus(); }
  void check(int k) { int ty = k < 2 ? type42[me][k] : 0; P1* a = getEParam<P1>(K42[k]); P2* b = getEParam<P2>(K42[k]); SYM_ASSERT((a != nullptr) == (ty == 1) && (b != nullptr) == (ty == 2), "a lookup finds exactly what was added, with its own type"); SYM_ASSERT(getEParam<GPassedParam>(K42[k]) == nullptr, "a lookup with another type yields nothing");
    if (a) SYM_ASSERT(a->v == val42[me][k] && a->t == TXT42[txt42[me][k]], "the element sees the values given when the parameter was added"); if (b) SYM_ASSERT(b->v == val42[me][k] && b->w == val42[me][k] + 1, "the element sees the values given when the parameter was added"); if (a || b) __sym_reach("found"); } };
struct Wrap : GTemplateNode<int, std::string> { int a; std::string b; Wrap(int x, std::string y) : a(x), b(y) {} CStatus run() override { SYM_ASSERT(a == val42[0][0] && b == TXT42[1], "a template node keeps its arguments"); __sym_reach("template"); return CStatus(); } };
// receivers
static int exp42[4][2], seen42[4], nA42; static bool nul42;
static void ok42(int r, int i, GPassedParam* p, bool untyped = true) { seen42[r]++; if (nul42) { SYM_ASSERT(!p, "no parameter was given"); return; } P1* q = (P1*)p; (void)untyped; SYM_ASSERT(q && q->v == exp42[r][i] && q->t == TXT42[1], "the receiver sees the values given when it was added"); q->v++; exp42[r][i]++; }
struct As : GAspect { int me = nA42++; CStatus beginRun() override { if (nul42) { bool t = false; try { getAParam<P1>(); } catch (const CException&) { t = true; } SYM_ASSERT(t, "an aspect without a parameter says so"); seen42[0]++; return CStatus(); } P1* p = getAParam<P1>(); ok42(0, me, p); SYM_ASSERT(getAParam<P2>() == nullptr, "a lookup with another type yields nothing"); return CStatus(); } };
struct At : GTemplateAspect<int> { int a; explicit At(int x) : a(x) {} CStatus beginRun() override { SYM_ASSERT(a == val42[0][0], "a template aspect keeps its arguments"); __sym_reach("template"); return CStatus(); } };
struct Dm : GDaemon { CVoid daemonTask(GDaemonParamPtr p) override { ok42(1, 0, p); } };
template <int K> struct Ev : GEvent { CVoid trigger(GEventParamPtr p) override { ok42(2, K, p); } };
template <int K> struct St : GStage { CVoid launch(GStageParamPtr p) override { ok42(3, K, p); } };
struct Us : GNode { CStatus run() override { CStatus s = notify("e0", GEventType::SYNC); s += notify("e1", GEventType::SYNC); s += enterStage("s0"); s += enterStage("s1"); CGRAPH_SLEEP_MILLISECOND(15); return s; } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 3), runs = sym_opt("runs", 2), eng = sym_opt("engine", 0), grp = sym_opt("group", 0); GPipelinePtr p = h_pipe(2); CStatus s; p->setGEngineType(h_engine(eng));
  if (mode == 0) {
    GElementPtr e[2]; for (int i = 0; i < 2; i++) { e[i] = h_node<Rd>(p); ((Rd*)e[i])->me = i; } GElementPtr g = grp ? h_wrap(p, grp, {e[0], e[1]}) : nullptr; if (g) s = p->registerGGroup(&g, {}, "g", 1); else for (int i = 0; i < 2; i++) s += p->registerGNode(&e[i], {}, "n", 1); SYM_ASSERT(s.isOK(), "registration succeeds");
    P1 a; P2 b; for (int i = 0; i < len; i++) {
      int op = sym_pick("op", 4), m = sym_pick("element", 2), k = sym_pick("key", 2), v = sym_int("value"); 
      if (op == 0) { int t = sym_pick("text", 2); a.v = v; a.t = TXT42[t]; e[m]->addEParam<P1>(K42[k], &a); type42[m][k] = 1; val42[m][k] = v; txt42[m][k] = t; } else if (op == 1) { b.v = v; b.w = v + 1; e[m]->addEParam<P2>(K42[k], &b); type42[m][k] = 2; val42[m][k] = v; }
      else if (op == 2) { a.v += v; a.t = "changed"; b.v -= v; b.w = v; } else { bool t = false; try { e[m]->addEParam<P1>(K42[k], (P1*)nullptr); } catch (const CException&) { t = true; } SYM_ASSERT(t, "no parameter cannot be added"); } }
    s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); bool t = false; try { e[0]->addEParam<P1>(K42[0], &a); } catch (const CException&) { t = true; } SYM_ASSERT(t, "parameters are added before init only");
    for (int r = 0; r < runs; r++) { s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); } s = p->destroy(); for (int m = 0; m < 2; m++) for (int k = 0; k < 3; k++) ((Rd*)e[m])->check(k);
  } else if (mode == 1) {
    nul42 = sym_bool("none"); P1 a; a.t = TXT42[1]; P1* q = nul42 ? nullptr : &a; const int da = sym_opt("daemon", 0); GElementPtr e = nullptr, f = nullptr; s += p->registerGElement<Us>(&e, {}, "u", 1); s += p->registerGElement<Nd>(&f, {e}, "n", 1); auto nv = [&](int r, int i) { a.v = exp42[r][i] = sym_int("v"); };
    nv(0, 0); e->addGAspect<As, P1>(q); nv(0, 1); f->addGAspect<As, P1>(q); val42[0][0] = sym_int("tv"); e->addGAspect<At>(val42[0][0]);
    if (da) { nv(1, 0); p->addGDaemon<Dm, P1>(10, q); } nv(2, 0); p->addGEvent<Ev<0>, P1>("e0", q); nv(2, 1); p->addGEvent<Ev<1>, P1>("e1", q); nv(3, 0); p->addGStage<St<0>, P1>("s0", 1, q); nv(3, 1); p->addGStage<St<1>, P1>("s1", 1, q);
    a.v = sym_int("later"); int dup = 0; try { p->addGEvent<Ev<1>, P1>("e0", q); } catch (const CException&) { dup++; } try { p->addGStage<St<1>, P1>("s0", 2, q); } catch (const CException&) { dup++; } SYM_ASSERT(dup == 2, "a key holds one object: a second one is refused"); a.t = "changed"; SYM_ASSERT(s.isOK(), "registration succeeds");
    for (int q2 = 0; q2 < 2; q2++) { s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds"); for (int r = 0; r < runs; r++) { seen42[0] = seen42[2] = seen42[3] = 0; s = p->run(); SYM_ASSERT(s.isOK(), "the run succeeds"); SYM_ASSERT(seen42[0] == 2 && seen42[2] == 2 && seen42[3] == 2, "every receiver ran"); } s = p->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); } if (da && seen42[1]) __sym_reach("daemon");
  } else {
    val42[0][0] = sym_int("tv"); std::string t = TXT42[1]; GTemplateNodePtr<int, std::string> w = nullptr; s = p->registerGElement<Wrap, int, std::string>(&w, {}, val42[0][0], t); SYM_ASSERT(s.isOK(), "registration succeeds"); t = "changed"; s = p->process(runs); SYM_ASSERT(s.isOK(), "process succeeds");
  }
  GPipelineFactory::remove(p); __sym_reach("end");
}
