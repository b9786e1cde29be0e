// C16: aspects around the phases of an element: order, status, begin errors, crashes; attached parameters; removal of the last aspect.
#include "h.h"
enum { BI = 1, FI, BR, FR, BD, FD, CR, INIT, RUN, DEST };
static int log16[400], len16, exp16[400], elen16; static void L(int who, int what, int code) { if (len16 < 400) log16[len16++] = who * 100000000 + what * 2000000 + (code + 1000000); }
static void X(int who, int what, int code) { exp16[elen16++] = who * 100000000 + what * 2000000 + (code + 1000000); }
static int failA, failPhase, failKind, codeF, holds, holdLeft, nextA;             // failing aspect (-1: the body), phase (0 init, 1 run, 2 destroy, 3 nothing), kind (0 code, 1 throw)
struct As : GAspect { int k = nextA++;
  CStatus beg(int what, int ph) { bool f = failPhase == ph && failA == k; L(k + 1, what, 0); return h_status(f ? codeF : 0); }
  CStatus beginInit() override { return beg(BI, 0); } CStatus beginRun() override { return beg(BR, 1); } CStatus beginDestroy() override { return beg(BD, 2); }
  CVoid finishInit(const CStatus& c) override { L(k + 1, FI, c.getCode()); } CVoid finishRun(const CStatus& c) override { L(k + 1, FR, c.getCode()); } CVoid finishDestroy(const CStatus& c) override { L(k + 1, FD, c.getCode()); } CVoid enterCrashed() override { L(k + 1, CR, 0); } };
struct Pa : GAspectParam { int v = 0; CVoid clone(GPassedParam* p) override { v = ((Pa*)p)->v; } };
struct Aq : As { int seen() { Pa* p = getAParam<Pa>(); return p ? p->v : -1; } };
static CStatus body(int what, int ph) { bool f = failPhase == ph && failA < 0; L(0, what, 0); if (f && failKind) { CGRAPH_THROW_EXCEPTION("body") } return h_status(f ? codeF : 0); }
struct N16 : GNode { CStatus init() override { return body(INIT, 0); } CStatus run() override { return body(RUN, 1); } CStatus destroy() override { return body(DEST, 2); } CBool isHold() override { return holdLeft-- > 0; } };
static int na;
static CStatus phaseX(int ph, int times) {                                      // the expected hooks of one phase; returns its status
  const int B[] = {BI, BR, BD}, F[] = {FI, FR, FD}, M[] = {INIT, RUN, DEST}; const bool fp = failPhase == ph;
  for (int t = 0; t < times; t++) {
    for (int i = 0; i < na; i++) { X(i + 1, B[ph], 0); if (fp && failA == i) return h_status(codeF); }
    for (int h = 0; h <= (ph == 1 ? holds : 0); h++) { X(0, M[ph], 0); if (fp && failA < 0) break; }
    if (fp && failA < 0 && failKind) { for (int i = 0; i < na; i++) X(i + 1, CR, 0); return CStatus(-996, ""); }
    for (int i = 0; i < na; i++) X(i + 1, F[ph], fp && failA < 0 ? codeF : 0); if (fp && failA < 0) return h_status(codeF);
  }
  return CStatus();
}
static void same(const char* m) { SYM_ASSERT(len16 == elen16, m); for (int i = 0; i < elen16 && i < len16; i++) SYM_ASSERT(log16[i] == exp16[i], m); }
template <class F> static CStatus call16(F f) { try { return f(); } catch (const CException&) { return CStatus(-996, "crash"); } }   // C05 says when a crash leaves init or destroy as an exception
extern "C" void harness_main() {
  const int kind = sym_opt("kind", 0), eng = sym_opt("engine", 0), runs = sym_opt("runs", 2), maxA = sym_opt("aspects", 2); CStatus s; GPipelinePtr p = h_pipe(1); p->setGEngineType(h_engine(eng)); GElementPtr a = nullptr;
  na = 1 + sym_pick("aspects", maxA); const int loop = 1 + sym_pick("loop", 2); holds = kind == 0 ? sym_pick("hold", 2) : 0; const bool pop = sym_opt("pop", 0) && sym_bool("pop");
  failPhase = sym_pick("phase", 4); failKind = 0; if (failPhase < 3) { failA = sym_pick("who", na + 1) - 1; if (failA < 0) failKind = sym_pick("kind", 2); codeF = (int)sym_range("code", -900000, -1000); } else failA = -2;
  if (kind == 0) s = p->registerGElement<N16>(&a, {}, "a", loop); else if (kind == 1) { s = p->registerGElement<GFunction>(&a, GElementPtrSet(), std::string("a"), (CSize)loop); GFunctionPtr f = (GFunctionPtr)a; f->setFunction(CFunctionType::INIT, [] { return body(INIT, 0); }); f->setFunction(CFunctionType::RUN, [] { return body(RUN, 1); }); f->setFunction(CFunctionType::DESTROY, [] { return body(DEST, 2); }); }
  else { a = p->createGGroup<GCluster>({p->createGNode<N16>(GElementPtrSet(), "c", 1)}, {}, "a", loop); s = p->registerGGroup(&a, {}, "a", loop); }
  Pa pa; pa.v = sym_int("param"); Pa keep; keep.v = pa.v; for (int i = 0; i < na; i++) { if (i == 0) a->addGAspect<Aq, Pa>(&pa); else a->addGAspect<As>(); } SYM_ASSERT(s.isOK(), "registration succeeds"); pa.v = 0;
  SYM_ASSERT(((Aq*)a->aspect_manager_->aspect_arr_[0])->seen() == keep.v, "the aspect has its own copy of the parameter it was attached with");
  if (pop) { a->addGAspect<As>(); s = a->popLastAspect(); SYM_ASSERT(s.isOK(), "the last aspect is removed"); }
  __sym_sched(1); s = call16([&] { return p->init(); }); CStatus e = phaseX(0, 1); same("the init hooks surround init in order"); SYM_ASSERT(s.getCode() == e.getCode(), "the status of init is the one the hooks saw");
  if (s.isOK()) {
    for (int r = 0; r < runs; r++) { len16 = elen16 = 0; holdLeft = holds;
      if (holds) { for (int t = 0; t < loop; t++) { int sv = holds; holds = t == 0 ? sv : 0; e = phaseX(1, 1); holds = sv; if (e.isErr()) break; } } else e = phaseX(1, loop);
      s = p->run(); same("the run hooks surround every repetition in order"); SYM_ASSERT(s.getCode() == e.getCode(), "the status of run is the one the hooks saw"); if (e.isErr()) __sym_reach("failed"); }
    len16 = elen16 = 0; s = call16([&] { return p->destroy(); }); e = phaseX(2, 1); same("the destroy hooks surround destroy in order"); SYM_ASSERT(s.getCode() == e.getCode(), "the status of destroy is the one the hooks saw");
  } else __sym_reach("initfail");
  __sym_sched(0); GPipelineFactory::remove(p); __sym_reach("end");
}
