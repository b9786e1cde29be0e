// C40: an ANN node calls the function its prepare hook selected, then refresh; the selector is a free 32-bit value.
#include "h.h"
static int sel40, rc40[9], rrc40, calls40[9], prep40, refr40, order40, prepAt40, funcAt40, refrAt40, impl40, boom40;
struct Ann : DAnnNode {
  DAnnFuncType prepareParam() override { prep40++; prepAt40 = ++order40; if (boom40 == 1) { CGRAPH_THROW_EXCEPTION("prepare boom") } return (DAnnFuncType)sel40; }
  CStatus f(int i) { calls40[i]++; funcAt40 = ++order40; if (boom40 == 2) { CGRAPH_THROW_EXCEPTION("function boom") } return h_status(rc40[i]); }
  bool im(int i) { return impl40 == 0 || impl40 == i; }
  CStatus train() override { return im(1) ? f(1) : DAnnNode::train(); } CStatus search() override { return im(2) ? f(2) : DAnnNode::search(); } CStatus insert() override { return im(3) ? f(3) : DAnnNode::insert(); } CStatus update() override { return im(4) ? f(4) : DAnnNode::update(); }
  CStatus remove() override { return im(5) ? f(5) : DAnnNode::remove(); } CStatus loadModel() override { return im(6) ? f(6) : DAnnNode::loadModel(); } CStatus saveModel() override { return im(7) ? f(7) : DAnnNode::saveModel(); } CStatus edition() override { return im(8) ? f(8) : DAnnNode::edition(); }
  CStatus refreshParam() override { refr40++; refrAt40 = ++order40; return h_status(rrc40); }
};
struct Bare : DAnnNode { DAnnFuncType prepareParam() override { prep40++; return (DAnnFuncType)sel40; } };
extern "C" void harness_main() {
  const int eng = sym_opt("engine", 0), loop = sym_opt("loops", 1), runs = sym_opt("runs", 2), bare = sym_opt("bare", 0), crash = sym_opt("crash", 0); GPipelinePtr p = h_pipe(); GElementPtr a = nullptr, b = nullptr;
  CStatus s = bare ? p->registerGElement<Bare>(&a, {}, "a", loop) : p->registerGElement<Ann>(&a, {}, "a", loop); s += p->registerGElement<Nd>(&b, {a}, "b", 1); SYM_ASSERT(s.isOK(), "registration succeeds"); p->setGEngineType(h_engine(eng)); s = p->init(); SYM_ASSERT(s.isOK(), "init succeeds");
  for (int r = 0; r < runs; r++) {
    h_reset(); sel40 = sym_int("selector"); order40 = prep40 = refr40 = funcAt40 = refrAt40 = 0; for (int i = 0; i < 9; i++) { calls40[i] = 0; rc40[i] = 0; }
    impl40 = bare ? -1 : sym_pick("impl", 10); if (impl40 == 9) impl40 = -1; int code = sym_int("code"); rrc40 = sym_int("refreshCode"); for (int i = 1; i < 9; i++) rc40[i] = code; boom40 = crash ? sym_pick("boom", 3) : 0;
    s = p->run(); int q = boom40 == 1 ? 0 : sel40;
    if (q <= 0 || q >= 9) { SYM_ASSERT(s.isErr(), "a selection outside the range is an error"); for (int i = 1; i < 9; i++) SYM_ASSERT(calls40[i] == 0, "nothing is called for an invalid selection"); SYM_ASSERT(!refr40 && prep40 == 1 && !h_runs[0], "and nothing runs after it"); __sym_reach("invalid"); continue; }
    bool im = impl40 == 0 || impl40 == q; int n = 0; for (int i = 1; i < 9; i++) { n += calls40[i]; if (i != q) SYM_ASSERT(calls40[i] == 0, "no other function is called"); }
    if (!im) { SYM_ASSERT(s.isErr(), "an unimplemented function is an error"); SYM_ASSERT(n == 0 && (bare || refr40 == 0) && !h_runs[0], "and nothing runs after it"); __sym_reach("unimplemented"); continue; }
    bool fe = boom40 == 2 || code < 0, re = !fe && rrc40 < 0; int rounds = fe || re ? 1 : loop; SYM_ASSERT(prep40 == rounds && n == rounds, "prepare and the selected function are called once per repetition"); SYM_ASSERT(refr40 == (fe || code != 0 && refr40 == 0 ? 0 : rounds), "refresh follows a function that did not fail");
    if (code == 0) SYM_ASSERT(refr40 == (boom40 == 2 ? 0 : rounds), "refresh follows the function"); if (refr40) SYM_ASSERT(prepAt40 < funcAt40 && funcAt40 < refrAt40, "prepare, function, refresh"); 
    if (fe || re) { SYM_ASSERT(s.isErr(), "the error is reported"); SYM_ASSERT(!h_runs[0], "nothing runs after an error"); if (boom40 != 2) SYM_ASSERT(s.getCode() == (fe ? code : rrc40), "the status is that of the function or of refresh"); __sym_reach("error"); } else { SYM_ASSERT(!s.isErr(), "no error appears"); SYM_ASSERT(h_runs[0] == 1, "its successor runs"); __sym_reach("ok"); }
  }
  p->destroy(); GPipelineFactory::remove(p); __sym_reach("end");
}
