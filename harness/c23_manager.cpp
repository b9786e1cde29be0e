// C23: the pipeline manager against a model (mode 0: sequences of calls; mode 1: concurrent users).
#include "h.h"
static int runs23[3], act23[3], out23[3], bad23, kind23[3], got23; static GPipelinePtr pl[3]; static GPipelineManager* gm;
struct Pt : GParam { int i = 0; CStatus setup() override { if (kind23[i] == 3) { CGRAPH_THROW_EXCEPTION("setup boom") } return CStatus(); } CVoid reset(const CStatus&) override { if (kind23[i] == 4) { CGRAPH_THROW_EXCEPTION("reset boom") } } };
struct Ru : GNode { int i = 0; CStatus init() override { CStatus s = createGParam<Pt>("p"); getGParamWithNoEmpty<Pt>("p")->i = i; return s; } CStatus run() override { runs23[i]++; if (act23[i]++) bad23++; __sym_visible(); act23[i]--; if (kind23[i] == 1) return CStatus("no"); if (kind23[i] == 2) { CGRAPH_THROW_EXCEPTION("boom") } return CStatus(); } };
static void mk(int i) { pl[i] = h_pipe(1); pl[i]->setGEngineType(GEngineType::TOPO); GElementPtr e = nullptr; CStatus s = pl[i]->registerGElement<Ru>(&e, {}, "n"); SYM_ASSERT(s.isOK(), "registration succeeds"); ((Ru*)e)->i = i; }
static int idx(GPipelinePtr p) { for (int i = 0; i < 3; i++) if (pl[i] == p) return i; return -1; }
static void seq() {
  const int n = sym_opt("pipes", 2), len = sym_opt("len", 4), kinds = sym_opt("kinds", 3), ini = sym_opt("ini", 0); GPipelineManager m; bool in[3] = {}, out[3] = {}, on = false; for (int i = 0; i < n; i++) mk(i);
  if (ini) { for (int i = 0; i < n; i++) { SYM_ASSERT(m.add(pl[i]).isOK(), "add works"); in[i] = true; } SYM_ASSERT(m.init().isOK(), "init works"); on = true; }
  for (int k = 0; k < len; k++) {
    int nin = 0, nout = 0; for (int i = 0; i < n; i++) nin += in[i], nout += out[i]; CStatus s; int i;
    switch (sym_pick("op", 7)) {
      case 0: i = sym_pick("pipe", n); s = m.add(pl[i]); if (on) SYM_ASSERT(s.isErr(), "no pipeline is added while initialised"); else { if (!in[i]) SYM_ASSERT(s.isOK(), "a pipeline is added"); in[i] = true; } break;
      case 1: i = sym_pick("pipe", n); if (out[i]) continue; s = m.remove(pl[i]); if (on) SYM_ASSERT(s.isErr(), "no pipeline is removed while initialised"); else { SYM_ASSERT(s.isOK(), "a pipeline is removed"); in[i] = false; } break;
      case 2: s = m.init(); SYM_ASSERT(s.isOK() == (!on && !nout), "init works on a manager that is not initialised and has nothing out"); if (s.isOK()) on = true; break;
      case 3: s = m.destroy(); SYM_ASSERT(s.isOK() == (on && !nout), "destroy works on an initialised manager that has nothing out"); if (s.isOK()) on = false; break;
      case 4: { GPipelinePtr p = m.fetch(); if (nin == nout) SYM_ASSERT(!p, "nothing to fetch when none is free"); else { SYM_ASSERT(p, "fetch hands out a free pipeline"); i = idx(p); SYM_ASSERT(i >= 0 && in[i] && !out[i], "a pipeline is handed out once"); out[i] = true; __sym_reach("fetched"); } break; }
      case 5: i = sym_pick("pipe", n); s = m.release(pl[i]); SYM_ASSERT(s.isOK() == out[i], "exactly a pipeline that is out can be released"); out[i] = false; break;
      case 6: { int old[3], d = 0; for (i = 0; i < n; i++) { old[i] = runs23[i]; kind23[i] = kinds > 1 ? sym_pick("outcome", kinds) : 0; } bool threw = false; try { s = m.run(); } catch (const CException&) { threw = true; }
        for (i = 0; i < n; i++) { if (runs23[i] != old[i]) { d++; SYM_ASSERT(runs23[i] == old[i] + 1 && in[i] && !out[i], "the manager runs a free pipeline once"); if (kind23[i] == 1 || kind23[i] == 2) SYM_ASSERT(threw || s.isErr(), "the status of the run is returned"); if (!kind23[i]) SYM_ASSERT(!threw && s.isOK(), "the status of the run is returned"); } }
        if (!on || nin == nout) SYM_ASSERT(!threw && s.isErr() && !d, "nothing to run"); else { SYM_ASSERT(d == 1 || threw || s.isErr(), "one pipeline runs"); __sym_reach("ran"); } break; }
    }
    for (i = 0; i < n; i++) SYM_ASSERT(m.find(pl[i]) == in[i], "find tells what was added"); int c = 0; for (i = 0; i < n; i++) c += in[i]; SYM_ASSERT((int)m.getSize() == c, "every pipeline of the manager is counted once");
  }
  int left = 0; for (int i = 0; i < n; i++) left += in[i] && !out[i];
  for (int k = 0; k <= left; k++) { GPipelinePtr p = m.fetch(); SYM_ASSERT((p != nullptr) == (k < left), "every free pipeline can be fetched, once"); if (p) { int i = idx(p); SYM_ASSERT(in[i] && !out[i], "a pipeline is handed out once"); out[i] = true; } }
  for (int i = 0; i < n; i++) if (out[i]) SYM_ASSERT(m.release(pl[i]).isOK(), "release works"); if (on) SYM_ASSERT(m.destroy().isOK(), "destroy works");
}
static void user(int how, int cnt, int np, int nt) {
  for (int q = 0; q < cnt; q++) {
    if (how == 0) { GPipelinePtr p = gm->fetch(); if (!p) { SYM_ASSERT(np < nt, "fetch fails only when nothing is free"); continue; } int i = idx(p); if (out23[i]++) bad23++; __sym_visible(); got23++; p->run(); out23[i]--; SYM_ASSERT(gm->release(p).isOK(), "release works"); }
    else { CStatus s = gm->run(); (void)s; if (np >= nt) { got23++; if (!kind23[0] && !kind23[1]) SYM_ASSERT(s.isOK(), "the run works"); } else if (s.isOK()) got23++; }
  }
}
static void conc() {
  const int n = sym_opt("pipes", 2), nt = sym_opt("users", 2), cnt = sym_opt("count", 2); GPipelineManager m; gm = &m; for (int i = 0; i < n; i++) { mk(i); kind23[i] = sym_pick("outcome", sym_opt("kinds", 2)); SYM_ASSERT(m.add(pl[i]).isOK(), "add works"); } int how[3]; for (int t = 0; t < nt; t++) how[t] = sym_pick("user", 2);
  SYM_ASSERT(m.init().isOK(), "init works"); __sym_sched(1); { std::vector<std::thread> v; for (int t = 1; t < nt; t++) v.emplace_back(user, how[t], cnt, n, nt); user(how[0], cnt, n, nt); for (auto& t : v) t.join(); }
  int tot = 0; for (int i = 0; i < n; i++) tot += runs23[i]; SYM_ASSERT(!bad23, "a pipeline is used by one user at a time"); if (n >= nt) SYM_ASSERT(tot == nt * cnt, "every request is served"); for (int i = 0; i < n; i++) SYM_ASSERT(m.fetch() != nullptr, "every pipeline is back"); SYM_ASSERT(m.fetch() == nullptr, "every pipeline is back once");
  for (int i = 0; i < n; i++) m.release(pl[i]); SYM_ASSERT(m.destroy().isOK(), "destroy works"); __sym_sched(0);
}
extern "C" void harness_main() { if (sym_opt("mode", 0)) conc(); else seq(); for (int i = 0; i < 3; i++) if (pl[i]) GPipelineFactory::remove(pl[i]); __sym_reach("end"); }
