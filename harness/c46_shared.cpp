// C46: pipelines that share a thread pool behave as with pools of their own, at the same time as each other and as the pool's own tasks; and leave the pool as it was.
#include "h.h"
static UThreadPool* tp46; static int tasks46; static int ran46[8];
struct W46 : Nv { };
static GPipelinePtr mk46(int k, int eng, int n, GElementPtr* e) {
  GPipelinePtr p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(h_cfg(2)); p->setGEngineType(h_engine(eng)); CStatus s;
  for (int i = 0; i < n; i++) { GElementPtrSet d; if (i && (sym_opt("shape", 0) == 0 || i == n - 1)) d.insert(e[0]); if (sym_opt("shape", 0) == 1 && i == n - 1) for (int j = 1; j < i; j++) d.insert(e[j]); s += p->registerGElement<W46>(&e[i], d, "n", 1); }
  if (sym_opt("group", 0)) { GElementPtr x = h_node<W46>(p, "x"), y = h_node<W46>(p, "y"), g = h_wrap(p, sym_opt("group", 0), {x, y}); s += p->registerGGroup(&g, {}, "g", 1); }
  SYM_ASSERT(s.isOK(), "registration succeeds"); (void)k; return p;
}
static int per46(int n) { return n + (sym_opt("group", 0) ? 2 : 0); }
static void ok46(int k, int n, int times, int code, CStatus s) {
  const int b = k * per46(n), m = per46(n); for (int i = 0; i < m; i++) SYM_ASSERT(!h_active[b + i], "nothing of it is running any more"); SYM_ASSERT(s.getCode() == code, "the status is its own");
  if (code) { SYM_ASSERT(h_runs[b] == 1, "a failed run is not repeated"); for (int i = 1; i < n; i++) if (sym_opt("shape", 0) == 0 || i == n - 1) SYM_ASSERT(!h_runs[b + i], "what depends on the failed element does not run"); }
  else { for (int i = 0; i < m; i++) if (sym_opt("group", 0) != K_COND || i < n) SYM_ASSERT(h_runs[b + i] == times, "every element runs once per run"); for (int i = 1; i < n && times == 1; i++) if (sym_opt("shape", 0) == 0 || i == n - 1) SYM_ASSERT(h_end[b] < h_beg[b + i], "in the order of its dependencies"); }
}
static void use46(int how) {                                                                                  // the pool itself is still in order
  SYM_ASSERT(tp46->isInit(), "the pool is still there"); int r = 0; auto f = tp46->commit([&r] { r = 7; return 5; }); SYM_ASSERT(f.get() == 5 && r == 7, "and runs tasks"); if (how) { UTaskGroup g; for (int i = 0; i < 3; i++) g.addTask([i] { ran46[i]++; }); for (int i = 0; i < 3; i++) ran46[i] = 0; CStatus s = tp46->submit(g); SYM_ASSERT(s.isOK() && ran46[0] == 1 && ran46[1] == 1 && ran46[2] == 1, "and groups of tasks"); }
}
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), n = sym_opt("nodes", 2), eng = sym_opt("engine", 0), eng2 = sym_opt("engine2", eng), pool = sym_opt("pool", 2); CStatus s; UThreadPoolConfig cfg = h_cfg(pool, sym_opt("sec", 0)); cfg.batch_task_enable_ = sym_opt("batch", 0); tp46 = new UThreadPool(false, cfg); h_choose = 0; h_wait = 1;
  GElementPtr e[2][MAXE] = {}; GPipelinePtr p[2] = {};
  if (mode == 0) {                                                                                           // at the same time
    s = tp46->init(); SYM_ASSERT(s.isOK(), "the pool is initialised"); for (int k = 0; k < 2; k++) { p[k] = mk46(k, k ? eng2 : eng, n, e[k]); p[k]->setSharedThreadPool(tp46); } const bool proc = sym_opt("process", 0), tasks = sym_opt("tasks", 0); int c[2];
    for (int k = 0; k < 2; k++) { c[k] = sym_bool("fails") ? (int)sym_range("code", -1000, -1) : 0; h_rc[k * per46(n)] = c[k]; if (!proc) { s = p[k]->init(); SYM_ASSERT(s.isOK(), "init succeeds"); } }
    __sym_sched(1); CStatus r[2]; std::future<int> f[2]; if (tasks) for (int i = 0; i < 2; i++) f[i] = tp46->commit([i] { __sym_visible(); ran46[i]++; return i + 3; });
    { std::thread t([&] { r[1] = proc ? p[1]->process(1) : p[1]->run(); }); r[0] = proc ? p[0]->process(1) : p[0]->run(); ok46(0, n, 1, c[0], r[0]); t.join(); ok46(1, n, 1, c[1], r[1]); }
    if (tasks) for (int i = 0; i < 2; i++) SYM_ASSERT(f[i].get() == i + 3 && ran46[i] == 1, "tasks of others run once, too"); __sym_sched(0);
    int first = sym_bool("first"); GPipelinePtr q = p[1 - first], d = p[first]; if (!proc && sym_bool("destroyed")) { s = d->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); } s = GPipelineFactory::remove(d); SYM_ASSERT(s.isOK(), "one of them is removed"); use46(sym_bool("group"));
    h_reset(); for (int k = 0; k < 2; k++) h_rc[k * per46(n)] = 0; s = proc ? q->process(2) : q->run(); ok46(1 - first, n, proc ? 2 : 1, 0, s); if (!proc) { s = q->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); s = q->process(2); h_reset(); s += q->process(1); ok46(1 - first, n, 1, 0, s); } GPipelineFactory::remove(q); use46(1); __sym_reach("both");
  } else {                                                                                                   // one pipeline, any sequence of requests
    const int len = sym_opt("len", 4); p[0] = mk46(0, eng, n, e[0]); int shared = 0, up = 0, init = 0, cur = 0; bool th; UThreadPool* mine = nullptr; static int cells[2]; (void)cells;
    for (int i = 0; i < len; i++) { int op = sym_pick("op", 9); th = false; h_reset();
      if (op == 0) { try { p[0]->setSharedThreadPool(tp46); } catch (const CException&) { th = true; } SYM_ASSERT(th == !!init, "a pool is set before init only"); if (!th) shared = 1; }
      else if (op == 1) { try { p[0]->setSharedThreadPool(nullptr); } catch (const CException&) { th = true; } SYM_ASSERT(th == !!init, "a pool is set before init only"); if (!th) shared = 0; }
      else if (op == 2 && !up) { s = tp46->init(); SYM_ASSERT(s.isOK(), "the pool is initialised"); up = 1; }
      else if (op == 3 && !init) { s = p[0]->init(); SYM_ASSERT(s.isOK() == (!shared || up), "init needs an initialised pool"); init = s.isOK(); if (!init) { __sym_reach("notup"); SYM_ASSERT(p[0]->run().isErr(), "no run without init"); for (int k = 0; k < n; k++) SYM_ASSERT(!h_runs[k], "nothing has run"); } cur = shared; }
      else if (op == 4) { s = p[0]->run(); if (!init) SYM_ASSERT(s.isErr(), "no run without init"); else ok46(0, n, 1, 0, s); }
      else if (op == 5 && init) { s = p[0]->destroy(); SYM_ASSERT(s.isOK(), "destroy succeeds"); init = 0; }
      else if (op == 6 && !init) { s = p[0]->process(1); SYM_ASSERT(s.isOK() == (!shared || up), "process needs an initialised pool"); if (s.isOK()) ok46(0, n, 1, 0, s); else for (int k = 0; k < n; k++) SYM_ASSERT(!h_runs[k], "nothing has run"); }
      else if (op == 7) { if (shared) { s = p[0]->makeSerial(); SYM_ASSERT(s.isErr(), "a shared pool is not made serial"); } try { p[0]->setUniqueThreadPoolConfig(h_cfg(1)); } catch (const CException&) { th = true; } SYM_ASSERT(th == !!init, "a configuration is set before init only"); }
      else if (op == 8 && !init) { h_irc[0] = -3; s = p[0]->init(); h_irc[0] = 0; SYM_ASSERT(s.isErr() && s.getCode() == (!shared || up ? -3 : s.getCode()), "an init that fails"); }
      SYM_ASSERT(tp46->isInit() == !!up, "a pipeline neither starts nor stops the pool"); if (up && sym_opt("use", 0)) use46(0); (void)cur; (void)mine; }
    GPipelineFactory::remove(p[0]); SYM_ASSERT(tp46->isInit() == !!up, "a pipeline neither starts nor stops the pool"); if (up) use46(1); __sym_reach("ops");
  }
  delete tp46; __sym_reach("end");
}
