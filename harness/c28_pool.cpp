// C28: every task given to a started pool runs exactly once, its future carries its value or exception, waiting ends, destroying the pool joins its threads.
#include "h.h"
#include <stdexcept>
static int g_runs[8], g_val[8], g_throw[8], g_nest; static UThreadPool* g_tp; static std::future<int> g_inner[8];
static int body(int i) { g_runs[i]++; __sym_visible(); if (g_throw[i]) throw std::runtime_error("t"); return g_val[i]; }
struct Tk { int i; int operator()() const { if (g_nest && i < 2) { int k = 4 + i; g_inner[i] = g_tp->commit(Tk{k}, g_nest == 1 ? CGRAPH_DEFAULT_TASK_STRATEGY : CGRAPH_TRIGGER_ALL_THREAD_STRATEGY); } return body(i); } };
extern "C" void harness_main() {
  const int n = sym_opt("tasks", 3), prim = sym_opt("prim", 2), sec = sym_opt("sec", 0), batch = sym_opt("batch", 0), deliver = sym_opt("deliver", 0), kinds = sym_opt("kinds", 5), rounds = sym_opt("rounds", 1), fresh = sym_opt("fresh", 0); g_nest = sym_opt("nest", 0);
  UThreadPoolConfig c = h_cfg(prim, sec, prim + sec + sym_opt("room", 0)); c.batch_task_enable_ = batch; c.deliver_running_primary_thread_enable_ = deliver; SYM_ASSERT(c.check().isOK(), "the configuration is valid");
  if (!fresh) __sym_sched(1);
  { UThreadPool tp(true, c); g_tp = &tp; SYM_ASSERT(tp.isInit(), "the pool starts");
    __sym_sched(1);
    for (int q = 0; q < rounds; q++) {
      std::future<int> f[4]; std::future<void> v[4]; bool isv[4] = {};
      for (int i = 0; i < 8; i++) { g_runs[i] = 0; g_val[i] = sym_int("value"); g_throw[i] = i < n ? sym_bool("throws") : 0; }
      const int64_t t0 = __sym_now() + 100000000; if (sym_opt("idle", 0)) std::this_thread::sleep_for(std::chrono::milliseconds(100));
      for (int i = 0; i < n; i++) {
        switch (sym_pick("strategy", kinds)) {
          case 0: f[i] = tp.commit(Tk{i}); break;
          case 1: f[i] = tp.commit(Tk{i}, sym_pick("index", prim + 1)); break;                // a worker, or one past the last
          case 2: f[i] = tp.commit(Tk{i}, CGRAPH_POOL_TASK_STRATEGY); break;
          case 3: f[i] = tp.commit(Tk{i}, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY); break;
          case 4: { int tid = sym_pick("tid", prim + 1); f[i] = tp.commitWithTid(Tk{i}, tid, true, true); if (tid < prim) { v[i] = tp.commitWithTid([] {}, tid, true, false); isv[i] = true; } break; }
          case 5: f[i] = tp.commit(Tk{i}, CGRAPH_LONG_TIME_TASK_STRATEGY); break;             // these two need a secondary thread
          default: f[i] = tp.commitWithPriority(Tk{i}, sym_int("priority")); break;
        }
      }
      if (sym_opt("release", 0)) SYM_ASSERT(tp.releaseSecondaryThread(sec).isOK(), "the secondary threads are released");
      for (int i = 0; i < n; i++) {
        bool thrown = false; int got = 0; try { got = f[i].get(); } catch (const std::runtime_error&) { thrown = true; }
        SYM_ASSERT(thrown == (g_throw[i] != 0), "the future carries the task's exception, and only that"); if (!thrown) SYM_ASSERT(got == g_val[i], "the future carries the task's value"); SYM_ASSERT(g_runs[i] == 1, "a task whose future is ready ran exactly once"); if (isv[i]) v[i].get();
      }
      if (sym_opt("idle", 0)) SYM_ASSERT(__sym_now() - t0 < 500000000ll, "an idle pool does not sleep on what it is given");
      if (g_nest) for (int i = 0; i < (n < 2 ? n : 2); i++) SYM_ASSERT(g_inner[i].get() == g_val[4 + i], "a task committed by a task runs and carries its value");
      for (int i = 0; i < n; i++) SYM_ASSERT(g_runs[i] == 1, "no task runs twice");
      if (sec || kinds > 5) SYM_ASSERT((int)tp.secondary_threads_.size() <= c.max_thread_size_ - c.default_thread_size_, "never more secondary threads than configured");
      if (q + 1 < rounds && sym_opt("restart", 1)) { SYM_ASSERT(tp.destroy().isOK() && !tp.isInit(), "the pool stops"); SYM_ASSERT(tp.init().isOK() && tp.isInit(), "the pool starts again"); }
    }
    if (sym_opt("stop", 0)) SYM_ASSERT(tp.destroy().isOK(), "destroy succeeds");
  }
  for (int i = 0; i < n; i++) SYM_ASSERT(g_runs[i] == 1, "no task runs again while the pool stops");
  __sym_sched(0); __sym_reach("end");
}
