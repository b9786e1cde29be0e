// C32: submitting a task group runs each task once, succeeds only after all finished in time, reports an expired limit, and calls the finish callback once with that status.
#include "h.h"
extern "C" void harness_main() {
  const int n = sym_opt("tasks", 2), prim = sym_opt("prim", 2), sec = sym_opt("sec", 0), rounds = sym_opt("rounds", 1), single = sym_opt("single", 0), slow = sym_opt("slow", 1), batch = sym_opt("batch", 0);
  UThreadPoolConfig c = h_cfg(prim, sec); c.batch_task_enable_ = batch; __sym_sched(1);
  { UThreadPool tp(false, c); int called = 0, cbCode = 1; bool cbErr = false;
    { UTaskGroup g; g.addTask([] {}); SYM_ASSERT(tp.submit(g).isErr(), "a pool that has not started refuses a group"); }
    SYM_ASSERT(tp.init().isOK(), "the pool starts");
    for (int q = 0; q < rounds; q++) {
      int runs[4] = {}, done[4] = {}; called = 0; static const int D[3] = {0, 5, 40}; int dur[4]; for (int i = 0; i < n; i++) dur[i] = D[slow ? sym_pick("duration", 3) : 0];
      static const int L[3] = {0, 20, 1000000}; int ttl = L[sym_pick("limit", 3)], gttl = single ? 1000000 : L[sym_pick("grouplimit", 3)]; int lim = ttl < gttl ? ttl : gttl; bool cb = sym_bool("callback");
      auto task = [&](int i) { return [&, i] { runs[i]++; if (dur[i]) std::this_thread::sleep_for(std::chrono::milliseconds(dur[i])); else __sym_visible(); done[i]++; }; };
      auto fin = [&](const CStatus& s) { called++; cbErr = s.isErr(); cbCode = s.getCode(); };
      int64_t t0 = __sym_now(); CStatus st;
      if (single) st = cb ? tp.submit(task(0), ttl, fin) : tp.submit(task(0), ttl); else { UTaskGroup g; for (int i = 0; i < n; i++) g.addTask(task(i)); g.setTtl(gttl); if (cb) g.setOnFinished(fin); SYM_ASSERT((int)g.getSize() == n && g.getTtl() == gttl, "the group knows its tasks and limit"); st = tp.submit(g, ttl); }
      int64_t el = (__sym_now() - t0) / 1000000; int nn = single ? 1 : n, fini = 0; for (int i = 0; i < nn; i++) fini += done[i];
      if (st.isOK()) { SYM_ASSERT(fini == nn, "success means that every task has finished"); __sym_reach("ok"); } else { SYM_ASSERT(el >= lim, "an error means that the limit has expired"); __sym_reach("late"); }
      if (lim == 1000000) SYM_ASSERT(st.isOK(), "a group that finishes within its limit succeeds"); else if (lim == 20) { SYM_ASSERT(el <= 21, "the wait ends with the limit"); bool quick = nn <= prim + sec; for (int i = 0; i < nn; i++) quick &= dur[i] < 20; if (quick) SYM_ASSERT(st.isOK(), "a group that finishes within its limit succeeds"); }
      SYM_ASSERT(called == (cb ? 1 : 0) && (!cb || (cbErr == st.isErr() && cbCode == st.getCode())), "the finish callback is called once with the status");
      for (;;) { fini = 0; for (int i = 0; i < nn; i++) fini += done[i]; if (fini == nn) break; std::this_thread::sleep_for(std::chrono::milliseconds(50)); }
      for (int i = 0; i < nn; i++) SYM_ASSERT(runs[i] == 1, "each task runs once");
    } }
  __sym_sched(0); __sym_reach("end");
}
