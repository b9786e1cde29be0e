// C29: configurations are accepted exactly when consistent; dispatch, stealing and the number of secondary threads stay in range.
#include "h.h"
static int g_n; struct Tk { int operator()() const { g_n++; return 7; } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), M = sym_opt("range", 12);
  if (mode == 0) {
    UThreadPoolConfig c; c.default_thread_size_ = (int)sym_range("default", -M, M); c.secondary_thread_size_ = (int)sym_range("secondary", -M, M); c.max_thread_size_ = (int)sym_range("max", -M, 3 * M); c.monitor_enable_ = sym_bool("monitor"); c.monitor_span_ = (CSec)sym_range("span", -M, M);
    bool ok = c.default_thread_size_ >= 0 && c.secondary_thread_size_ >= 0 && c.default_thread_size_ + c.secondary_thread_size_ <= c.max_thread_size_ && (!c.monitor_enable_ || c.monitor_span_ > 0);
    SYM_ASSERT(c.check().isOK() == ok, "check accepts exactly the consistent configurations");
    GPipelinePtr p = GPipelineFactory::create(); bool thrown = false; try { p->setUniqueThreadPoolConfig(c); } catch (const CException&) { thrown = true; } SYM_ASSERT(thrown == !ok, "a pipeline takes exactly the consistent configurations"); __sym_reach(ok ? "accepted" : "refused"); GPipelineFactory::remove(p);
  } else if (mode == 1) {                                                       // any index given to commit, any state of the round-robin counter
    int prim = 1 + sym_pick("prim", 3), sec = sym_pick("sec", 2), room = sym_pick("room", 2); __sym_sched(1);
    { UThreadPool tp(true, h_cfg(prim, sec, prim + sec + room)); tp.cur_index_ = sym_int("counter"); int idx = sym_int("index"); bool lng = idx == CGRAPH_LONG_TIME_TASK_STRATEGY; __sym_assume(!lng || sec);
      for (int r = 0; r < 2; r++) { auto f = tp.commit(Tk{}, idx); SYM_ASSERT(f.get() == 7 && g_n == r + 1, "a task committed with any index runs once"); }
      auto f = tp.commitWithTid(Tk{}, sym_int("tid"), false, false); SYM_ASSERT(f.get() == 7 && g_n == 3, "a task committed to any thread id runs once"); if (lng) __sym_reach("long"); }
    __sym_sched(0);
  } else if (mode == 2) {                                                       // steal targets
    int prim = 1 + sym_pick("prim", 4); UThreadPoolConfig c = h_cfg(prim, 0); int range = (int)sym_range("range", -3, 8); c.max_task_steal_range_ = range; __sym_sched(1);
    { UThreadPool tp(true, c); int want = range < prim - 1 ? range : prim - 1; if (want < 0) want = 0;
      for (int i = 0; i < prim; i++) { auto& v = tp.primary_threads_[i]->steal_targets_; SYM_ASSERT((int)v.size() == want, "a worker steals from as many neighbours as configured"); unsigned seen = 0; for (int t : v) { SYM_ASSERT(t >= 0 && t < prim && t != i && !(seen >> t & 1), "a worker steals only from other existing workers"); seen |= 1u << t; } }
      for (int i = 0; i < 2 * prim; i++) SYM_ASSERT(tp.commit(Tk{}, i % prim).get() == 7, "tasks run"); SYM_ASSERT(g_n == 2 * prim, "each once"); }
    __sym_sched(0);
  } else if (mode == 3) {                                                       // sequences of growing and shrinking the secondary threads
    int sec = sym_pick("sec", 2), room = sym_pick("room", 3), mx = sec + room, want = sec, len = sym_opt("len", 3); __sym_sched(1);
    { UThreadPool tp(true, h_cfg(1, sec, 1 + mx)); auto alive = [&] { int n = 0; for (auto& s : tp.secondary_threads_) n += s->done_ ? 1 : 0; return n; };
      for (int k = 0; k < len; k++) {
        int op = sym_pick("op", 3), n = (int)sym_range("n", 0, 3); n = (int)__sym_concrete((uint64_t)n); int held = (int)tp.secondary_threads_.size();
        if (op == 0) { CStatus s = tp.createSecondaryThread(n); int lo = mx - held, hi = mx - want; SYM_ASSERT(s.isOK(), "creating secondary threads succeeds"); if (lo > n) lo = n; if (hi > n) hi = n; int got = alive() - want; SYM_ASSERT(got >= lo && got <= hi, "as many are created as asked for, while there is room (a released one counts until it has ended)"); want += got; }
        else if (op == 1) { int a = alive(); CStatus s = tp.releaseSecondaryThread(n); SYM_ASSERT(s.isErr() == (n > a), "releasing more threads than there are is an error"); if (n <= a) want -= n; }
        else if (alive() || held < mx) { if (!alive()) want++; auto f = tp.commitWithPriority(Tk{}, sym_int("priority")); SYM_ASSERT(f.get() == 7, "a prioritised task runs on a secondary thread, on a new one if none is left"); }
        SYM_ASSERT(alive() == want && (int)tp.secondary_threads_.size() <= mx, "the number of secondary threads is as requested and within the maximum");
      }
      SYM_ASSERT(tp.commit(Tk{}).get() == 7, "the pool still runs tasks"); }
    __sym_sched(0);
  } else if (mode == 5) {                                                       // a monitored pool: any sequence of busy, idle, destroyed and initialised again; secondary threads come and go, tasks run once
    int prim = 1, sec = sym_pick("sec", 2), room = 1 + sym_pick("room", 2), len = sym_opt("len", 3), rounds = sym_opt("rounds", 2), ran = 0, want = 0;
    UThreadPoolConfig c = h_cfg(prim, sec, prim + sec + room); c.monitor_enable_ = true; c.monitor_span_ = 1; c.secondary_thread_ttl_ = 2 + sym_pick("ttl", 2); __sym_sched(1);
    { UThreadPool tp(true, c);
      for (int r = 0; r < rounds; r++) {
        std::vector<std::future<int>> fs;
        for (int k = 0; k < len; k++) {
          int op = sym_pick("op", 4);
          if (op == 0) { fs.push_back(tp.commit(Tk{})); want++; }
          else if (op == 1) { fs.push_back(tp.commit([] { std::this_thread::sleep_for(std::chrono::milliseconds(2500)); g_n++; return 7; })); want++; }
          else if (op == 2) { fs.push_back(tp.commitWithPriority(Tk{}, 1)); want++; }
          else std::this_thread::sleep_for(std::chrono::milliseconds(3500));
          { CGRAPH_LOCK_GUARD l(tp.st_mutex_); SYM_ASSERT((int)tp.secondary_threads_.size() <= sec + room, "the monitor never exceeds the maximum number of threads"); }
        }
        for (auto& f : fs) SYM_ASSERT(f.get() == 7, "tasks of a monitored pool run"); SYM_ASSERT(g_n == want, "each once"); (void)ran;
        if (r + 1 < rounds) { CStatus s = tp.destroy(); SYM_ASSERT(s.isOK(), "a monitored pool can be destroyed"); if (sym_bool("again")) { s = tp.init(); SYM_ASSERT(s.isOK(), "and initialised again"); __sym_reach("again"); } else break; }
      } }
    __sym_sched(0);
  } else if (mode == 6) {                                                       // taking and stealing, one by one and in batches, from any filling of the workers' queues
    const int picks = sym_opt("picks", 2); int prim = 2 + sym_pick("prim", sym_opt("maxprim", 2)), left[4] = {}; UThreadPoolConfig c = h_cfg(prim, 0); c.max_task_steal_range_ = (int)sym_range("range", 0, 3); c.max_steal_batch_size_ = 1 + sym_pick("sbatch", 2); c.max_local_batch_size_ = 1 + sym_pick("lbatch", 2); std::vector<UThreadPrimary*> ws; UAtomicQueue<UTask> pq; 
    for (int i = 0; i < prim; i++) { ws.push_back(new UThreadPrimary()); ws[i]->setThreadPoolInfo(i, &pq, &ws, &c); ws[i]->is_init_ = true; ws[i]->buildStealTargets(); } int total = 0; static int ran[12]; for (int i = 0; i < prim; i++) { left[i] = sym_pick("fill", 3); for (int k = 0; k < left[i]; k++) { int id = total++; ws[i]->wsq_.push(UTask([id] { ran[id]++; })); } }
    int taken = 0, me = sym_pick("worker", prim); UThreadPrimary* w = ws[me]; int span = (int)w->steal_targets_.size(), reach = 0; for (int i = 1; i <= span; i++) reach += left[(me + i) % prim]; int want = left[me] + reach;
    for (int k = 0; k < picks + 4; k++) { bool got; int op = k < picks ? sym_pick("op", 4) : k % 4; UTask t; UTaskArr v; int before = taken, avail = op < 2 ? left[me] : reach; switch (op) { case 0: got = w->popTask(t); break; case 1: got = w->popTask(v); break; case 2: got = w->stealTask(t); break; default: got = w->stealTask(v); } if ((op & 1) == 0 && got) { t(); taken++; } for (auto& x : v) { x(); taken++; } int n = taken - before; if (op < 2) left[me] -= n; else reach -= n; SYM_ASSERT(got == (avail > 0) && got == (n > 0), "a worker takes or steals something exactly when there is something, and gets it"); SYM_ASSERT(n <= (op == 1 ? c.max_local_batch_size_ : op == 3 ? c.max_steal_batch_size_ : 1), "no more than a batch"); }
    UTask t; while (w->popTask(t) || w->stealTask(t)) { t(); taken++; } SYM_ASSERT(taken == want, "everything within reach is taken once"); int n = 0; for (int i = 0; i < total; i++) { SYM_ASSERT(ran[i] <= 1, "no task runs twice"); n += ran[i]; } SYM_ASSERT(n == want, "no task is lost");
    for (auto* x : ws) { x->is_init_ = false; delete x; }
  } else {                                                                      // growing, shrinking and triggering from two threads at once
    int what = sym_opt("what", 0), room = what == 0 ? 1 : 0, sec = 1 - room; __sym_sched(1);
    { UThreadPool tp(true, h_cfg(1, sec, 2));
      std::thread o([&] { if (what == 0) tp.createSecondaryThread(1); else { tp.releaseSecondaryThread(1); tp.releaseSecondaryThread(0); } });
      if (what == 0) tp.createSecondaryThread(1); else SYM_ASSERT(tp.commit(Tk{}, CGRAPH_TRIGGER_ALL_THREAD_STRATEGY).get() == 7, "a triggered task runs");
      o.join(); SYM_ASSERT((int)tp.secondary_threads_.size() <= 1, "never more secondary threads than the maximum allows"); }
    __sym_sched(0);
  }
  __sym_reach("end");
}
