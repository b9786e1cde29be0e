// C31: of the prioritised tasks waiting in the pool, one with the largest priority is taken first.
#include "h.h"
static int q_prio[8], q_state[8] /* 0 not pushed, 1 waiting, 2 taken */, q_n; static bool q_ok = true;
struct Tk { int i; void operator()() const { if (q_state[i] != 1) q_ok = false; for (int k = 0; k < q_n; k++) if (q_state[k] == 1 && q_prio[k] > q_prio[i]) q_ok = false; q_state[i] = 2; } };
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 4);
  if (mode == 2) {                                                              // the tasks themselves: order and content survive moving about
    int a = sym_int("priority"), b = sym_int("priority"); q_n = 2; q_state[0] = q_state[1] = 1; UTask x(Tk{0}, a), y(Tk{1}, b), z; SYM_ASSERT((x > y) == (a > b) && (x < y) == (a < b), "tasks are ordered by priority");
    UTask u(std::move(x)); SYM_ASSERT((u > y) == (a > b) && (u < y) == (a < b), "a moved task keeps its priority"); z = std::move(u); SYM_ASSERT((z > y) == (a > b) && (z < y) == (a < b), "an assigned task keeps its priority"); z(); y(); SYM_ASSERT(q_state[0] == 2 && q_state[1] == 2, "and what it does");
  } else if (mode == 0) {
    UAtomicPriorityQueue<UTask> q;
    for (int s = 0; s < len; s++) {
      int op = sym_pick("op", 3); int waiting = 0; for (int k = 0; k < q_n; k++) waiting += q_state[k] == 1;
      if (op == 0) { int i = q_n++; q_prio[i] = sym_int("priority"); q_state[i] = 1; q.push(UTask(Tk{i}), q_prio[i]); }
      else if (op == 1) { UTask t; bool r = q.tryPop(t); SYM_ASSERT(r == (waiting > 0), "an uncontended pop succeeds exactly when something waits"); if (r) t(); }
      else { UTaskArr v; int mx = 1 + sym_pick("batch", 2); bool r = q.tryPop(v, mx); SYM_ASSERT(r == (waiting > 0) && (int)v.size() == (waiting < mx ? waiting : mx), "a batch pop takes up to the given number"); for (auto& t : v) t(); }
      SYM_ASSERT(q_ok, "a waiting task of larger priority is taken first"); SYM_ASSERT(q.empty() == [&] { for (int k = 0; k < q_n; k++) if (q_state[k] == 1) return false; return true; }(), "empty tells whether something waits");
    }
    UTask t; while (q.tryPop(t)) t(); SYM_ASSERT(q_ok, "a waiting task of larger priority is taken first"); for (int k = 0; k < q_n; k++) SYM_ASSERT(q_state[k] == 2, "every task is taken once");
  } else {                                                                              // through the pool: one secondary thread, first kept busy by a task that waits for the others to be queued
    q_n = len; UThreadPoolConfig c = h_cfg(sym_opt("prim", 1), 1); c.batch_task_enable_ = sym_opt("batched", 0);
    __sym_sched(1);
    { UThreadPool tp(true, c); std::promise<void> go; std::shared_future<void> gate(go.get_future()); auto f0 = tp.commitWithPriority([gate] { gate.wait(); }, 1000); std::future<void> f[8];
      while (!tp.priority_task_queue_.empty()) std::this_thread::yield();
      for (int i = 0; i < len; i++) { q_prio[i] = sym_int("priority"); q_state[i] = 1; f[i] = tp.commitWithPriority(Tk{i}, q_prio[i]); }
      go.set_value(); f0.wait(); for (int i = 0; i < len; i++) f[i].wait(); SYM_ASSERT(q_ok, "the pool takes a task of larger priority first"); for (int i = 0; i < len; i++) SYM_ASSERT(q_state[i] == 2, "every task runs"); }
    __sym_sched(0);
  }
  __sym_reach("end");
}
