// C43: the spin lock admits one holder at a time, the semaphore lets as many waiters pass as it was signalled, the single-entry lock free queue hands entries over in order.
#include "h.h"
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), n = sym_opt("n", 2);
  if (mode == 0) {
    USpinLock lk; int in = 0, cnt = 0; __sym_sched(1); auto f = [&] { for (int k = 0; k < n; k++) { if (k || !lk.tryLock()) lk.lock(); SYM_ASSERT(++in == 1, "one holder at a time"); __sym_visible(); cnt++; in--; lk.unlock(); } };
    std::thread a(f), b(f); a.join(); b.join(); SYM_ASSERT(cnt == 2 * n, "every holder got the lock"); SYM_ASSERT(lk.tryLock() && !lk.tryLock(), "tryLock takes a free lock and only a free one"); lk.unlock(); __sym_sched(0);
  } else if (mode == 1) {
    USemaphore s; int sig = 0, pass = 0; __sym_sched(1); auto w = [&] { for (int k = 0; k < n; k++) { s.wait(); pass++; SYM_ASSERT(pass <= sig, "no more waiters pass than signals were given"); } };
    std::thread a(w), b(w); for (int k = 0; k < 2 * n; k++) { sig++; s.signal(); } a.join(); b.join(); SYM_ASSERT(pass == 2 * n, "every signal lets one waiter pass"); __sym_sched(0);
  } else {
    ULockFreeRingBufferQueue<int, 3> q; int v = -1, first = sym_int("first"); SYM_ASSERT(!q.tryPop(v), "an empty queue gives nothing"); const int m = 4; __sym_sched(1);
    std::thread a([&] { for (int k = 0; k < m; k++) q.push(first + k); }); for (int k = 0; k < m;) { if (q.tryPop(v)) { SYM_ASSERT(v == first + k, "entries arrive once and in order"); k++; } else std::this_thread::yield(); }
    a.join(); SYM_ASSERT(!q.tryPop(v), "nothing is invented"); __sym_sched(0);
  }
  __sym_reach("end");
}
