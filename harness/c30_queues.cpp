// C30: the pool's queues neither lose, duplicate, invent nor reorder entries; try-operations fail only on empty or contended queues; waiting pops wake up.
#include "h.h"
#include <deque>
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 4);
  if (mode == 0) {                                                              // work-stealing deque, one thread
    UWorkStealingQueue<int> q; std::deque<int> m; int next = sym_int("first");
    for (int s = 0; s < len; s++) switch (sym_pick("op", 8)) {
      case 0: { int v = next++; m.push_back(v); q.push(std::move(v)); break; }
      case 1: { int v = next++; m.push_back(v); SYM_ASSERT(q.tryPush(std::move(v)), "an uncontended tryPush succeeds"); break; }
      case 2: { std::vector<int> v; for (int k = 0, n = sym_pick("n", 3); k < n; k++) { v.push_back(next); m.push_back(next++); } q.push(v); break; }
      case 3: { int v = 0; bool r = q.tryPop(v); SYM_ASSERT(r == !m.empty(), "an uncontended pop fails only when empty"); if (r) { SYM_ASSERT(v == m.front(), "pop takes the oldest entry"); m.pop_front(); } break; }
      case 4: { int v = 0; bool r = q.trySteal(v); SYM_ASSERT(r == !m.empty(), "an uncontended steal fails only when empty"); if (r) { SYM_ASSERT(v == m.back(), "steal takes the newest entry"); m.pop_back(); } break; }
      case 5: { std::vector<int> v; int mx = 1 + sym_pick("batch", 2); bool r = q.tryPop(v, mx); SYM_ASSERT(r == !m.empty() && (int)v.size() == ((int)m.size() < mx ? (int)m.size() : mx), "a batch pop takes what it can"); for (int x : v) { SYM_ASSERT(x == m.front(), "a batch pop takes the oldest entries in order"); m.pop_front(); } break; }
      case 6: { std::vector<int> v; int mx = 1 + sym_pick("batch", 2); bool r = q.trySteal(v, mx); SYM_ASSERT(r == !m.empty() && (int)v.size() == ((int)m.size() < mx ? (int)m.size() : mx), "a batch steal takes what it can"); for (int x : v) { SYM_ASSERT(x == m.back(), "a batch steal takes the newest entries"); m.pop_back(); } break; }
      default: { int v = next++, w = next++, u = next++; m.push_back(v); m.push_back(u); m.push_back(w); auto shut = [&] { int x = -1; std::vector<int> y; bool got = false; std::thread t([&] { got = q.tryPop(x) || q.trySteal(x) || q.tryPop(y, 1) || q.trySteal(y, 1) || q.tryPush(std::move(x)); }); t.join(); SYM_ASSERT(!got && x == -1 && y.empty(), "nothing is taken or added in the middle of a locked batch of pushes"); }; q.push(std::move(v), true, true); shut(); q.push(std::move(u), false, false); shut(); q.push(std::move(w), true, false); int x = 0; SYM_ASSERT(q.tryPush(std::move(x)), "the lock is free after a locked batch of pushes"); m.push_back(0); break; }
    }
    SYM_ASSERT(q.isEmpty() == m.empty(), "empty tells whether something waits"); int v; while (!m.empty()) { SYM_ASSERT(q.tryPop(v) && v == m.front(), "everything pushed is still there"); m.pop_front(); } SYM_ASSERT(!q.tryPop(v) && q.isEmpty(), "nothing is invented");
  } else if (mode == 6) {                                                       // values that can only be moved: refused ones stay with the caller
    UWorkStealingQueue<std::unique_ptr<int>> q; std::deque<int> m; int next = 0; for (int k = 0; k < len; k++) { std::unique_ptr<int> v(new int(next)), x; int op = sym_pick("op", 5);
      if (op == 0) { q.push(std::move(v)); m.push_back(next); SYM_ASSERT(!v, "a pushed value is taken"); } else if (op == 1) { bool r = true; q.mutex_.lock(); std::thread t([&] { r = q.tryPush(std::move(v)); }); t.join(); q.mutex_.unlock(); SYM_ASSERT(!r && v && *v == next, "a value that is refused stays with the caller"); } else if (op == 2) { SYM_ASSERT(q.tryPush(std::move(v)) && !v, "an uncontended tryPush succeeds"); m.push_back(next); }
      else { bool r = op == 3 ? q.tryPop(x) : q.trySteal(x); SYM_ASSERT(r == !m.empty() && r == !!x, "taking succeeds exactly when there is something"); if (r) { SYM_ASSERT(*x == (op == 3 ? m.front() : m.back()), "from its end"); if (op == 3) m.pop_front(); else m.pop_back(); } } next++; }
    std::unique_ptr<int> x; while (!m.empty()) { SYM_ASSERT(q.tryPop(x) && *x == m.front(), "everything pushed is still there"); m.pop_front(); }
  } else if (mode == 1) {                                                       // pool queue, one thread
    UAtomicQueue<int> q; std::deque<int> m; int next = sym_int("first");
    for (int s = 0; s < len; s++) switch (sym_pick("op", 7)) {
      case 0: { int v = next++; m.push_back(v); q.push(std::move(v)); break; }
      case 1: { int v = 0; bool r = q.tryPop(v); SYM_ASSERT(r == !m.empty() && (!r || v == m.front()), "pop takes the oldest entry"); if (r) m.pop_front(); break; }
      case 2: { std::vector<int> v; int mx = 1 + sym_pick("batch", 2); bool r = q.tryPop(v, mx); SYM_ASSERT(r == !m.empty() && (int)v.size() == ((int)m.size() < mx ? (int)m.size() : mx), "a batch pop takes what it can"); for (int x : v) { SYM_ASSERT(x == m.front(), "a batch pop takes the oldest entries in order"); m.pop_front(); } break; }
      case 3: { auto p = q.tryPop(); SYM_ASSERT((p != nullptr) == !m.empty() && (!p || *p == m.front()), "pop takes the oldest entry"); if (p) m.pop_front(); break; }
      case 4: { auto p = q.popWithTimeout(1); SYM_ASSERT((p != nullptr) == !m.empty() && (!p || *p == m.front()), "a timed pop fails only when nothing came in time"); if (p) m.pop_front(); break; }
      case 5: if (!m.empty()) { int v = 0; q.waitPop(v); SYM_ASSERT(v == m.front(), "pop takes the oldest entry"); m.pop_front(); } break;
      default: { q.reset(); SYM_ASSERT(q.popWithTimeout(1) == nullptr, "a timed pop ends on a queue being shut down"); q.setup(); m.clear(); SYM_ASSERT(q.empty(), "setup starts with an empty queue"); break; }
    }
    SYM_ASSERT(q.empty() == m.empty(), "empty tells whether something waits");
  } else if (mode == 2) {                                                       // owner, thief and a second producer on a work-stealing deque
    const int n = sym_opt("n", 2), batch = sym_opt("batch", 0); UWorkStealingQueue<int> q; std::vector<int> got[3]; int refused = 0; __sym_sched(1);
    auto steal = [&] { for (int k = 0; k < n; k++) { if (batch) { std::vector<int> v; bool r = q.trySteal(v, 2); SYM_ASSERT(r == !v.empty() && v.size() <= 2, "a steal tells whether it took something"); for (int x : v) got[1].push_back(x); } else { int v = -1; if (q.trySteal(v)) got[1].push_back(v); } } };
    std::thread th(steal), pr([&] { for (int k = 0; k < n; k++) { int v = 100 + k; if (k & 1) { int w = v; if (!q.tryPush(std::move(w))) { refused++; q.push(std::move(v)); } } else q.push(std::move(v)); } });
    for (int k = 0; k < n; k++) { int v = k; q.push(std::move(v)); int x = -1; if (sym_opt("popping", 1)) { if (batch) { std::vector<int> b; q.tryPop(b, 2); for (int y : b) got[0].push_back(y); } else if (q.tryPop(x)) got[0].push_back(x); } }
    th.join(); pr.join(); int v; while (q.tryPop(v)) got[2].push_back(v); __sym_sched(0);
    int seen[2][8] = {}, last[2] = {-1, -1}; for (auto& g : got) for (int x : g) { int p = x >= 100, i = x % 100; SYM_ASSERT(x >= 0 && i < n && !seen[p][i]++, "each entry is taken once"); } for (int i = 0; i < n; i++) SYM_ASSERT(seen[0][i] && seen[1][i], "no entry is lost");
    for (int g : {0, 2}) { last[0] = last[1] = -1; for (int x : got[g]) { int p = x >= 100, i = x % 100; SYM_ASSERT(i > last[p], "popped entries of one producer come in order"); last[p] = i; } }
  } else if (mode == 4) {                                                       // ring buffer with shared values, one thread
    typedef URingBufferPushStrategy RS; UAtomicRingBufferQueue<int, 2> q; std::deque<int> m; int cap = 2, next = sym_int("first"); SYM_ASSERT((int)q.getCapacity() == 2, "the capacity is the one declared"); std::vector<std::weak_ptr<int>> w;
    for (int s = 0; s < len; s++) { int op = sym_pick("op", m.empty() ? 6 : 5); switch (op) {
      case 0: case 1: case 2: { if (op == 0 && (int)m.size() == cap) break; auto v = std::make_shared<int>(next); w.push_back(v); q.push(v, op == 0 ? RS::WAIT : op == 1 ? RS::REPLACE : RS::DROP); if ((int)m.size() < cap) m.push_back(next); else { __sym_reach("full"); if (op == 1) { m.pop_front(); m.push_back(next); } } next++; break; }
      case 3: { std::shared_ptr<int> v; CStatus st = q.waitPopWithTimeout(v, 1); SYM_ASSERT(st.isOK() == !m.empty() && (m.empty() || *v == m.front()), "a timed pop takes the oldest entry and fails only when nothing came"); if (!m.empty()) m.pop_front(); break; }
      case 4: SYM_ASSERT(q.clear().isOK(), "clear succeeds"); m.clear(); for (auto& x : w) SYM_ASSERT(x.expired(), "a cleared queue keeps nothing alive"); break;
      default: q.clear(); cap = 1 + sym_pick("capacity", 3); q.setCapacity(cap); SYM_ASSERT((int)q.getCapacity() == cap, "the capacity is the one set"); break; } }
    std::shared_ptr<int> v; while (!m.empty()) { SYM_ASSERT(q.waitPopWithTimeout(v, 1).isOK() && *v == m.front(), "everything pushed is still there"); m.pop_front(); } SYM_ASSERT(q.waitPopWithTimeout(v, 1).isErr(), "nothing is invented");
  } else if (mode == 5) {                                                       // ring buffer, producers and consumers at once
    const int n = sym_opt("n", 1), cons = sym_opt("consumers", 2), prod = sym_opt("producers", 2); UAtomicRingBufferQueue<int, 2> q; std::vector<int> got[3]; int64_t t0 = __sym_now(); __sym_sched(1); std::vector<std::thread> ts;
    for (int k = 0; k < cons; k++) ts.emplace_back([&, k] { for (int i = 0; i < prod * n / cons; i++) { std::shared_ptr<int> v; SYM_ASSERT(q.waitPopWithTimeout(v, 1000000).isOK() && v, "a timed pop sees an entry that comes in time"); got[k].push_back(*v); } });
    for (int p = 0; p < prod; p++) ts.emplace_back([&, p] { for (int i = 0; i < n; i++) q.push(std::make_shared<int>(p * 8 + i), URingBufferPushStrategy::WAIT); });
    for (auto& x : ts) x.join(); __sym_sched(0); SYM_ASSERT(__sym_now() - t0 < 1000000000000ll, "a waiting pop is woken by what is pushed, not by its timeout");
    int seen[16] = {}; for (auto& g : got) { int last[2] = {-1, -1}; for (int x : g) { SYM_ASSERT(x >= 0 && x < 16 && !seen[x]++ && x % 8 > last[x / 8], "each entry is taken once and in its producer's order"); last[x / 8] = x % 8; } } for (int p = 0; p < prod; p++) for (int i = 0; i < n; i++) SYM_ASSERT(seen[p * 8 + i], "no entry is lost");
  } else {                                                       // producers and consumers of every kind on the pool queue
    const int n = sym_opt("n", 2); UAtomicQueue<int> q; std::vector<int> got[2]; int64_t t0 = __sym_now(); __sym_sched(1);
    std::thread pa([&] { for (int k = 0; k < n; k++) { int v = k; q.push(std::move(v)); } }), co([&] { for (int k = 0; k < n; k++) { if (sym_opt("timed", 0)) { auto p = q.popWithTimeout(1000000); SYM_ASSERT(p != nullptr, "a timed pop sees an entry that comes in time"); got[0].push_back(*p); } else { int v = -1; q.waitPop(v); got[0].push_back(v); } } });
    for (int k = 0; k < n; k++) { int v = 100 + k; q.push(std::move(v)); }
    int v; while ((int)got[1].size() < n) { if (sym_opt("batch", 0)) { std::vector<int> b; bool r = q.tryPop(b, 1); SYM_ASSERT(r == (b.size() == 1), "a batch pop tells whether it took something"); for (int x : b) got[1].push_back(x); if (r) continue; } else if (q.tryPop(v)) { got[1].push_back(v); continue; } std::this_thread::yield(); } pa.join(); co.join(); __sym_sched(0); SYM_ASSERT(__sym_now() - t0 < 900000000000ll, "a waiting pop is woken by what is pushed, not by its timeout");
    int seen[2][8] = {}; for (auto& g : got) { int last[2] = {-1, -1}; for (int x : g) { int p = x >= 100, i = x % 100; SYM_ASSERT(x >= 0 && i < n && !seen[p][i]++ && i > last[p], "each entry is taken once and in its producer's order"); last[p] = i; } }
    for (int i = 0; i < n; i++) SYM_ASSERT(seen[0][i] && seen[1][i], "no entry is lost"); SYM_ASSERT(q.empty(), "nothing is invented");
  }
  __sym_reach("end");
}
