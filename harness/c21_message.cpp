// C21: messages of a topic arrive in order, once each; WAIT blocks when the topic is full, REPLACE discards the oldest, DROP the newest.
#include "h.h"
#include <deque>
struct M : GMessageParam { int v = 0; }; struct M2 : GMessageParam { int w = 0; };
typedef GMessageManager<> MM; struct Mgr : MM { ~Mgr() override {} };
static std::shared_ptr<M> mk(int v) { std::shared_ptr<M> m(new M()); m->v = v; return m; }
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 4); MM* mm = GMessageManagerSingleton::get();
  static const char* names[2] = {"a", "b"};
  if (mode == 0) {                                                              // one thread, two topics
    std::deque<int> q[2]; int cap[2] = {0, 0}, typ[2] = {0, 0}; bool have[2] = {false, false};
    for (int s = 0; s < len; s++) {
      int t = sym_pick("topic", s == 0 ? 1 : 2), op = s == 0 ? 0 : sym_pick("op", 6); CStatus st;
      if (op == 0) { int c = 1 + sym_pick("size", 3), ty = s == 0 ? 0 : sym_pick("type", 2); st = ty ? mm->createTopic<M2>(names[t], c) : mm->createTopic<M>(names[t], c); if (have[t]) SYM_ASSERT(st.isOK() == (cap[t] == c && typ[t] == ty), "creating a topic again is fine only with the same type and size"); else { SYM_ASSERT(st.isOK(), "a topic is created"); have[t] = true; cap[t] = c; typ[t] = ty; } }
      else if (op == 1) { st = mm->removeTopic(names[t]); SYM_ASSERT(st.isOK() == have[t], "only an existing topic can be removed"); have[t] = false; q[t].clear(); }
      else if (op == 2) { if (have[t] && typ[t]) continue; std::shared_ptr<M> r; int wait = s & 1 ? 0 : 20; int64_t t0 = __sym_now(); st = mm->recvTopicValue<M>(names[t], r, wait); SYM_ASSERT(__sym_now() - t0 <= wait * 1000000ll + 1000000, "a receive ends with its timeout"); bool ok = have[t] && !q[t].empty(); SYM_ASSERT(st.isOK() == ok, "a receive succeeds exactly when a message is pending"); if (ok) { SYM_ASSERT(r && r->v == q[t].front(), "messages arrive in sending order with their values"); q[t].pop_front(); } }
      else { if (have[t] && typ[t]) continue; int v = sym_int("value"); GMessagePushStrategy g = op == 3 ? GMessagePushStrategy::WAIT : op == 4 ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP; bool full = have[t] && (int)q[t].size() == cap[t]; if (op == 3 && full) continue;
        st = mm->sendTopicValue<M>(names[t], mk(v), g); SYM_ASSERT(st.isOK() == have[t], "only an unknown topic refuses a message"); if (!have[t]) continue;
        if (!full) q[t].push_back(v); else { __sym_reach("full"); if (op == 4) { q[t].pop_front(); q[t].push_back(v); } } }
    }
    for (int t = 0; t < 2; t++) if (have[t] && !typ[t]) { std::shared_ptr<M> r; while (!q[t].empty()) { SYM_ASSERT(mm->recvTopicValue<M>(names[t], r, 1).isOK() && r->v == q[t].front(), "every pending message arrives"); q[t].pop_front(); } SYM_ASSERT(mm->recvTopicValue<M>(names[t], r, 1).isErr(), "nothing arrives twice"); }
  } else if (mode == 2) {                                                       // a waiting sender goes on as soon as there is room, though nobody empties the topic
    const int c = sym_opt("size", 2), snd = sym_opt("senders", 2); SYM_ASSERT(mm->createTopic<M>("a", c).isOK(), "a topic is created"); for (int i = 0; i < c; i++) SYM_ASSERT(mm->sendTopicValue<M>("a", mk(i), GMessagePushStrategy::WAIT).isOK(), "send succeeds"); __sym_sched(1); int sent = 0, k = 1 + sym_pick("room", snd); std::vector<std::thread> ts; std::vector<int> got;
    auto put = [&](int j) { ts.emplace_back([&, j] { SYM_ASSERT(mm->sendTopicValue<M>("a", mk(c + j), GMessagePushStrategy::WAIT).isOK(), "send succeeds"); sent++; }); }; auto take = [&] { std::shared_ptr<M> r; SYM_ASSERT(mm->recvTopicValue<M>("a", r).isOK(), "receive succeeds"); got.push_back(r->v); };
    for (int j = 0; j < snd; j++) put(j); for (int i = 0; i < k; i++) take(); while (sent < k) std::this_thread::sleep_for(std::chrono::milliseconds(10)); SYM_ASSERT(sent == k, "as many senders go on as there is room"); for (int i = k; i < snd; i++) take(); for (auto& t : ts) t.join(); for (int i = 0; i < c; i++) take(); __sym_sched(0);
    SYM_ASSERT((int)got.size() == c + snd, "every message arrives"); int seen = 0; for (int i = 0; i < c; i++) SYM_ASSERT(got[i] == i, "in order"); for (int v : got) { SYM_ASSERT(v >= 0 && v < c + snd && !(seen >> v & 1), "once"); seen |= 1 << v; } std::shared_ptr<M> r; SYM_ASSERT(mm->recvTopicValue<M>("a", r, 1).isErr(), "nothing is left");
  } else {                                                                      // senders and receivers at once, WAIT
    int prod = sym_opt("producers", 1), cons = sym_opt("consumers", 1), n = sym_opt("n", 3), c = sym_opt("size", 1); int val[2][4]; for (int p = 0; p < prod; p++) for (int i = 0; i < n; i++) val[p][i] = (p << 8) | i;
    SYM_ASSERT(mm->createTopic<M>("a", c).isOK(), "a topic is created"); int64_t t0 = __sym_now(); __sym_sched(1); std::vector<int> got[2]; std::vector<std::thread> ts;
    for (int p = 0; p < prod; p++) ts.emplace_back([&, p] { for (int i = 0; i < n; i++) SYM_ASSERT(mm->sendTopicValue<M>("a", mk(val[p][i]), GMessagePushStrategy::WAIT).isOK(), "send succeeds"); });
    for (int k = 0; k < cons; k++) ts.emplace_back([&, k] { for (int i = 0; i < prod * n / cons; i++) { std::shared_ptr<M> r; SYM_ASSERT(mm->recvTopicValue<M>("a", r).isOK(), "receive succeeds"); got[k].push_back(r->v); } });
    for (auto& t : ts) t.join(); SYM_ASSERT(__sym_now() - t0 < 1000000000000ll, "a receiver is woken by what is sent, not by its timeout");
    int seen[2][4] = {}; for (int k = 0; k < cons; k++) { int last[2] = {-1, -1}; for (int v : got[k]) { int p = v >> 8, i = v & 255; SYM_ASSERT(p < prod && i < n && !seen[p][i]++, "each message is received once"); SYM_ASSERT(i > last[p], "a receiver sees one sender's messages in order"); last[p] = i; } }
    std::shared_ptr<M> r; SYM_ASSERT(mm->recvTopicValue<M>("a", r, 1).isErr(), "nothing is left"); __sym_sched(0);
  }
  mm->clear(); __sym_reach("end");
}
