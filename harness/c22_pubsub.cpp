// C22: a published message reaches every connection bound to the topic at that moment, once and in order, and nobody else; detached and dropped connections are gone.
#include "h.h"
#include <deque>
struct M : GMessageParam { int v = 0; };
static std::shared_ptr<M> mk(int v) { std::shared_ptr<M> m(new M()); m->v = v; return m; }
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 5); auto* mm = GMessageManagerSingleton::get(); static const char* names[2] = {"a", "b"};
  if (mode == 0) {
    struct Conn { CIndex id; int topic, cap; bool live; std::deque<int> q; }; std::vector<Conn> cs; bool have[2] = {false, false};
    for (int s = 0; s < len; s++) {
      int op = s == 0 ? 0 : sym_pick("op", 6); CStatus st;
      if (op == 0) { int t = s == 0 ? 0 : sym_pick("topic", 2); Conn c{0, t, 1 + sym_pick("size", 2), true, {}}; c.id = mm->bindTopic<M>(names[t], c.cap); for (auto& o : cs) SYM_ASSERT(!o.live || o.id != c.id, "connection ids are distinct"); have[t] = true; cs.push_back(c); }
      else if (op == 1) { int t = sym_pick("topic", 2); int v = sym_int("value"); bool rep = sym_bool("replace"), full = false; for (auto& c : cs) if (c.live && c.topic == t && (int)c.q.size() == c.cap) full = true; int g = full ? 1 + (rep ? 1 : 0) : (rep ? 1 : 0);
        st = mm->pubTopicValue<M>(names[t], mk(v), g == 0 ? GMessagePushStrategy::WAIT : (rep ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP)); SYM_ASSERT(st.isOK() == have[t], "only an unknown topic refuses a message");
        for (auto& c : cs) if (c.live && c.topic == t) { if ((int)c.q.size() < c.cap) c.q.push_back(v); else { __sym_reach("full"); if (rep) { c.q.pop_front(); c.q.push_back(v); } } } }
      else if (op == 2) { int k = sym_pick("conn", (int)cs.size()); std::shared_ptr<M> r; auto& c = cs[k]; if (!c.live) for (auto& o : cs) if (o.live && o.id == c.id) goto next; st = mm->subTopicValue<M>(c.id, r, 1); { bool ok = c.live && !c.q.empty(); SYM_ASSERT(st.isOK() == ok, "a connection receives exactly what was published to it"); if (ok) { SYM_ASSERT(r && r->v == c.q.front(), "messages arrive in order with their values"); c.q.pop_front(); } else if (!c.live) __sym_reach("gone"); } }
      else if (op == 3) { int k = sym_pick("conn", (int)cs.size()); auto& c = cs[k]; if (!c.live) for (auto& o : cs) if (o.live && o.id == c.id) goto next; st = mm->detachConnId(names[c.topic], c.id); if (c.live) SYM_ASSERT(st.isOK(), "a bound connection can be detached"); c.live = false; }
      else if (op == 4) { int t = sym_pick("topic", 2); st = mm->dropTopic(names[t]); SYM_ASSERT(st.isOK() == have[t], "only a known topic can be dropped"); have[t] = false; for (auto& c : cs) if (c.topic == t) c.live = false; }
      else { SYM_ASSERT(mm->clear().isOK(), "clear succeeds"); have[0] = have[1] = false; for (auto& c : cs) c.live = false; }
      next:;
    }
    for (auto& c : cs) if (c.live) { std::shared_ptr<M> r; while (!c.q.empty()) { SYM_ASSERT(mm->subTopicValue<M>(c.id, r, 1).isOK() && r->v == c.q.front(), "every pending message arrives"); c.q.pop_front(); } SYM_ASSERT(mm->subTopicValue<M>(c.id, r, 1).isErr(), "nothing arrives twice"); }
  } else {                                                                      // publishers and subscribers at once
    int pubs = sym_opt("publishers", 1), subs = sym_opt("subscribers", 2), n = sym_opt("n", 2); CIndex id[3]; for (int k = 0; k < subs; k++) id[k] = mm->bindTopic<M>("a", 1 + k % 2); __sym_sched(1); std::vector<std::thread> ts;
    for (int p = 0; p < pubs; p++) ts.emplace_back([&, p] { for (int i = 0; i < n; i++) SYM_ASSERT(mm->pubTopicValue<M>("a", mk(p << 8 | i), GMessagePushStrategy::WAIT).isOK(), "publishing succeeds"); });
    for (int k = 0; k < subs; k++) ts.emplace_back([&, k] { int last[2] = {-1, -1}; for (int i = 0; i < pubs * n; i++) { std::shared_ptr<M> r; SYM_ASSERT(mm->subTopicValue<M>(id[k], r).isOK() && r->v >> 8 < pubs, "receiving succeeds"); SYM_ASSERT((r->v & 255) == last[r->v >> 8] + 1, "each subscriber sees every message of a publisher once, in order"); last[r->v >> 8]++; } });
    for (auto& t : ts) t.join();
    for (int k = 0; k < subs; k++) { std::shared_ptr<M> r; SYM_ASSERT(mm->subTopicValue<M>(id[k], r, 1).isErr(), "nothing is left"); } __sym_sched(0);
  }
  mm->clear(); __sym_reach("end");
}
