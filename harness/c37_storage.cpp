// C37: a pipeline saved and loaded into a fresh one is the same pipeline; what cannot be written, read or rebuilt is an error.
#include "h.h"
#include <fstream>
static std::string nm37(int i) { return std::string("n") + (char)('0' + i); }
struct Gp : GParam { int v = 7; }; static Gp* at37[8]; static int miss37[2]; enum { NODE37, NODE37B, EVENT37, DAEMON37, STAGE37, ASPECT37 };      // what each part of the pipeline finds under the key "a"
static int runs37[2][8], gen37, ord37[2][8], seq37;
struct Q : GNode {                                                    // its trace is by name, so that the original and the loaded pipeline can be compared
  int at() { return getName()[1] - '0'; }
  CStatus run() override { at37[at() & 1] = getGParam<Gp>("a"); miss37[gen37] |= !at37[at() & 1]; runs37[gen37][at()]++; if (!ord37[gen37][at()]) ord37[gen37][at()] = ++seq37; return CStatus(); }
  CBool isMatch() override { return at() != 5; }
};
struct Q2 : Q {}; struct Q3 : Q {};
static int asp37[2][3]; template <int K> struct A37 : GAspect { CStatus beginRun() override { at37[ASPECT37] = this->template getGParam<Gp>("a"); asp37[gen37][K]++; asp37[gen37][2] = asp37[gen37][2] * 3 + K + 1; return CStatus(); } };
struct Gp2 : Gp {}; struct Ep : GElementParam { int v = 3; CVoid clone(GPassedParam* p) override { v = ((Ep*)p)->v; } }; struct Ep2 : Ep {};
static int ev37[2]; template <int K> struct E37 : GEvent { CVoid trigger(GEventParamPtr) override { at37[EVENT37] = this->template getGParam<Gp>("a"); ev37[K]++; } }; struct D37 : GDaemon { CVoid daemonTask(GDaemonParamPtr) override { at37[DAEMON37] = getGParam<Gp>("a"); } }; struct D38 : D37 {}; struct S37 : GStage { CVoid launch(GStageParamPtr) override { at37[STAGE37] = getGParam<Gp>("a"); } };
template <class... T> static void meta37() { int x[] = {(GStorageFactory::registerMetaType<T>(), 0)...}; (void)x; }
static void metas37() { meta37<Q, Q2, Q3, A37<0>, A37<1>, Gp, Gp2, Ep, Ep2, E37<0>, E37<1>, D37, D38, S37, GCluster, GRegion, HCond, GMultiCondition<GMultiConditionType::SERIAL>, GMultiCondition<GMultiConditionType::PARALLEL>, HMut, HSome>(); }
static GElementPtr find37(GPipelinePtr p, const std::string& n) { GElementPtr r = nullptr; int k = 0; for (auto* e : p->repository_.elements_) if (e->getName() == n) { r = e; k++; } SYM_ASSERT(k <= 1, "no element appears twice"); return r; }
static bool names37(const GElementPtrArr& a, const GElementPtrArr& b, bool ordered) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { bool ok = false; for (size_t j = 0; j < b.size(); j++) if ((!ordered || i == j) && a[i]->getName() == b[j]->getName()) ok = true; if (!ok) return false; } return true; }
static void same37(GElementPtr a, GElementPtr b) {
  SYM_ASSERT(b, "every element is restored"); SYM_ASSERT(typeid(*a) == typeid(*b), "with its type"); SYM_ASSERT(a->getLoop() == b->getLoop(), "its loop count"); SYM_ASSERT(a->level_ == b->level_, "its level"); SYM_ASSERT(a->timeout_ == b->timeout_ && a->timeout_strategy_ == b->timeout_strategy_, "its timeout"); SYM_ASSERT(a->visible_ == b->visible_, "its visibility");
  SYM_ASSERT(a->getBindingIndex() == b->getBindingIndex(), "its binding"); SYM_ASSERT(a->isMacro() == b->isMacro(), "its macro flag"); SYM_ASSERT(a->getSession() == b->getSession(), "its session");
  auto x = a->getRelation(), y = b->getRelation(); SYM_ASSERT(names37(x.predecessors_, y.predecessors_, false), "its dependencies"); SYM_ASSERT(names37(x.successors_, y.successors_, false), "its successors"); SYM_ASSERT(names37(x.children_, y.children_, true), "its children in their order"); SYM_ASSERT(!x.belong_ == !y.belong_ && (!x.belong_ || x.belong_->getName() == y.belong_->getName()), "its group");
  for (const char* k : {"k", "k2"}) { Ep *p = a->getEParam<Ep>(k), *q = b->getEParam<Ep>(k); SYM_ASSERT(!p == !q && (!p || typeid(*p) == typeid(*q)), "its element parameters"); }
}
static void all37(GPipelinePtr p, GPipelinePtr q, int n) { int k = 0; for (auto* e : q->repository_.elements_) { (void)e; k++; } SYM_ASSERT(k == n, "nothing is added and nothing is lost"); for (auto* e : p->repository_.elements_) if (e->isRegistered()) same37(e, find37(q, e->getName())); }
static GPipelinePtr reload37(GPipelinePtr p, bool ok = true) { CStatus s = p->save("f"); SYM_ASSERT(s.isOK(), "saving succeeds"); GPipelinePtr q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isOK() == ok, "and loading"); return q; }
static void run37(GPipelinePtr p, GPipelinePtr q, int n, int code) {
  for (int g = 0; g < 2; g++) { gen37 = g; seq37 = miss37[g] = 0; for (int i = 0; i < 8; i++) runs37[g][i] = ord37[g][i] = 0; for (int i = 0; i < 3; i++) asp37[g][i] = 0; CStatus s = (g ? q : p)->process(); SYM_ASSERT((s.getCode() != 0) == (code != 0), "both run"); } SYM_ASSERT(miss37[0] == miss37[1], "elements find the parameters they found before");
  for (int i = 0; i < n; i++) SYM_ASSERT(runs37[0][i] == runs37[1][i], "every element runs as often as before"); for (int i = 0; i < 3; i++) SYM_ASSERT(asp37[0][i] == asp37[1][i], "its aspects are called as before");
}
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), n = sym_opt("nodes", 2), times = sym_opt("times", 1); CStatus s; GPipelinePtr p = h_pipe(sym_opt("pool", mode == 1 ? 4 : 1)), q = nullptr; GElementPtr e[8] = {}; metas37();
  if (mode == 0) {                                                                                       // nodes: attributes and dependencies
    for (int j = 0; j < n; j++) { GElementPtrSet d; for (int i = 0; i < j; i++) if (sym_bool("edge")) d.insert(e[i]); CSize loop = j ? 1 : 1 + (CSize)sym_pick("loop", 2); s += j % 2 ? p->registerGElement<Q2>(&e[j], d, nm37(j), loop) : p->registerGElement<Q>(&e[j], d, nm37(j), loop);
      e[j]->setLevel(sym_range("level", -1000, 1000)); if (loop == 1 && !sym_opt("run", 0)) e[j]->setTimeout(sym_range("timeout", 0, 1000000), (GElementTimeoutStrategy)sym_range("strategy", 0, 2)); e[j]->setVisible(sym_bool("visible")); e[j]->setBindingIndex(sym_opt("run", 0) ? (int)sym_range("binding", -1, 1) : sym_int("binding")); if (sym_opt("macro", 1)) e[j]->setMacro(sym_bool("macro")); }
    SYM_ASSERT(s.isOK(), "registration succeeds"); if (sym_opt("stray", 0)) p->createGNode<Q3>(GElementPtrSet(), "n7", 1); __sym_reach("saved");
    for (int t = 0; t < times; t++) { GPipelinePtr r = reload37(q ? q : p); if (q) GPipelineFactory::remove(q); q = r; all37(p, q, n); }
    if (sym_opt("run", 0)) run37(p, q, n, 0);
  } else if (mode == 1) {                                                                                // groups and nesting
    int ko = 1 + sym_pick("outer", 7), ki = sym_pick("inner", 8), cnt = 0; GElementPtr g = nullptr, in = nullptr, after = nullptr; h_choose = 1; h_wait = 1; auto mk = [&]() { GElementPtr x = p->createGNode<Q>(GElementPtrSet(), nm37(cnt), 1); cnt++; return x; };
    GElementPtr a = mk(), b = ki ? nullptr : mk(); if (ki) { GElementPtr c = mk(), d = mk(); in = h_wrap(p, ki, {c, d}, "g1"); if (ki == K_CLUSTER && ko != K_SOME && sym_bool("loop")) in->setLoop(2); }
    bool dep = ko == K_REGION && sym_bool("dep"); GElementPtr x = ki ? in : b; if (dep) s += x->addDependGElements({a}); g = h_wrap(p, ko, sym_bool("swap") && !dep ? GElementPtrArr{x, a} : GElementPtrArr{a, x}, "g0"); s += p->registerGGroup(&g, {}, "g0", 1); if (sym_bool("after")) { s += p->registerGElement<Q>(&after, {g}, nm37(cnt), 1); cnt++; }
    s += p->createGParam<Gp>("a"); SYM_ASSERT(s.isOK(), "registration succeeds"); if (sym_bool("aspect")) (sym_bool("onInner") && in ? in : g)->addGAspect<A37<0>>(); if (sym_bool("inner aspect")) a->addGAspect<A37<1>>(); Ep ep; if (sym_bool("eparam")) a->addEParam<Ep>("k", &ep); int total = cnt + 1 + (in ? 1 : 0); __sym_reach("saved");
    for (int t = 0; t < times; t++) { GPipelinePtr r = reload37(q ? q : p); if (q) GPipelineFactory::remove(q); q = r; all37(p, q, total); } bool longer = ko == K_SOME || ki == K_SOME; if (!longer) run37(p, q, cnt, 0);
  } else if (mode == 2) {                                                                                // managers
    Ep ep; Ep2 ep2; s = p->registerGElement<Q>(&e[0], {}, nm37(0), 1); s += p->registerGElement<Q2>(&e[1], {e[0]}, nm37(1), 1); bool gp = sym_bool("param"), gp2 = sym_bool("param2"), bt = gp && sym_bool("backtrace"), ev = sym_bool("event"), dm = sym_bool("daemon"), st = sym_bool("stage"); int iv = (int)sym_range("interval", 1, 100000), th = (int)sym_range("threshold", 1, 100000), nasp = sym_pick("aspects", 3);
    if (gp) s += p->createGParam<Gp>("a", bt); if (gp2) s += p->createGParam<Gp2>("b", !bt); if (ev) { p->addGEvent<E37<0>>("x"); p->addGEvent<E37<1>>("y"); } if (dm) { p->addGDaemon<D38>(iv); } if (st) p->addGStage<S37>("s", th); if (nasp == 1) e[1]->addGAspect<A37<0>>()->addGAspect<A37<1>>(); if (nasp == 2) e[1]->addGAspect<A37<1>>()->addGAspect<A37<0>>(); if (sym_bool("eparam")) { e[0]->addEParam<Ep>("k", &ep); e[0]->addEParam<Ep2>("k2", &ep2); }
    SYM_ASSERT(s.isOK(), "registration succeeds"); __sym_reach("saved");
    for (int t = 0; t < times; t++) { GPipelinePtr r = reload37(q ? q : p); if (q) GPipelineFactory::remove(q); q = r; all37(p, q, 2);
      Gp* x = q->getGParam<Gp>("a"); SYM_ASSERT(!!x == gp, "parameters are restored"); if (x) SYM_ASSERT(x->v == 7 && x->getKey() == "a" && x->backtrace_enable_ == bt, "with key, type and backtrace switch"); Gp2* y = q->getGParam<Gp2>("b"); SYM_ASSERT(!!y == gp2, "every parameter is restored with its type"); if (y) SYM_ASSERT(y->backtrace_enable_ == !bt && y->getKey() == "b", "each with its own switch");
      SYM_ASSERT((int)q->daemon_manager_->getSize() == (dm ? 1 : 0), "daemons are restored"); for (auto* d : q->daemon_manager_->daemons_) SYM_ASSERT(typeid(*d) == typeid(D38) && d->getInterval() == iv, "with their type and interval"); SYM_ASSERT(q->stage_manager_->stage_map_.size() == (st ? 1u : 0u), "stages are restored"); if (st) SYM_ASSERT(q->stage_manager_->stage_map_["s"] && q->stage_manager_->stage_map_["s"]->threshold_ == th, "with their threshold");
      s = q->event_manager_->init(); SYM_ASSERT(s.isOK(), "the events are initialised"); ev37[0] = ev37[1] = 0; q->event_manager_->trigger("x", GEventType::SYNC, GEventAsyncStrategy::NO_WAIT); SYM_ASSERT(ev37[0] == (ev ? 1 : 0) && !ev37[1], "each event is found under its key"); q->event_manager_->trigger("y", GEventType::SYNC, GEventAsyncStrategy::NO_WAIT); SYM_ASSERT(ev37[1] == (ev ? 1 : 0), "each event is found under its key");
      s = q->event_manager_->destroy(); SYM_ASSERT(s.isOK(), "the events are destroyed"); if (ev) SYM_ASSERT(at37[EVENT37] == x, "an event reaches the parameters of its pipeline"); for (auto*& z : at37) z = x; for (auto* d : q->daemon_manager_->daemons_) ((D38*)d)->daemonTask(nullptr); if (st) ((S37*)q->stage_manager_->stage_map_["s"])->launch(nullptr); for (auto* z : at37) SYM_ASSERT(z == x, "daemons and stages reach the parameters of their pipeline"); }
    if (!dm) { run37(p, q, 2, 0); Gp* x = q->getGParam<Gp>("a"); SYM_ASSERT(at37[NODE37] == x && at37[NODE37B] == x && (!nasp || at37[ASPECT37] == x), "elements and aspects reach the parameters of their pipeline"); }
  } else if (mode == 3) {                                                                                // the thread pool configuration, all values
    UThreadPoolConfig c; auto sz = [](const char* m) { return (int)sym_range(m, 0, 1000000); }; c.default_thread_size_ = sz("default"); c.secondary_thread_size_ = sz("secondary"); c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + sz("max"); c.max_task_steal_range_ = sym_int("steal"); c.max_local_batch_size_ = sym_int("local"); c.max_pool_batch_size_ = sym_int("pool"); c.max_steal_batch_size_ = sym_int("stealb");
    c.pipeline_wait_busy_epoch_ = sym_int("wait"); c.primary_thread_busy_epoch_ = sym_int("busy"); c.primary_thread_empty_interval_ = sym_int("empty"); c.secondary_thread_ttl_ = sym_int("ttl"); c.monitor_span_ = 1 + sz("span"); c.queue_emtpy_interval_ = sym_int("queue"); c.primary_thread_policy_ = sym_int("pp"); c.secondary_thread_policy_ = sym_int("sp"); c.primary_thread_priority_ = sym_int("ppr"); c.secondary_thread_priority_ = sym_int("spr");
    c.bind_cpu_enable_ = sym_bool("bind"); c.batch_task_enable_ = sym_bool("batch"); c.monitor_enable_ = sym_bool("monitor"); c.deliver_running_primary_thread_enable_ = sym_bool("deliver"); s = p->registerGElement<Q>(&e[0], {}, nm37(0), 1); p->setUniqueThreadPoolConfig(c); q = reload37(p); const UThreadPoolConfig& d = q->schedule_.config_; __sym_reach("saved");
#define EQ(f) SYM_ASSERT(c.f == d.f, "the thread pool configuration is restored: " #f)
    EQ(default_thread_size_); EQ(secondary_thread_size_); EQ(max_thread_size_); EQ(max_task_steal_range_); EQ(max_local_batch_size_); EQ(max_pool_batch_size_); EQ(max_steal_batch_size_); EQ(pipeline_wait_busy_epoch_); EQ(primary_thread_busy_epoch_); EQ(primary_thread_empty_interval_); EQ(secondary_thread_ttl_); EQ(monitor_span_); EQ(queue_emtpy_interval_); EQ(primary_thread_policy_); EQ(secondary_thread_policy_); EQ(primary_thread_priority_); EQ(secondary_thread_priority_); EQ(bind_cpu_enable_); EQ(batch_task_enable_); EQ(monitor_enable_); EQ(deliver_running_primary_thread_enable_);
  } else {                                                                                               // faults
    s = p->registerGElement<Q>(&e[0], {}, nm37(0), 1); s += p->registerGElement<Q2>(&e[1], {e[0]}, nm37(1), 1); e[1]->addGAspect<A37<0>>(); s += p->createGParam<Gp>("a"); p->addGEvent<E37<0>>("x"); p->addGDaemon<D37>(5); p->addGStage<S37>("s", 2); Ep ep; e[0]->addEParam<Ep>("k", &ep); int what = sym_opt("fault", -1) >= 0 ? sym_opt("fault", 0) : sym_pick("fault", 8);
    if (what == 0) { q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isErr(), "a file that does not exist is an error"); }
    else if (what == 1) { h_fsNoOpenW = true; s = p->save("f"); SYM_ASSERT(s.isErr(), "a file that cannot be created is an error"); }
    else if (what == 2) { h_fsBadWrite = true; s = p->save("f"); SYM_ASSERT(s.isErr(), "a write that fails is an error"); h_fsBadWrite = false; q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isErr(), "and what it left behind does not load"); }
    else if (what == 3 || what == 4) { s = p->save("f"); SYM_ASSERT(s.isOK(), "saving succeeds"); (what == 3 ? h_fsNoOpenR : h_fsBadRead) = true; q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isErr(), "a file that cannot be read is an error"); }
    else if (what == 5) { s = p->save("f"); SYM_ASSERT(s.isOK(), "saving succeeds"); int cut = sym_pick("cut", sym_opt("cuts", 64)); h_fsn = h_fsn * cut / sym_opt("cuts", 64); q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isErr(), "a truncated file is an error"); }
    else if (what == 6) { s = p->save("f"); SYM_ASSERT(s.isOK(), "saving succeeds"); int m = sym_pick("unregistered", 7); const char* k[] = {typeid(Q).name(), typeid(Q2).name(), typeid(A37<0>).name(), typeid(Gp).name(), typeid(E37<0>).name(), typeid(D37).name(), typeid(S37).name()}; GStorageFactory::meta_types_.erase(k[m]); q = h_pipe(1); s = q->load("f"); SYM_ASSERT(s.isErr(), "a type that is not registered is an error"); }
    else { GElementPtr f = nullptr; int ad = sym_pick("adapter", 3); if (ad == 0) s = p->registerGElement<GFunction>(&f, GElementPtrSet(), std::string("f"), (CSize)1); else if (ad == 1) s = p->registerGElement<GSingleton<Q3>>(&f, GElementPtrSet(), std::string("n3"), (CSize)1); else s = p->registerGElement<GFence>(&f, GElementPtrSet(), std::string("n4"), (CSize)1); SYM_ASSERT(s.isOK(), "registration succeeds"); s = p->save("f"); SYM_ASSERT(s.isErr(), "a pipeline with an adapter is not saved"); SYM_ASSERT(!h_fsWrites, "and nothing is written"); }
    if (what != 7) { s = p->init(); SYM_ASSERT(s.isOK(), "the original is not disturbed"); s = p->save("f"); SYM_ASSERT(s.isErr(), "an initialised pipeline is not saved"); s = p->load("f"); SYM_ASSERT(s.isErr(), "nor loaded into"); s = p->run(); SYM_ASSERT(s.isOK(), "and runs"); p->destroy(); } __sym_reach("fault");
  }
  if (q) GPipelineFactory::remove(q); GPipelineFactory::remove(p); __sym_reach("end");
}
