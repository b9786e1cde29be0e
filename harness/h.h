// Shared parts of the harnesses: recording of what user code saw, small pools, symbolic graphs.
#pragma once
#include "CGraph.h"
#include "sym.h"
#include <vector>
#include <string>
using namespace CGraph;
static const int MAXE = 12;
static int h_next = 0, h_seq = 0;                                    // next element id, global event counter
static int h_runs[MAXE], h_beg[MAXE] /* first start */, h_end[MAXE], h_inits[MAXE], h_dests[MAXE], h_initAt[MAXE], h_destAt[MAXE], h_active[MAXE];
static int h_rc[MAXE], h_irc[MAXE], h_drc[MAXE];                     // codes the hooks return
static unsigned h_tid[MAXE];                                         // thread that ran the element last
static inline void h_reset() { h_seq = 0; for (int i = 0; i < MAXE; i++) h_runs[i] = h_beg[i] = h_end[i] = h_active[i] = 0; }
static inline CStatus h_status(int rc) { return rc == 0 ? CStatus() : CStatus(rc, "e"); }
// a node that records when it runs; the body has a scheduling point in its middle, so that bodies can overlap
class Nd : public GNode {
 public:
  int id = h_next++;
  CStatus init() override { h_inits[id]++; h_initAt[id] = ++h_seq; return h_status(h_irc[id]); }
  CStatus destroy() override { h_dests[id]++; h_destAt[id] = ++h_seq; return h_status(h_drc[id]); }
  CStatus run() override {
    h_runs[id]++; ++h_seq; if (!h_beg[id]) h_beg[id] = h_seq; h_active[id]++; h_tid[id] = (unsigned)__sym_tid();
    body(); h_active[id]--; h_end[id] = ++h_seq; return h_status(h_rc[id]);
  }
  virtual void body() {}
};
struct Nv : Nd { void body() override { __sym_visible(); } };        // body with a scheduling point
static inline UThreadPoolConfig h_cfg(int prim = 2, int sec = 0, int mx = -1) {
  UThreadPoolConfig c; c.default_thread_size_ = prim; c.secondary_thread_size_ = sec; c.max_thread_size_ = mx < 0 ? prim + sec : mx; c.monitor_enable_ = false; c.pipeline_wait_busy_epoch_ = sym_opt("busy_epoch", 0);
  c.primary_thread_busy_epoch_ = sym_opt("worker_epoch", 1); return c;
}
static inline GPipelinePtr h_pipe(int prim = 2, int sec = 0) { GPipelinePtr p = GPipelineFactory::create(); p->setUniqueThreadPoolConfig(h_cfg(prim, sec)); return p; }
static inline GEngineType h_engine(int e) { return e == 0 ? GEngineType::DYNAMIC : e == 1 ? GEngineType::STATIC : GEngineType::TOPO; }
static int h_throwIn[MAXE];                                          // bit 0: run throws, bit 1: init, bit 2: destroy
struct Nt : Nd {
  CStatus init() override { CStatus s = Nd::init(); if (h_throwIn[id] & 2) { CGRAPH_THROW_EXCEPTION("init boom") } return s; }
  CStatus run() override { h_runs[id]++; ++h_seq; if (!h_beg[id]) h_beg[id] = h_seq; h_active[id]++; h_tid[id] = (unsigned)__sym_tid(); __sym_visible(); h_active[id]--; h_end[id] = ++h_seq; if (h_throwIn[id] & 1) { CGRAPH_THROW_EXCEPTION("run boom") } return h_status(h_rc[id]); }
  CStatus destroy() override { CStatus s = Nd::destroy(); if (h_throwIn[id] & 4) { CGRAPH_THROW_EXCEPTION("destroy boom") } return s; }
};
template <class T> static GElementPtr h_node(GPipelinePtr p, const char* name = "n") { return p->createGNode<T>(GElementPtrSet(), name, 1); }
static int h_choose = 0; static bool h_match[MAXE]; static int h_wait = 1;
class HCond : public GCondition { protected: CIndex choose() override { return h_choose; } };
class HSome : public GSome { protected: CSize getWaitNum() override { return (CSize)h_wait; } };
class HMut : public GMutable { protected: CStatus reshape(GElementPtrArr& es) override { for (auto* e : es) e->setVisible(true); return CStatus(); } };
struct Nm : Nt { CBool isMatch() override { return h_match[id]; } };
enum { K_NODE, K_CLUSTER, K_REGION, K_COND, K_MULTIS, K_MULTIP, K_MUT, K_SOME, K_COUNT };
static GElementPtr h_wrap(GPipelinePtr p, int kind, const GElementPtrArr& ch, const char* name = "g") {
  switch (kind) {
    case K_CLUSTER: return p->createGGroup<GCluster>(ch, {}, name); case K_REGION: return p->createGGroup<GRegion>(ch, {}, name); case K_COND: return p->createGGroup<HCond>(ch, {}, name);
    case K_MULTIS: return p->createGGroup<GMultiCondition<GMultiConditionType::SERIAL>>(ch, {}, name); case K_MULTIP: return p->createGGroup<GMultiCondition<GMultiConditionType::PARALLEL>>(ch, {}, name);
    case K_MUT: return p->createGGroup<HMut>(ch, {}, name); case K_SOME: return p->createGGroup<HSome>(ch, {}, name);
  }
  return nullptr;
}
