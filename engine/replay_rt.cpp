// Native replay of a counterexample: the harness and the real code run as real threads, one at a time, following the schedule and the input
// values that the solver produced.  Exit status: 1 the violation reproduced, 0 it did not, 2 the run diverged from the counterexample.
#include "sym.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <new>
#include <atomic>
#include <vector>
#include <string>
#include <exception>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <cxxabi.h>
extern "C" void harness_main();
template <class X> struct MA { typedef X value_type; MA() {} template <class Y> MA(const MA<Y>&) {} X* allocate(size_t n) { return (X*)malloc(n * sizeof(X)); } void deallocate(X* p, size_t) { free(p); } bool operator==(const MA&) const { return true; } bool operator!=(const MA&) const { return false; } };
template <class X> using MV = std::vector<X, MA<X>>;
namespace {
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
enum { RUN, B_MUTEX, B_CV, B_FUTEX, B_JOIN, B_SLEEP, B_RD, B_WR, DONE };
enum { W_VIS = 1, W_YIELD, W_BLOCK };
struct T { int status = RUN; u64 wa = 0, wb = 0; bool timed = false, fired = false, hasOneshot = false; i64 deadline = 0, oneshot = 0; u64 seq = 0; u32 burst = 0; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; void (*f)(void*) = nullptr; void* arg = nullptr; };
T th[64]; int nth = 1, cur = 0; pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER; __thread int me = 0;
i64 vclock = 1000000000; u64 vseq = 0; const i64 TBASE = 1000000000000000ll; bool clockAdvance = false;
MV<u64>* inputs; size_t inpos = 0; MV<u8>* trace; size_t trpos = 0; u64 extra = 0; struct OV { char n[100]; u64 v; };
MV<OV>* optv;
std::atomic<u64> live{0};   // objects allocated with new and not yet released
[[noreturn]] void out(int code, const char* what, const char* msg) { fprintf(stderr, "REPLAY %s: %s\n", what, msg); fflush(stderr); _exit(code); }
void diverged(const char* m) { out(2, "diverged", m); }
u32 rd(u64 a) { return *(volatile u32*)a; } void wr(u64 a, u32 v) { *(volatile u32*)a = v; }
bool enabled(int i) { T& t = th[i]; switch (t.status) { case RUN: return true; case B_MUTEX: return rd(t.wa) == 0; case B_JOIN: return th[t.wa].status == DONE; case B_RD: return rd(t.wa) == 0; case B_WR: return rd(t.wa) == 0 && rd(t.wa + 4) == 0; default: return false; } }
bool fireable(int i) { T& t = th[i]; return t.status == B_SLEEP || ((t.status == B_CV || t.status == B_FUTEX) && t.timed); }
void fire(int i) { T& t = th[i]; t.fired = true; if (t.deadline > vclock) vclock = t.deadline; if (t.status == B_CV) { t.status = B_MUTEX; t.wa = t.wb; } else t.status = RUN; }
int alive() { int n = 0; for (int i = 0; i < nth; i++) if (th[i].status != DONE) n++; return n; }
void sp(int why) {
  for (;;) {
    int chosen = -1;
    if (trpos < trace->size()) { chosen = (*trace)[trpos++]; int u = chosen & 63; if ((chosen & 0x40) || u >= nth) diverged("schedule entry"); if (chosen & 128) { if (!fireable(u)) diverged("timeout of a thread that is not waiting"); } else if (!enabled(u)) diverged("scheduled thread is not enabled"); }
    else {
      int n = nth; if (why == W_VIS && th[cur].burst > 400) why = W_YIELD; if (why == W_VIS) chosen = cur; else for (int k = 1; k <= n && chosen < 0; k++) if (enabled((cur + k) % n)) chosen = (cur + k) % n;
      if (chosen < 0 || (why == W_YIELD && extra % 5000 == 4999)) { i64 best = 0; int f = -1; for (int k = 1; k <= n; k++) { int i = (cur + k) % n; if (fireable(i) && (f < 0 || th[i].deadline < best)) { best = th[i].deadline; f = i | 128; } } if (f >= 0) chosen = f; }
      if (chosen < 0) out(1, "hang", "deadlock: every thread is blocked forever");
      if (++extra > 60000) out(1, "hang", "no progress after 60000 scheduling points past the counterexample");
    }
    int u = chosen & 63; if (chosen & 128) { fire(u); if (!enabled(u)) { why = W_BLOCK; continue; } }
    if (u != cur) th[u].burst = 0; else th[u].burst++; if (th[u].status != RUN) th[u].status = RUN;
    cur = u; break;
  }
  if (cur != me) { pthread_cond_signal(&th[cur].cv); if (th[me].status == DONE) return; while (cur != me) pthread_cond_wait(&th[me].cv, &big); }
}
void vis() { if (alive() > 1) sp(W_VIS); }
void block(int st, u64 wa) { T& t = th[me]; t.status = st; t.wa = wa; t.seq = ++vseq; sp(W_BLOCK); }
i64 relDl(i64 a) { return clockAdvance ? a - TBASE + 1000000000 : vclock + (a - TBASE); }
void* tmain(void* p) { me = (int)(long)p; pthread_mutex_lock(&big); while (cur != me) pthread_cond_wait(&th[me].cv, &big); th[me].f(th[me].arg); th[me].status = DONE; sp(W_BLOCK); pthread_mutex_unlock(&big); return nullptr; }
void onsig(int s) {
  const char* n = s == SIGSEGV || s == SIGBUS ? "memory" : s == SIGFPE ? "arithmetic" : s == SIGABRT ? "terminate" : s == SIGILL ? "ub" : "hang";
  if (s == SIGABRT) { static char b[256]; const char* t = "abort"; std::type_info* ti = abi::__cxa_current_exception_type(); if (ti) t = ti->name(); snprintf(b, 256, "std::terminate (%s)", t); out(1, n, b); }
  out(1, n, s == SIGALRM ? "no progress within the time limit" : "signal");
}
}
#ifndef REPLAY_ASAN
static const u64 HEAP0 = 0x100000000000ull + (1ull << 30), HEAP_SZ = 128ull << 20; static u64 bump[64]; static bool heapInit = false;
static void* balloc(size_t n) {
  if (!heapInit) { heapInit = true; mmap((void*)HEAP0, 41 * HEAP_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); for (int i = 0; i < 41; i++) bump[i] = HEAP0 + i * HEAP_SZ + 64; }
  u64 a = bump[me]; bump[me] += ((n ? n : 1) + 15 & ~15ull) + 32; memset((void*)a, 0xA5, n); return (void*)a;
}
void* operator new(size_t n) { live++; return balloc(n); } void* operator new[](size_t n) { live++; return balloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { live++; return balloc(n); } void* operator new[](size_t n, const std::nothrow_t&) noexcept { live++; return balloc(n); }
void operator delete(void* p) noexcept { if (p) live--; } void operator delete[](void* p) noexcept { if (p) live--; } void operator delete(void* p, size_t) noexcept { if (p) live--; } void operator delete[](void* p, size_t) noexcept { if (p) live--; }
#endif
static u64 next(const char* n) { if (inpos >= inputs->size()) diverged(n); return (*inputs)[inpos++]; }
extern "C" {
uint64_t __sym_make(const char* n, uint32_t w) { u64 v = next(n); return w >= 64 ? v : v & ((1ull << w) - 1); }
uint64_t __sym_range(const char* n, int64_t lo, int64_t hi) { i64 v = (i64)next(n); if (v < lo || v > hi) diverged(n); return (u64)v; }
uint64_t __sym_concrete(uint64_t v) { return v; }
void __sym_assume(int c) { if (!c) diverged("assumption"); }
void __sym_assert(int c, const char* m) { if (!c) out(1, "assert", m); }
void __sym_fail(const char* m) { out(1, "assert", m); }
void __sym_reach(const char*) {} void __sym_bound(const char*, uint64_t) {} void __sym_sched(int) {} void __sym_delays(int) {} void __sym_print(const char* s, uint64_t v) { if (getenv("REPLAY_V")) fprintf(stderr, "[T%d] %s %llu\n", me, s, (unsigned long long)v); }
uint64_t __sym_option(const char* n, uint64_t d) { for (auto& o : *optv) if (!strcmp(o.n, n)) return o.v; return d; }
void __sym_visible() { vis(); }
int __sym_tid() { return me; }
uint64_t __sym_live() { return live; }
int __sym_is_symbolic(uint64_t) { return 0; }
int __sym_is_freed(const void*) { return 0; }
uint64_t __sym_thread_create(void (*f)(void*), void* a) { vis(); int id = nth++; th[id].f = f; th[id].arg = a; pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); if (pthread_create(&t, &at, tmain, (void*)(long)id)) diverged("pthread_create"); return id; }
void __sym_thread_join(uint64_t t) { vis(); while (th[t].status != DONE) block(B_JOIN, t); }
int64_t __sym_now() { T& t = th[me]; if (clockAdvance) return TBASE + vclock - 1000000000; if (t.hasOneshot) { t.hasOneshot = false; return t.oneshot; } return TBASE; }
int __sym_futex_wait(unsigned* a, unsigned v, int timed, int64_t d) { vis(); if (*(volatile unsigned*)a != v) return 1; T& t = th[me]; t.timed = timed; t.fired = false; if (timed) { t.deadline = relDl(d); t.oneshot = d; } block(B_FUTEX, (u64)a); bool f = t.fired; if (f) t.hasOneshot = true; t.fired = t.timed = false; return !f; }
void __sym_futex_wake(unsigned* a) { vis(); for (int i = 0; i < nth; i++) if (th[i].status == B_FUTEX && th[i].wa == (u64)a) { th[i].status = RUN; th[i].timed = false; } }
u64 __rp_pthread_self() { return me + 1; }
static void mx_lock(u64 m, bool gate) { if (gate) vis(); for (;;) { u32 w = rd(m); if (!w) { wr(m, me + 1); return; } if (w == (u32)me + 1 && (rd(m + 16) & 3) == 1) { wr(m + 4, rd(m + 4) + 1); return; } block(B_MUTEX, m); } }
int __rp_pthread_mutex_lock(void* m) { mx_lock((u64)m, true); return 0; }
int __rp_pthread_mutex_trylock(void* p) { u64 m = (u64)p; vis(); u32 w = rd(m); if (!w) { wr(m, me + 1); return 0; } if (w == (u32)me + 1 && (rd(m + 16) & 3) == 1) { wr(m + 4, rd(m + 4) + 1); return 0; } return 16; }
int __rp_pthread_mutex_unlock(void* p) { u64 m = (u64)p; if (rd(m) != (u32)me + 1) out(1, "memory", "unlock of a mutex that the thread does not hold"); if ((rd(m + 16) & 3) == 1 && rd(m + 4)) { wr(m + 4, rd(m + 4) - 1); return 0; } wr(m, 0); return 0; }
static int rwl(u64 m, bool w, bool tr) { vis(); for (;;) { u32 o = rd(m), r = rd(m + 4); if (!tr && o == (u32)me + 1) return 35; if (!o && (!w || !r)) { if (w) wr(m, me + 1); else wr(m + 4, r + 1); return 0; } if (tr) return 16; block(w ? B_WR : B_RD, m); } }
int __rp_pthread_rwlock_rdlock(void* m) { return rwl((u64)m, false, false); } int __rp_pthread_rwlock_wrlock(void* m) { return rwl((u64)m, true, false); } int __rp_pthread_rwlock_tryrdlock(void* m) { return rwl((u64)m, false, true); } int __rp_pthread_rwlock_trywrlock(void* m) { return rwl((u64)m, true, true); }
int __rp_pthread_rwlock_unlock(void* p) { u64 m = (u64)p; if (rd(m)) { if (rd(m) != (u32)me + 1) out(1, "memory", "unlock of a rwlock that the thread does not hold"); wr(m, 0); } else if (rd(m + 4)) wr(m + 4, rd(m + 4) - 1); else out(1, "memory", "unlock of a rwlock that is not held"); return 0; }
static int cvw(u64 cv, u64 m, const timespec* ts) { if (rd(m) != (u32)me + 1) out(1, "memory", "condition wait without holding the mutex"); vis(); T& t = th[me]; t.timed = ts != nullptr; if (ts) { i64 d = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec; t.deadline = relDl(d); t.oneshot = d; } wr(m, 0); t.fired = false; t.wb = m; block(B_CV, cv); while (rd(m)) block(B_MUTEX, m); wr(m, me + 1); bool f = t.fired; if (f) t.hasOneshot = true; t.fired = t.timed = false; t.wb = 0; return f ? 110 : 0; }
int __rp_pthread_cond_wait(void* c, void* m) { return cvw((u64)c, (u64)m, nullptr); }
int __rp_pthread_cond_clockwait(void* c, void* m, int, const timespec* ts) { return cvw((u64)c, (u64)m, ts); }
int __rp_pthread_cond_timedwait(void* c, void* m, const timespec* ts) { return cvw((u64)c, (u64)m, ts); }
static int cvn(u64 cv, bool all) { vis(); MV<int> ws; for (int i = 0; i < nth; i++) if (th[i].status == B_CV && th[i].wa == cv) ws.push_back(i); if (ws.empty()) return 0; for (size_t i = 0; i < ws.size(); i++) for (size_t j = i + 1; j < ws.size(); j++) if (th[ws[j]].seq < th[ws[i]].seq) std::swap(ws[i], ws[j]);
  if (!all) { int pick = ws[0]; if (ws.size() > 1) { if (trpos < trace->size()) { int e = (*trace)[trpos++]; if (!(e & 0x40)) diverged("notify entry"); pick = e & 63; bool in = false; for (int w : ws) in |= w == pick; if (!in) diverged("notify target"); } } ws.assign(1, pick); }
  for (int i : ws) { th[i].status = B_MUTEX; th[i].wa = th[i].wb; th[i].timed = false; } return 0; }
int __rp_pthread_cond_signal(void* c) { return cvn((u64)c, false); } int __rp_pthread_cond_broadcast(void* c) { return cvn((u64)c, true); }
int __rp_pthread_setschedparam(u64, int, const void*) { return 0; } int __rp_pthread_setaffinity_np(u64, size_t, const void*) { return 0; }
int __rp_sched_yield() { sp(W_YIELD); return 0; }
int __rp_nanosleep(const timespec* ts, timespec*) { T& t = th[me]; t.deadline = vclock + (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec; t.timed = true; t.fired = false; block(B_SLEEP, 0); t.timed = t.fired = false; return 0; }
}
#ifdef REPLAY_ASAN
extern "C" void __asan_on_error() { fprintf(stderr, "REPLAY memory: address sanitizer report\n"); fflush(stderr); _exit(1); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=1:print_legend=0:detect_stack_use_after_return=0"; }
#endif
__attribute__((constructor(101))) static void rpinit() {
  inputs = new (malloc(64)) MV<u64>; trace = new (malloc(64)) MV<u8>; optv = new (malloc(64)) MV<OV>;
  FILE* f = fopen(getenv("REPLAY_FILE"), "r"); if (!f) out(2, "diverged", "no replay file"); char b[256];
  while (fscanf(f, "%200s", b) == 1) { unsigned long long v; if (!strcmp(b, "in")) { fscanf(f, "%llu", &v); inputs->push_back(v); } else if (!strcmp(b, "s")) { unsigned e, n; fscanf(f, "%u %u", &e, &n); for (unsigned i = 0; i < n; i++) trace->push_back((u8)e); } else if (!strcmp(b, "opt")) { OV o; fscanf(f, "%90s %llu", o.n, &v); o.v = v; optv->push_back(o); } else if (!strcmp(b, "clock")) clockAdvance = true; }
  fclose(f); const char* tl = getenv("REPLAY_LIMIT");
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGILL, onsig); signal(SIGALRM, onsig); alarm(tl ? atoi(tl) : 20);
#ifndef REPLAY_ASAN
  bump[0] = HEAP0 + 64;
#endif
}
int main() { pthread_mutex_lock(&big); harness_main(); fprintf(stderr, "REPLAY completed without a violation\n"); _exit(0); }
