// C48: timers, singletons, random data, time counters and the arithmetic helpers do what they say.
#include "h.h"
#include "ostream.h"
alignas(16) char h_cout[1024] asm("_ZSt4cout");
// ---- a timer: sequences of requests against a model of when it ticks
static int ticks48, act48, bad48, mod48, modv48, gen48; static bool on48; static int64_t last48;
static void timer48() {
  static int slow; slow = sym_opt("slow", 0); const int len = sym_opt("len", 4); ticks48 = 0; modv48 = sym_opt("modify", 0); { UTimer t; bool on = false; int iv = 0, base = 0; int64_t since = 0;
    for (int i = 0; i < len; i++) { int op = sym_pick("op", 3);
      if (op == 0) { int v = sym_pick("interval", 2) ? 20 : 10; int g = ++gen48; if (!on) { mod48 = 0; iv = v; since = __sym_now(); base = ticks48; on48 = true; } t.start((CMSec)v, [g, on] { if (on) bad48++; if (!on48 || act48++) bad48++; ticks48++; __sym_visible(); if (slow) CGRAPH_SLEEP_MILLISECOND(4); act48--; }, [] { mod48++; return (CMSec)(modv48 && mod48 == 1 ? modv48 : 0); }); on = true; }
      else if (op == 1) { int64_t a = __sym_now(); t.stop(); SYM_ASSERT(__sym_now() - a < (slow ? 5000000 : 1000000), "stop does not wait for the interval"); on = on48 = false; SYM_ASSERT(!act48, "nothing runs when stop has returned"); }
      else CGRAPH_SLEEP_MILLISECOND(25);
      int n = ticks48 - base; SYM_ASSERT(!bad48, "ticks only while it is on, one at a time, of the task it was started with");
      if (on) { int64_t el = (__sym_now() - since) / 1000000; int lo = iv; if (modv48 && modv48 < lo) lo = modv48; SYM_ASSERT((int64_t)n * lo <= el, "no tick before its time"); if (modv48 > iv && n >= 2) SYM_ASSERT(el >= iv + modv48, "a changed interval holds for the next tick"); if (op == 2 && sym_opt("exact", 0)) { int k = 0, edge = 0; for (int64_t at = iv; at <= el; ) { if (at == el) edge = 1; k++; at += k == 1 && modv48 ? (slow ? 4 : 0) + modv48 : iv; } SYM_ASSERT(n == k || (edge && n == k - 1), "it ticks at every interval, and a changed interval holds for one tick"); } if (n) __sym_reach("tick"); } }
  } on48 = false; int k = ticks48; CGRAPH_SLEEP_MILLISECOND(30); SYM_ASSERT(k == ticks48 && !act48 && !bad48, "no tick after its end");
}
// ---- singletons
static int made48, dead48, inits48, dests48; struct Ob : CObject { int v; Ob() : v(7) { __sym_visible(); made48++; } ~Ob() override { dead48++; } CStatus init() override { inits48++; return CStatus(); } CStatus run() override { return CStatus(); } CStatus destroy() override { dests48++; return CStatus(); } };
template <USingletonType K, bool I> static void single48() {
  made48 = dead48 = inits48 = dests48 = 0; { USingleton<Ob, K, I> s; const bool early = K == USingletonType::HUNGRY || I; SYM_ASSERT(made48 == (early ? 1 : 0), "a lazy object is made at its first use, an eager one at once"); SYM_ASSERT(inits48 == (I ? 1 : 0), "an object that initialises itself does so once"); Ob* p[3] = {}; int n = sym_opt("threads", 2), ok[3] = {};
    __sym_sched(1); { std::thread t([&] { p[1] = s.get(); ok[1] = p[1] && p[1]->v == 7; }); std::thread u; if (n > 2) u = std::thread([&] { p[2] = s.get(); ok[2] = p[2] && p[2]->v == 7; }); p[0] = s.get(); ok[0] = p[0] && p[0]->v == 7; t.join(); if (n > 2) u.join(); } __sym_sched(0);
    for (int i = 0; i < n; i++) SYM_ASSERT(ok[i] && p[i] == p[0], "all threads get the same, finished object"); SYM_ASSERT(made48 == 1 && !dead48, "which is made once"); SYM_ASSERT(s.get() == p[0] && inits48 == (I ? 1 : 0), "and kept"); }
  SYM_ASSERT(dead48 == 1 && made48 == 1, "and released once");
}
// ---- random data
template <class T> static void random48() {
  const T lo[] = {0, -5, 3}, hi[] = {1, 5, 4}; int r = sym_pick("range", 3), h = sym_pick("rows", 4), c = sym_pick("columns", 4), pre = sym_pick("before", 3); CStatus s;
  std::vector<T> v(pre, T(99)), w; s = URandom<T, 7>::generate(v, c, lo[r], hi[r]); SYM_ASSERT(s.isOK() && (int)v.size() == c, "as many values as asked for, whatever was there"); for (T x : v) SYM_ASSERT(x >= lo[r] && x <= hi[r], "all in range");
  s = URandom<T, 7>::generate(w, c, lo[r], hi[r]); SYM_ASSERT(v == w, "a fixed seed gives the same values again"); s = URandom<T, 8>::generate(w, c, lo[r], hi[r]); if (c) SYM_ASSERT(v != w, "another seed others"); for (int i = 1; i < c; i++) SYM_ASSERT(v[i] != v[0], "and the values differ");
  std::vector<std::vector<T>> m(pre, v), q; s = URandom<T, 7>::generate(m, h, c, lo[r], hi[r]); SYM_ASSERT(s.isOK() && (int)m.size() == h, "as many rows as asked for"); for (auto& a : m) { SYM_ASSERT((int)a.size() == c, "as many columns as asked for"); for (T x : a) SYM_ASSERT(x >= lo[r] && x <= hi[r], "all in range"); } for (int i = 1; i < h && c; i++) SYM_ASSERT(m[i] != m[0], "the rows differ"); s = URandom<T, 7>::generate(q, h, c, lo[r], hi[r]); SYM_ASSERT(m == q, "a fixed seed gives the same rows again");
  v.clear(); s = URandom<T>::generate(v, c, lo[r], hi[r]); SYM_ASSERT((int)v.size() == c, "as many values as asked for"); for (T x : v) SYM_ASSERT(x >= lo[r] && x <= hi[r], "all in range");
}
static void session48() {
  const char* K[] = {"key", "", "a-b"}; int k = sym_pick("key", 3), n = sym_pick("size", 5); for (int r = 0; r < sym_opt("repeat", 6); r++) { std::string s = n == 4 ? URandom<>::generateSession(K[k]) : URandom<>::generateSession(K[k], n); if (n == 4) n = 3; size_t at = 0;
  for (int i = 0; i < n; i++) { for (int d = 0; d < 6; d++, at++) SYM_ASSERT(at < s.size() && s[at] >= (d ? '0' : '1') && s[at] <= '9', "groups of six digits"); SYM_ASSERT(at < s.size() && s[at] == '-', "with dashes"); at++; } SYM_ASSERT(s.substr(at) == K[k], "and the key"); }
}
// ---- helpers
static void helpers48() {
  int n = sym_pick("n", 4), v[4]; std::vector<int> a; int sum = 0, mul = 1; for (int i = 0; i < n; i++) { v[i] = sym_range("v", -40000, 40000); a.push_back(v[i]); sum += v[i]; } std::vector<int> b; int m[3]; for (int i = 0; i < 3; i++) { m[i] = sym_range("m", -600, 600); if (i < n) { b.push_back(m[i]); mul *= m[i]; } }
  SYM_ASSERT(CGRAPH_CONTAINER_SUM(a) == sum, "the sum of a container"); SYM_ASSERT(CGRAPH_CONTAINER_MULTIPLY(b) == mul, "the product of a container"); int x = sym_int("x"), y = sym_int("y"), z = sym_int("z"); int mx = CGRAPH_MAX(x, y, z); SYM_ASSERT(mx >= x && mx >= y && mx >= z && (mx == x || mx == y || mx == z), "the greatest of all"); SYM_ASSERT(CGRAPH_MAX(x) == x && CGRAPH_MAX(x, y) == (x > y ? x : y), "of one and two");
  int64_t p = x, q = y, r = z; SYM_ASSERT(CGRAPH_SUM(p, q, r) == p + q + r && CGRAPH_SUM(p) == p, "the sum of all");
}
static void counter48() {
  h_stream(h_cout); UTimeCounter c("c", 100000); const int len = sym_opt("len", 4); int64_t since = __sym_now();
  for (int i = 0; i < len; i++) { int op = sym_pick("op", 3); int64_t el = (__sym_now() - since) / 1000000; if (op == 0) { CGRAPH_SLEEP_MILLISECOND(7) } else if (op == 1) { CMSec g = c.getSpan(); SYM_ASSERT((int64_t)g >= el && (int64_t)g <= (__sym_now() - since) / 1000000 + 1, "the time since its start"); } else { CMSec g = c.reset(); SYM_ASSERT((int64_t)g >= el && (int64_t)g <= (__sym_now() - since) / 1000000 + 1, "the time since its start, which begins again"); since = __sym_now(); } }
}
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0);
  if (mode == 0) { __sym_sched(1); timer48(); __sym_sched(0); }
  else if (mode == 1) { switch (sym_pick("kind", 4)) { case 0: single48<USingletonType::LAZY, false>(); break; case 1: single48<USingletonType::LAZY, true>(); break; case 2: single48<USingletonType::HUNGRY, false>(); break; default: single48<USingletonType::HUNGRY, true>(); } }
  else if (mode == 2) { if (sym_bool("double")) random48<double>(); else random48<float>(); }
  else if (mode == 3) session48(); else if (mode == 4) helpers48(); else counter48();
  __sym_reach("end");
}
