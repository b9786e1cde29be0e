// C35: small vector and unique array against plain arrays, with free values.
#include "h.h"
#include "UtilsCtrl/UtilsInclude.h"
template <CSize CAP> static void vec(int len) {
  USmallVector<int, CAP> s; int m[16]; unsigned n = 0;
  for (int i = 0; i < len; i++) {
    int op = sym_pick("op", 4), v = sym_int("v"); unsigned at = n; for (unsigned j = 0; j < n; j++) if (m[j] == v) { at = j; break; }
    if (op == 0) { s.insert(v); if (at == n) m[n++] = v; } else if (op == 1) { s.insert(v, false); m[n++] = v; }
    else if (op == 2) { bool r = s.remove(v); SYM_ASSERT(r == (at < n), "remove reports whether the value was there"); if (at < n) { for (unsigned j = at; j + 1 < n; j++) m[j] = m[j + 1]; n--; __sym_reach("removed"); } }
    else { s.clear(); n = 0; }
    SYM_ASSERT(s.size() == n && s.empty() == (n == 0), "size"); unsigned q = 0; for (const auto& x : s) { SYM_ASSERT(q < n && x == m[q], "iteration in insertion order"); q++; } SYM_ASSERT(q == n, "iteration covers everything");
    for (unsigned j = 0; j < n; j++) SYM_ASSERT(s[j] == m[j], "indexing"); if (n) SYM_ASSERT(s.front() == m[0] && s.back() == m[n - 1], "front and back");
  }
  int z = sym_int("probe"); bool in = false; for (unsigned j = 0; j < n; j++) in |= m[j] == z; SYM_ASSERT(s.hasValue(z) == in, "hasValue"); auto v = s.asVector(); SYM_ASSERT(v.size() == n, "asVector size"); for (unsigned j = 0; j < n; j++) SYM_ASSERT(v[j] == m[j], "asVector contents");
}
static void uniq(int len) {
  USerialUniqueArray<int> u; int m[16]; unsigned n = 0;
  for (int i = 0; i < len; i++) {
    if (sym_pick("op", 4) == 3) { u.clear(); n = 0; } else { int v = sym_int("v"); u.uniqueAdd(v); bool in = false; for (unsigned j = 0; j < n; j++) in |= m[j] == v; if (!in) m[n++] = v; else __sym_reach("dup"); }
    std::vector<int> a; u.getUniqueArray(a); SYM_ASSERT(a.size() == n, "each value once"); for (unsigned j = 0; j < n; j++) SYM_ASSERT(a[j] == m[j], "in insertion order");
  }
}
extern "C" void harness_main() { const int w = sym_opt("what", 0), len = sym_opt("len", 4), cap = sym_opt("cap", 4); if (w) uniq(len); else if (cap == 1) vec<1>(len); else if (cap == 2) vec<2>(len); else vec<4>(len); __sym_reach("end"); }
