// C34: every sequence of puts, gets and clears with free keys and values against a reference list.
#include "h.h"
#include "UtilsCtrl/UtilsInclude.h"
template <CSize CAP> static void go(int len) {
  ULru<int, int, CAP> l; int k[8], v[8]; unsigned n = 0; SYM_ASSERT(l.getCapacity() == CAP, "capacity as requested");
  const int keys = sym_opt("keys", 4), wide = sym_opt("wide", 0);
  for (int i = 0; i < len; i++) {
    int op = sym_pick("op", 3), key = wide ? sym_int("key") : sym_pick("key", keys), val = sym_int("val"); unsigned at = n; if (op != 2) for (unsigned j = 0; j < n; j++) if (k[j] == key) { at = j; break; }
    if (op == 0) { l.put(key, val); unsigned end = at < n ? at : n < CAP ? n++ : n - 1; for (unsigned j = end; j > 0; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[0] = key; v[0] = val; }
    else if (op == 1) { int out = 77; bool hit = l.get(key, out); SYM_ASSERT(hit == (at < n), "a key is found exactly when it is among the most recently used"); if (hit && at < n) { SYM_ASSERT(out == v[at], "the last value of the key"); int kk = k[at], vv = v[at]; for (unsigned j = at; j > 0; j--) { k[j] = k[j - 1]; v[j] = v[j - 1]; } k[0] = kk; v[0] = vv; __sym_reach("hit"); } else { SYM_ASSERT(out == 77, "a miss leaves the output alone"); __sym_reach("miss"); } }
    else { l.clear(); n = 0; }
  }
  if (!wide) for (int q = 0; q < keys; q++) { bool in = false; for (unsigned j = 0; j < n; j++) in |= k[j] == q; int out = 0; SYM_ASSERT(l.get(q, out) == in, "exactly the most recently used keys are kept"); }
}
extern "C" void harness_main() { const int cap = sym_opt("cap", 2), len = sym_opt("len", 5); if (cap == 1) go<1>(len); else if (cap == 2) go<2>(len); else go<3>(len); __sym_reach("end"); }
