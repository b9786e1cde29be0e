// C33: every combination of statuses: code and text are kept by copy, assignment and conversion, += keeps the first error.  Codes are free 32-bit integers.
#include "h.h"
static const char* txt[3] = {"", "first", "a text long enough not to fit the small string buffer"};
static CStatus mk(int code, int t) { return CStatus(code, txt[t]); }
static bool same(const CStatus& s, int code, int t) { return s.getCode() == code && s.getInfo() == txt[t]; }
extern "C" void harness_main() {
  const int mode = sym_opt("mode", 0), len = sym_opt("len", 4);
  if (mode == 0) {                                                               // classification and pairs
    int a = sym_int("a"), b = sym_int("b"), ta = sym_pick("ta", 3), tb = sym_pick("tb", 3);
    __sym_assume(a != 0); __sym_assume(b != 0);                                  // a status with code 0 carries no text
    CStatus s = mk(a, ta), t = mk(b, tb), ok;
    SYM_ASSERT(s.isOK() == (a == 0) && s.isErr() == (a < 0) && s.isNotErr() == (a >= 0) && s.isCrash() == (a == -996), "codes are classified by their sign"); SYM_ASSERT((bool)s == s.isOK(), "conversion to bool means OK");
    CStatus c(s); SYM_ASSERT(same(c, a, ta), "a copy preserves code and text"); CStatus m(std::move(c)); SYM_ASSERT(same(m, a, ta), "moving preserves code and text");
    CStatus u = t; u = s; SYM_ASSERT(same(u, a, ta), "assignment preserves code and text"); SYM_ASSERT(same(s, a, ta), "the source of an assignment is unchanged");
    CStatus v = s; v = ok; SYM_ASSERT(v.isOK() && v.getInfo().empty(), "assigning an OK status gives an OK status without text");
    CStatus w = s; w += t; if (a < 0) SYM_ASSERT(same(w, a, ta), "+= keeps the first error"); else if (b < 0) SYM_ASSERT(same(w, b, tb), "+= takes an error when there is none yet"); else SYM_ASSERT(!w.isErr(), "+= without errors gives no error"); SYM_ASSERT(same(t, b, tb), "the right side of += is unchanged");
    CStatus x = s; x.reset(); SYM_ASSERT(x.isOK() && x.getInfo().empty(), "reset gives an OK status"); x.setInfo(b, txt[tb]); SYM_ASSERT(same(x, b, tb), "setInfo sets both"); x.setInfo(0, "t"); SYM_ASSERT(x.isOK() && x.getInfo().empty(), "an OK status has no text"); x.setErrorInfo(txt[ta]); SYM_ASSERT(same(x, -1, ta), "setErrorInfo makes a plain error");
    CStatus y(txt[ta]); SYM_ASSERT(same(y, -1, ta) && y.isErr(), "a status made of a text is an error"); CStatus* self = &s; s = *self; SYM_ASSERT(same(s, a, ta), "self assignment changes nothing"); s += *self; SYM_ASSERT(same(s, a, ta), "adding a status to itself changes nothing");
    CException ex(txt[ta]); SYM_ASSERT(std::string(ex.what()).find(txt[ta]) != std::string::npos, "an exception keeps its text");
  } else {                                                                       // sequences against a reference
    CStatus s; int code = 0, t = 0;
    for (int i = 0; i < len; i++) {
      int op = sym_pick("op", 4), c = sym_int("code"), k = sym_pick("t", 3); __sym_assume(c != 0);
      if (op == 0) { s += mk(c, k); if (code >= 0 && c < 0) { code = c; t = k; } else if (code >= 0) { SYM_ASSERT(s.getCode() >= 0, "no error appears"); code = s.getCode(); } }
      else if (op == 1) { s = mk(c, k); code = c; t = k; } else if (op == 2) { s.reset(); code = 0; t = 0; } else { CStatus tmp; tmp = s; s = CStatus(); s = tmp; }
      SYM_ASSERT(s.getCode() == code, "the code is that of the reference"); if (code) SYM_ASSERT(s.getInfo() == txt[t], "the text is that of the reference");
    }
  }
  __sym_reach("end");
}
