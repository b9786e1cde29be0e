// C36: distances of every pair of small vectors (dimensions and null-ness free, buffers exactly as large as the dimension says so that any stray access is seen).
#include "h.h"
#include "UtilsCtrl/UtilsInclude.h"
#include <cmath>
static double sq(double x) { return x * x; }
extern "C" void harness_main() {
  const int what = sym_opt("what", 0), maxd = sym_opt("dim", 2), rng = sym_opt("rng", 2), check = sym_opt("check", 1);
  int d1 = sym_pick("d1", maxd + 1), d2 = check ? sym_pick("d2", maxd + 1) : d1; bool n1 = check && sym_bool("null1"), n2 = check && sym_bool("null2");
  double* a = n1 ? nullptr : (double*)malloc(d1 ? d1 * sizeof(double) : 1); double* b = n2 ? nullptr : (double*)malloc(d2 ? d2 * sizeof(double) : 1); double dot = 0, sa = 0, sb = 0, e = 0;
  if (a) for (int i = 0; i < d1; i++) { a[i] = sym_pick("a", 2 * rng + 1) - rng; sa += sq(a[i]); } if (b) for (int i = 0; i < d2; i++) { b[i] = sym_pick("b", 2 * rng + 1) - rng; sb += sq(b[i]); }
  bool good = a && b && d1 == d2 && d1 > 0; if (good) for (int i = 0; i < d1; i++) { dot += a[i] * b[i]; e += sq(a[i] - b[i]); }
  double r = -77; CStatus s;
  if (what == 0 || what == 1 || what == 2) {
    if (what == 0) { UDistanceCalculator<double, double, UEuclideanDistance<double>, true> c; s = c.calculate(a, b, d1, d2, r); e = std::sqrt(e); }
    else if (what == 1) { UDistanceCalculator<double, double, UEuclideanDistance<double, double, false>, true> c; s = c.calculate(a, b, d1, d2, r); }
    else { UDistanceCalculator<double, double, UCosineDistance<double>, true> c; s = c.calculate(a, b, d1, d2, r); if (good && (sa == 0 || sb == 0)) { __sym_reach("end"); return; } e = dot / (std::sqrt(sa) * std::sqrt(sb)); }
    SYM_ASSERT(s.isErr() == !good, "null, empty or mismatched inputs are refused, others accepted"); if (good) { SYM_ASSERT(std::fabs(r - e) < 1e-9, "the distance of the definition"); __sym_reach("good"); } else __sym_reach("refused");
  } else if (what == 3) {                                                       // normalisation
    UDistanceCalculator<double, double, UEuclideanDistance<double>, true> c; s = c.normalize(a, d1); bool ok = a && d1 > 0; SYM_ASSERT(s.isErr() == !ok, "normalisation of null or empty input is refused");
    if (ok && sa > 0) { double len = 0, t = 1e-9; for (int i = 0; i < d1; i++) len += sq(a[i]); SYM_ASSERT(std::fabs(len - 1) < t, "a unit vector results"); __sym_reach("good"); }
  } else if (what == 4) {                                                       // vector form, many nodes
    UDistanceCalculator<double, double, UEuclideanDistance<double>, true> c; std::vector<double> q(a ? a : b, a ? a + d1 : b), res{1, 2, 3, 4}; std::vector<std::vector<double>> nodes; if (b) nodes.push_back(std::vector<double>(b, b + d2)); nodes.push_back(q);
    s = c.calculate(q, nodes, res); bool ok2 = !q.empty() && (!b || nodes[0].size() == q.size()); SYM_ASSERT(res.size() == nodes.size(), "one result per node"); SYM_ASSERT(s.isErr() == !ok2, "an unusable node is reported"); if (!q.empty()) SYM_ASSERT(res.back() == 0, "the distance of a vector to itself is zero"); if (good) SYM_ASSERT(std::fabs(res[0] - std::sqrt(e)) < 1e-9, "the distance of the definition"); __sym_reach("good");
  } else {                                                                      // free integer components: the solver decides all values at once
    int d = 1 + sym_pick("d", maxd); float* x = (float*)malloc(d * sizeof(float)); float* y = (float*)malloc(d * sizeof(float)); UEuclideanDistance<float, float, false> eu; float acc = 0, out = -1;
    for (int i = 0; i < d; i++) { x[i] = (float)sym_range("x", -1000, 1000); y[i] = (float)sym_range("y", -1000, 1000); float t = x[i] - y[i]; acc += t * t; }
    s = eu.calc(x, y, d, d, out, nullptr); SYM_ASSERT(s.isOK() && out == acc, "the squared distance of the definition"); __sym_reach("good");
  }
  free(a); free(b); __sym_reach("end");
}
