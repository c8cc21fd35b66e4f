// C07: normalisation and dimension check of quadratic programs.  C23: solver adapter.
#include "../engine/prelude.h"
#include <mpc-walkgen/qpsolver.h>
#include "stub/QProblem.hpp"
#include "qpsolver/src/qpsolver_qpoases.hxx"
#include "oracle.h"
typedef QPMatrices<double> QPM;
static QPM symQP(int n, int c, const std::string& tag, double lim) { QPM m; m.Q.resize(n, n); m.p.resize(n); m.xl.resize(n); m.xu.resize(n); m.A.resize(c, n); m.bl.resize(c); m.bu.resize(c);
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) m.Q(i, j) = input(tag + S("Q", i, j), -lim, lim); m.p(i) = input(tag + S("p", i), -lim, lim); m.xl(i) = input(tag + S("xl", i), -lim, lim); m.xu(i) = input(tag + S("xu", i), -lim, lim); }
  for (int i = 0; i < c; ++i) { for (int j = 0; j < n; ++j) m.A(i, j) = input(tag + S("A", i, j), -lim, lim); m.bl(i) = input(tag + S("bl", i), -lim, lim); m.bu(i) = input(tag + S("bu", i), -lim, lim); } return m; }
static double absv(const double& x) { return x < double(0) ? -x : x; }
static void normalise(int n, int c, bool viaVec) {
  QPM m = symQP(n, c, "", rat(10)); double eps = choose("eps0", 2) ? rat(0) : input("eps", rat(1, 100000), rat(1, 2)); int which = viaVec ? 0 : 1;
  if (which == 0) { m.p(0) = rat(1); if (c) m.bu(0) = rat(1); } else { m.Q(0, 0) = rat(2); if (c) m.A(0, 0) = rat(2); }
  QPM o = m; m.normalizeMatrices(eps); double fo = which == 0 ? m.p(0) : m.Q(0, 0) / 2, fc = c ? (which == 0 ? m.bu(0) : m.A(0, 0) / 2) : rat(1);
  check(f_gt(fo, rat(0)), "positive objective factor"); check(f_gt(fc, rat(0)), "positive constraint factor");
  auto eq = [&](const double& a, const double& b, const std::string& l) { check(f_le(a, b) && f_ge(a, b), l); }; (void)eq; double tol = rat(1, 1000000);
  for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { check(f_near(m.Q(i, j), fo * o.Q(i, j), tol), S("Q scaled ", i, j)); double a = absv(o.Q(i, j)), b = absv(m.Q(i, j)); check(!f_gt(a, eps) || f_ge(b + rat(1, 1000000000), rat(1)), S("significant Q at least one ", i, j)); }
    check(f_near(m.p(i), fo * o.p(i), tol), S("p scaled ", i)); check(f_near(m.xl(i), o.xl(i), tol), S("xl kept ", i)); check(f_near(m.xu(i), o.xu(i), tol), S("xu kept ", i)); }
  for (int i = 0; i < c; ++i) { for (int j = 0; j < n; ++j) { check(f_near(m.A(i, j), fc * o.A(i, j), tol), S("A scaled ", i, j)); double a = absv(o.A(i, j)), b = absv(m.A(i, j)); check(!f_gt(a, eps) || f_ge(b + rat(1, 1000000000), rat(1)), S("significant A at least one ", i, j)); }
    check(f_near(m.bl(i), fc * o.bl(i), tol), S("bl scaled ", i)); check(f_near(m.bu(i), fc * o.bu(i), tol), S("bu scaled ", i)); }
  check(F(m.dimensionsAreConsistent(n, c)), "sizes kept"); }
static void factor(int r, int c) { QPM::MatrixXrm M(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) M(i, j) = input(S("m", i, j), rat(-10), rat(10)); double eps = input("eps", rat(1, 100000), rat(1, 2)); double f = QPM::getNormalizationFactor(M, eps);
  check(f_ge(f, rat(1)), "factor at least one"); check(f_le(f * eps, rat(1)), "factor bounded by 1/threshold"); F need(false);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { double a = absv(M(i, j)); check(!f_gt(a, eps) || f_ge(f * a + rat(1, 1000000000), rat(1)), S("entry at least one ", i, j)); } }
static void dims(int n, int c) { auto d = [](const char* s, int k) { int v = k + choose(s, 3) - 1; return v < 0 ? k + 2 : v; };
  int which = choose("which", 9); QPM m; int z[9] = {n, n, n, n, n, c, n, c, c}; int alt = choose("second", 10); auto bump = [&](int k) { z[k] = d("delta", z[k]); }; bump(which); if (alt < 9 && alt != which) z[alt] += 1;
  m.Q.setZero(z[0], z[1]); m.p.setZero(z[2]); m.xl.setZero(z[3]); m.xu.setZero(z[4]); m.A.setZero(z[5], z[6]); m.bl.setZero(z[7]); m.bu.setZero(z[8]);
  bool exp = z[0] == n && z[1] == n && z[2] == n && z[3] == n && z[4] == n && z[5] == c && z[6] == n && z[7] == c && z[8] == c; check(F(m.dimensionsAreConsistent(n, c) == exp), "accepted exactly when all sizes match"); }
// ---- adapter
static const ::qpOASES::returnValue CODES[] = {::qpOASES::SUCCESSFUL_RETURN, ::qpOASES::RET_QP_INFEASIBLE, ::qpOASES::RET_MAX_NWSR_REACHED, ::qpOASES::TERMINAL_LIST_ELEMENT, ::qpOASES::RET_HOTSTART_STOPPED_INFEASIBILITY, ::qpOASES::RET_DIV_BY_ZERO};
static int gCode[8];
static ::qpOASES::returnValue answer(int k) { gCode[k] = choose(S("code", k), 6); return CODES[gCode[k]]; }
static double primal(int k, int i) { return input(S("x", k, i), rat(-100), rat(100)); }
static void adapter(int n, int c, int steps) {
  auto& h = ::qpOASES::hook(); h = ::qpOASES::Hook(); h.answer = answer; h.primal = primal;
  QPSolver<double>* s = new QPOasesSolver<double>(n, c); check(F(h.nV == n && h.nC == c && h.objects == 1), "problem created with the requested sizes"); check(F(s->getNbVar() == n && s->getNbCtr() == c), "sizes reported");
  bool coldOk = false, everCold = false;
  for (int k = 0; k < steps; ++k) {
    QPM m = symQP(n, c, S("s", k) + "_", rat(10)), o = m; bool warm = choose(S("warm", k), 2), os = choose(S("os", k), 2); VecX sol(n); for (int i = 0; i < n; ++i) sol(i) = input(S("old", k, i), rat(-9), rat(9)); std::ostringstream str; int maxIt = 7 + k;
    size_t before = h.calls.size(); bool r = s->solve(m, maxIt, sol, warm, os ? &str : nullptr); std::string t = S("solve", k) + " ";
    check(F(h.calls.size() == before + 1), t + "one call of the solver"); if (h.calls.size() != before + 1) return; auto& cl = h.calls.back(); bool ok = gCode[k] == 0;
    check(F(r == ok), t + "success reported exactly when the solver succeeded");
    if (!warm || !everCold) check(F(cl.cold), t + "complete program passed"); 
    if (warm && coldOk) check(F(!cl.cold), t + "warm start used"); 
    check(F(cl.nwsr == maxIt), t + "iteration limit passed");
    auto cmp = [&](const std::vector<double>& a, auto get, int len, const std::string& l) { check(F((int)a.size() == len), t + l + " size"); for (int i = 0; i < len && i < (int)a.size(); ++i) check(f_eq(a[i], get(i)), t + S(l, i)); };
    if (cl.cold) { cmp(cl.H, [&](int i) { return o.Q(i / n, i % n); }, n * n, "H"); cmp(cl.A, [&](int i) { return o.A(i / n, i % n); }, n * c, "A"); }
    cmp(cl.g, [&](int i) { return o.p(i); }, n, "g"); cmp(cl.lb, [&](int i) { return o.xl(i); }, n, "lb"); cmp(cl.ub, [&](int i) { return o.xu(i); }, n, "ub"); cmp(cl.lbA, [&](int i) { return o.bl(i); }, c, "lbA"); cmp(cl.ubA, [&](int i) { return o.bu(i); }, c, "ubA");
    check(F(sol.size() == n), t + "solution size"); if (ok) for (int i = 0; i < n; ++i) check(f_eq(sol(i), primal(k, i)), t + S("solution ", i));
    everCold = everCold || cl.cold; if (cl.cold) coldOk = ok; else if (!ok) coldOk = false; }
  delete s; }
static int reg = [] {
  for (int v = 0; v < 2; ++v) { for (int n = 1; n <= 2; ++n) for (int c = 0; c <= 2; ++c) addCase(S(S("C07/normalise/n", n) + "c", c) + S("/via", v), n * n + n * c <= 4 ? 0 : 1, [=] { normalise(n, c, v); }); addCase(S("C07/normalise/n3c0/via", v), 1, [=] { normalise(3, 0, v); }); }
  for (int r = 0; r <= 2; ++r) for (int c = 1; c <= 3; ++c) addCase(S(S("C07/factor/r", r) + "c", c), r * c <= 4 ? 0 : 1, [=] { factor(r, c); });
  for (int n = 1; n <= 3; ++n) for (int c = 0; c <= 2; ++c) addCase(S(S("C07/dimensions/n", n) + "c", c), 0, [=] { dims(n, c); });
  for (int n = 1; n <= 3; ++n) for (int c = 0; c <= 2; ++c) for (int k = 1; k <= 4; ++k) { if (k > 2 && (n > 2 || c > 1)) continue; addCase(S(S(S("C23/adapter/n", n) + "c", c) + "/len", k), k <= 2 || (n <= 2 && c == 1 && k == 3) ? 0 : 1, [=] { adapter(n, c, k); }); }
  return 0; }();
