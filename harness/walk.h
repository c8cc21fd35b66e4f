// Shared by the generators' harnesses: the quadratic program that reached the
// solver, the real adapter on top of the stand-in solver.
#pragma once
#include <mpc-walkgen/qpsolverfactory.h>
#include "stub/QProblem.hpp"
#include "qpsolver/src/qpsolver_qpoases.hxx"
#ifndef SYMX_UNIT
namespace MPCWalkgen { template <> QPSolver<double>* makeQPSolver<double>(int nbVar, int nbCtr) { return new QPOasesSolver<double>(nbVar, nbCtr); } }
#endif
namespace walk {
struct QP { MatX H, A; VecX g, lb, ub, lbA, ubA; bool ok; };
inline int& failAt() { static int k = -1; return k; }
// the solver may fail at the calls where this was announced
inline bool*& mayFail() { static bool* p = nullptr; return p; }
inline ::qpOASES::returnValue answer(int k) { return mayFail() && *mayFail() && choose(S("solver fails", k), 2) ? ::qpOASES::RET_QP_INFEASIBLE : ::qpOASES::SUCCESSFUL_RETURN; }
inline double primal(int k, int i) { return input(S("sol", k, i), rat(-5), rat(5)); }
inline void reset() { auto& h = ::qpOASES::hook(); h = ::qpOASES::Hook(); h.answer = answer; h.primal = primal; }
inline QP last() { auto& c = ::qpOASES::hook().calls.back(); QP q; int n = c.nV, m = c.nC; q.ok = (int)c.eH.size() == n * n && (int)c.eA.size() == n * m; q.H.setZero(n, n); q.A.setZero(m, n); if (q.ok) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q.H(i, j) = c.eH[i * n + j]; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) q.A(i, j) = c.eA[i * n + j]; }
  auto v = [](const std::vector<double>& a) { VecX r(a.size()); for (size_t i = 0; i < a.size(); ++i) r(i) = a[i]; return r; }; q.g = v(c.g); q.lb = v(c.lb); q.ub = v(c.ub); q.lbA = v(c.lbA); q.ubA = v(c.ubA); return q; }
inline int calls() { return ::qpOASES::hook().calls.size(); }
inline VecX primalOf(int k, int n) { VecX v(n); for (int i = 0; i < n; ++i) v(i) = primal(k, i); return v; }
// rows (<= 0) of the program's constraints at d; "infinite" bounds are no constraint
inline std::vector<double> rows(const QP& q, const VecX& d) { std::vector<double> r; const double big = rat(1000000); VecX v = q.A * d; for (int i = 0; i < v.size(); ++i) { if (!(q.ubA(i) > big)) r.push_back(v(i) - q.ubA(i)); if (!(q.lbA(i) < -big)) r.push_back(q.lbA(i) - v(i)); }
  for (int i = 0; i < d.size(); ++i) { if (!(q.ub(i) > big)) r.push_back(d(i) - q.ub(i)); if (!(q.lb(i) < -big)) r.push_back(q.lb(i) - d(i)); } return r; }
// weighted sums of squares of affine residuals
struct Sum { MatX H; VecX g; explicit Sum(int n) : H(MatX::Zero(n, n)), g(VecX::Zero(n)) {}
  void add(const double& w, const VecX& x, const std::function<VecX(const VecX&)>& r) { int n = x.size(); VecX z = VecX::Zero(n), r0 = r(z); MatX J(r0.size(), n); for (int k = 0; k < n; ++k) { VecX e = VecX::Zero(n); e(k) = rat(1); J.col(k) = r(e) - r0; } H += w * (J.transpose() * J); g += w * (J.transpose() * VecX(r0 + J * x)); } };
}
