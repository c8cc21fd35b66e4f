// Recording stand-in for qpOASES: the solver under the adapter answers
// arbitrarily; every call is logged.
#pragma once
#include <vector>
#include <string>
#include <iostream>
namespace qpOASES {
typedef double real_t;
enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE, PL_LOW, PL_MEDIUM, PL_HIGH };
enum returnValue { TERMINAL_LIST_ELEMENT = -1, SUCCESSFUL_RETURN = 0, RET_DIV_BY_ZERO = 1, RET_INDEX_OUT_OF_BOUNDS, RET_INVALID_ARGUMENTS, RET_ERROR_UNDEFINED, RET_WARNING_UNDEFINED, RET_INFO_UNDEFINED, RET_QP_INFEASIBLE = 33, RET_QP_UNBOUNDED, RET_INIT_FAILED = 33 + 3, RET_INIT_FAILED_INFEASIBILITY, RET_MAX_NWSR_REACHED = 64, RET_HOTSTART_FAILED = 70, RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED, RET_HOTSTART_STOPPED_INFEASIBILITY };
// H, A: as passed; eH, eA: the matrices the solver works with (kept from the last init)
struct Call { bool cold; std::vector<real_t> H, g, A, lb, ub, lbA, ubA, eH, eA; int nwsr, nV, nC; };
struct Hook { std::vector<Call> calls; returnValue (*answer)(int k) = nullptr; real_t (*primal)(int k, int i) = nullptr; int nV = 0, nC = 0, objects = 0; returnValue lastCode = SUCCESSFUL_RETURN; };
inline Hook& hook() { static Hook h; return h; }
class QProblem {
 public:
  QProblem(int nV, int nC) : nV_(nV), nC_(nC) { hook().nV = nV; hook().nC = nC; ++hook().objects; }
  void setPrintLevel(PrintLevel) {}
  static std::vector<real_t> cp(const real_t* p, int n) { std::vector<real_t> v; for (int i = 0; i < n; ++i) v.push_back(p ? p[i] : real_t(0)); return v; }
  returnValue init(const real_t* H, const real_t* g, const real_t* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int& nWSR, real_t* const = 0) {
    Call c; c.cold = true; c.H = cp(H, nV_ * nV_); c.g = cp(g, nV_); c.A = cp(A, nV_ * nC_); c.lb = cp(lb, nV_); c.ub = cp(ub, nV_); c.lbA = cp(lbA, nC_); c.ubA = cp(ubA, nC_); c.nwsr = nWSR; kH_ = c.H; kA_ = c.A; return done(c, nWSR); }
  returnValue hotstart(const real_t* g, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA, int& nWSR, real_t* const = 0) {
    Call c; c.cold = false; c.g = cp(g, nV_); c.lb = cp(lb, nV_); c.ub = cp(ub, nV_); c.lbA = cp(lbA, nC_); c.ubA = cp(ubA, nC_); c.nwsr = nWSR; return done(c, nWSR); }
  returnValue done(Call& c, int& nWSR) { c.eH = kH_; c.eA = kA_; c.nV = nV_; c.nC = nC_; hook().calls.push_back(c); nWSR = nWSR > 1 ? 1 : nWSR; return hook().lastCode = hook().answer(hook().calls.size() - 1); }
  returnValue getPrimalSolution(real_t* const x) const { for (int i = 0; i < nV_; ++i) x[i] = hook().primal(hook().calls.size() - 1, i); return SUCCESSFUL_RETURN; }
  int getNV() const { return nV_; } int getNC() const { return nC_; }
  returnValue reset() { return SUCCESSFUL_RETURN; }
 private: int nV_, nC_; std::vector<real_t> kH_, kA_;
};
}
