// Helpers shared by harnesses (works in both builds; included after prelude.h)
#pragma once
#include <mpc-walkgen/type.h>
typedef MPCWalkgen::Type<double>::MatrixX MatX;
typedef MPCWalkgen::Type<double>::VectorX VecX;
typedef MPCWalkgen::Type<double>::Vector2 Vec2;
typedef MPCWalkgen::Type<double>::Vector3 Vec3;
typedef MPCWalkgen::Type<double>::Vector4 Vec4;
typedef MPCWalkgen::Type<double>::vectorOfVector2 VecV2;
inline void addCase(const std::string& n, int tier, std::function<void()> f) { symx::CaseReg r(n.c_str(), tier, std::move(f)); }
inline std::string S(const std::string& a, int i) { return a + std::to_string(i); }
inline std::string S(const std::string& a, int i, int j) { return a + std::to_string(i) + "_" + std::to_string(j); }
inline VecX inVec(const std::string& n, int k, double lo, double hi) { VecX v(k); for (int i = 0; i < k; ++i) v(i) = input(S(n, i), lo, hi); return v; }
inline double rat(long a, long b = 1) { return double(a) / double(b); }
static const double TOL = rat(1, 1000000);
inline void nearVec(const VecX& a, const VecX& b, const std::string& l, double tol = TOL) { check(F(a.size() == b.size()), l + " size"); if (a.size() != b.size()) return; for (int i = 0; i < a.size(); ++i) check(f_near(a(i), b(i), tol), S(l, i)); }
inline void nearMat(const MatX& a, const MatX& b, const std::string& l, double tol = TOL) { check(F(a.rows() == b.rows() && a.cols() == b.cols()), l + " size"); if (a.rows() != b.rows() || a.cols() != b.cols()) return; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) check(f_near(a(i, j), b(i, j), tol), S(l, i, j)); }
// run f on an object built in storage filled with 0xFF bytes
template <class T> struct Dirty { alignas(T) unsigned char buf[sizeof(T)]; T* p; template <class... A> explicit Dirty(A&&... a) { memset(buf, 0xFF, sizeof buf); asm volatile("" : : "r"(buf) : "memory"); p = new (buf) T(std::forward<A>(a)...); } ~Dirty() { p->~T(); } T& operator*() { return *p; } T* operator->() { return p; } };

#ifdef SYMX_NATIVE
static const double ROWSLACK = 1e-9;
#else
static const double ROWSLACK = double(0);
#endif
// The two systems {code_i <= 0} and {want_j <= 0} have the same solutions.
// Rows that are syntactically the same (up to a positive factor) are paired;
// what remains is decided as two implications.
inline void rowsEquivalent(const std::vector<double>& code, const std::vector<double>& want, const std::string& l) {
  std::vector<char> cu(code.size(), 0), wu(want.size(), 0);
  for (size_t i = 0; i < code.size(); ++i) for (size_t j = 0; j < want.size(); ++j) if (!(cu[i] && wu[j]) && symx::equivSign(code[i], want[j])) cu[i] = wu[j] = 1;
  F ac, aw; for (size_t i = 0; i < code.size(); ++i) ac = ac && f_le(code[i], ROWSLACK); for (size_t j = 0; j < want.size(); ++j) aw = aw && f_le(want[j], ROWSLACK);
  bool lin = code.size() <= 64 && want.size() <= 64; for (auto& r : code) lin = lin && symx::isLinear(r); for (auto& r : want) lin = lin && symx::isLinear(r);
  if (lin) { F cw, wc; for (size_t j = 0; j < want.size(); ++j) if (!wu[j]) cw = cw && f_le(want[j], TOL); for (size_t i = 0; i < code.size(); ++i) if (!cu[i]) wc = wc && f_le(code[i], TOL); check(!ac || cw, l + ": satisfied constraints imply the requirements"); check(!aw || wc, l + ": requirements imply the constraints"); return; }
  for (size_t j = 0; j < want.size(); ++j) if (!wu[j]) check(!ac || f_le(want[j], TOL), S(l + ": satisfied constraints imply requirement ", j));
  for (size_t i = 0; i < code.size(); ++i) if (!cu[i]) check(!aw || f_le(code[i], TOL), S(l + ": requirements imply constraint ", i)); }
// gradient and Hessian at x of 1/2 |r|^2 for an affine residual r
inline void checkLeastSquares(const VecX& g, const MatX& H, const VecX& x, const std::function<VecX(const VecX&)>& r, const std::string& l) {
  int n = x.size(); VecX z = VecX::Zero(n), r0 = r(z); MatX J(r0.size(), n);
  for (int k = 0; k < n; ++k) { VecX e = VecX::Zero(n); e(k) = double(1); J.col(k) = r(e) - r0; }
  VecX rx = r0 + J * x; nearVec(g, VecX(J.transpose() * rx), l + " gradient"); nearMat(H, MatX(J.transpose() * J), l + " Hessian"); }
