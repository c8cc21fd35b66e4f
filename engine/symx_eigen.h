#pragma once
#include <Eigen/Core>
#include <Eigen/LU>
#include <Eigen/SVD>
#include <Eigen/StdVector>
#include "symx.h"
namespace Eigen {
template <> struct NumTraits<symx::Sym> : GenericNumTraits<symx::Sym> {
  typedef symx::Sym Real; typedef symx::Sym NonInteger; typedef symx::Sym Literal; typedef symx::Sym Nested;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 2, AddCost = 8, MulCost = 16 };
  static Real epsilon() { return std::numeric_limits<symx::Sym>::epsilon(); }
  static Real dummy_precision() { return symx::Sym(1e-12); }
  static Real highest() { return std::numeric_limits<symx::Sym>::max(); }
  static Real lowest() { return std::numeric_limits<symx::Sym>::lowest(); }
  static Real infinity() { return std::numeric_limits<symx::Sym>::infinity(); }
  static Real quiet_NaN() { return symx::nanSym(); }
  static int digits10() { return 15; }
};
// Exact Gauss-Jordan inverse in place of Eigen's floating-point LU.
template <> class FullPivLU<Matrix<symx::Sym, Dynamic, Dynamic> > {
  typedef Matrix<symx::Sym, Dynamic, Dynamic> M;
  M a_;
 public:
  template <class D> explicit FullPivLU(const EigenBase<D>& m) : a_(m.derived()) {}
  FullPivLU() {}
  template <class D> FullPivLU& compute(const EigenBase<D>& m) { a_ = m.derived(); return *this; }
  bool eliminate(M& inv) const {
    using symx::Sym; const int n = a_.rows(); M a = a_; inv = M::Identity(n, n);
    for (int c = 0; c < n; ++c) {
      int p = -1;
      for (int r = c; r < n && p < 0; ++r) if (a(r, c).isConst() && !a(r, c).cst().isZero()) p = r;
      for (int r = c; r < n && p < 0; ++r) if (!a(r, c).isConst() && a(r, c) != Sym(0)) p = r;
      if (p < 0) return false;
      if (p != c) { a.row(p).swap(a.row(c)); inv.row(p).swap(inv.row(c)); }
      Sym d = a(c, c);
      for (int j = 0; j < n; ++j) { a(c, j) = a(c, j) / d; inv(c, j) = inv(c, j) / d; }
      for (int r = 0; r < n; ++r) if (r != c) { Sym f = a(r, c); if (f.isConst() && f.cst().isZero()) continue;
        for (int j = 0; j < n; ++j) { a(r, j) -= f * a(c, j); inv(r, j) -= f * inv(c, j); } }
    }
    return true;
  }
  M inverse() const {
    const int n = a_.rows(); M inv(n, n);
    if (a_.rows() != a_.cols()) symx::internalFailure("assertion", "inverse of a non-square matrix", "", 0);
    bool cst = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (!a_(i, j).isConst()) cst = false;
    if (!cst && symx::dontCareInverse()) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) inv(i, j) = symx::dontCare(); return inv; }
    if (!eliminate(inv)) inv.setConstant(symx::nanSym());
    return inv;
  }
  bool isInvertible() const { M t; return eliminate(t); }
  template <class D> M solve(const MatrixBase<D>& b) const { return inverse() * b; }
};
}
