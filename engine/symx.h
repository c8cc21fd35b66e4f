// Symbolic scalar: exact rational functions over symbolic inputs, with path
// forking at comparisons.  See DESIGN.md, "Engine".
#pragma once
#include "rat.h"
#include <vector>
#include <string>
#include <functional>
#include <memory>
#include <iosfwd>
#include <limits>
#include <cmath>
#include <algorithm>
#include <type_traits>

namespace symx {

struct Poly;                       // sum of rational * monomial
struct Node;                       // refcounted value
enum Kind : unsigned char { K_CONST, K_POLY, K_NAN, K_UNINIT, K_DONTCARE };
struct Node { int rc; Kind kind; Q c; Poly* p; };

extern Node* const UNINIT_NODE;
Node* mkConst(const Q&);
void freeNode(Node*);

struct Rep {
  Node* n;
  // Runs on the raw storage of the object: zeroed storage means
  // value-initialisation (=> 0), anything else default-initialisation of dirty
  // storage (=> "uninitialised").  Compiled with -fno-lifetime-dse.
  Rep() { asm volatile("" : "+m"(n)); if (n) n = UNINIT_NODE; }
  explicit Rep(Node* x) : n(x) {}
  Rep(const Rep& o) : n(o.n) { if (n) ++n->rc; }
  Rep(Rep&& o) noexcept : n(o.n) { o.n = nullptr; }
  Rep& operator=(const Rep& o) { Node* t = o.n; if (t) ++t->rc; if (n && --n->rc == 0) freeNode(n); n = t; return *this; }
  Rep& operator=(Rep&& o) noexcept { std::swap(n, o.n); return *this; }
  ~Rep() { if (n && --n->rc == 0) freeNode(n); }
};

class Sym {
 public:
  Rep r;                                 // r.n == nullptr means the constant 0
  Sym() = default;
  Sym(int v) : r(v ? mkConst(Q(v)) : nullptr) {}
  Sym(unsigned v) : r(v ? mkConst(Q((long)v)) : nullptr) {}
  Sym(long v) : r(v ? mkConst(Q(v)) : nullptr) {}
  Sym(unsigned long v) : r(v ? mkConst(Q((long)v)) : nullptr) {}
  Sym(long long v) : r(v ? mkConst(Q((long)v)) : nullptr) {}
  Sym(unsigned long long v) : r(v ? mkConst(Q((long)v)) : nullptr) {}
  Sym(bool v) : r(v ? mkConst(Q(1)) : nullptr) {}
  Sym(float v);
  Sym(__typeof__(1.0) v);                // the real double
  Sym(long __typeof__(1.0) v) = delete;
  explicit Sym(const Q& q) : r(q.isZero() ? nullptr : mkConst(q)) {}
  explicit Sym(Rep&& x) : r(std::move(x)) {}
  Kind kind() const { return r.n ? r.n->kind : K_CONST; }
  bool isConst() const { return !r.n || r.n->kind == K_CONST; }
  Q cst() const { return r.n ? r.n->c : Q(0); }
  Sym& operator+=(const Sym& o); Sym& operator-=(const Sym& o);
  Sym& operator*=(const Sym& o); Sym& operator/=(const Sym& o);
  Sym& operator++() { return *this += Sym(1); }
  Sym& operator--() { return *this -= Sym(1); }
  Sym operator++(int) { Sym o(*this); *this += Sym(1); return o; }
  Sym operator--(int) { Sym o(*this); *this -= Sym(1); return o; }
  explicit operator int() const;
  explicit operator long() const;
  explicit operator bool() const;
  explicit operator unsigned() const { return (unsigned)(long)*this; }
  explicit operator long long() const { return (long)*this; }
  explicit operator unsigned long() const { return (unsigned long)(long)*this; }
  explicit operator float() const;
};
Sym operator+(const Sym&, const Sym&); Sym operator-(const Sym&, const Sym&);
Sym operator*(const Sym&, const Sym&); Sym operator/(const Sym&, const Sym&);
Sym operator-(const Sym&); inline Sym operator+(const Sym& a) { return a; }
bool operator<(const Sym&, const Sym&); bool operator>(const Sym&, const Sym&);
bool operator<=(const Sym&, const Sym&); bool operator>=(const Sym&, const Sym&);
bool operator==(const Sym&, const Sym&); bool operator!=(const Sym&, const Sym&);
#define SYMX_MIX(op, R)                                                                         \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>                    \
  inline R operator op(const Sym& a, const T& b) { return a op Sym(b); }                        \
  template <class T, class = std::enable_if_t<std::is_arithmetic<T>::value>>                    \
  inline R operator op(const T& a, const Sym& b) { return Sym(a) op b; }
SYMX_MIX(+, Sym) SYMX_MIX(-, Sym) SYMX_MIX(*, Sym) SYMX_MIX(/, Sym)
SYMX_MIX(<, bool) SYMX_MIX(>, bool) SYMX_MIX(<=, bool) SYMX_MIX(>=, bool) SYMX_MIX(==, bool) SYMX_MIX(!=, bool)
#undef SYMX_MIX
std::ostream& operator<<(std::ostream&, const Sym&);
std::istream& operator>>(std::istream&, Sym&);

// math
Sym abs(const Sym&); Sym sqrt(const Sym&); Sym powi(const Sym&, int); Sym pow(const Sym&, const Sym&);
Sym sin(const Sym&); Sym cos(const Sym&); Sym tan(const Sym&); Sym acos(const Sym&); Sym asin(const Sym&);
Sym atan2(const Sym&, const Sym&); Sym exp(const Sym&); Sym log(const Sym&); Sym cosh(const Sym&); Sym sinh(const Sym&);
Sym floor(const Sym&); Sym ceil(const Sym&); Sym round(const Sym&); Sym trunc(const Sym&); Sym fmod(const Sym&, const Sym&);
Sym hypot(const Sym&, const Sym&);
bool isnan(const Sym&); bool isinf(const Sym&); bool isfinite(const Sym&);
inline Sym fabs(const Sym& a) { return abs(a); }
inline Sym real(const Sym& a) { return a; }
inline Sym imag(const Sym&) { return Sym(0); }
inline Sym conj(const Sym& a) { return a; }
inline Sym abs2(const Sym& a) { return a * a; }
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
Sym nanSym(); Sym dontCare(); Sym piSym(); Sym uninitSym();

// formulas (never fork)
struct FNode; typedef std::shared_ptr<FNode> FP;
class F { public: FP p; F(); F(bool b); explicit F(FP x) : p(std::move(x)) {} };
F operator&&(const F&, const F&); F operator||(const F&, const F&); F operator!(const F&);
F f_le(const Sym&, const Sym&); F f_lt(const Sym&, const Sym&); F f_eq(const Sym&, const Sym&);
F f_near(const Sym& a, const Sym& b, const Sym& tol);
inline F f_ge(const Sym& a, const Sym& b) { return f_le(b, a); }
inline F f_gt(const Sym& a, const Sym& b) { return f_lt(b, a); }
F f_iff(const F&, const F&); F f_implies(const F&, const F&);

// harness API
Sym input(const std::string& name, const Sym& lo, const Sym& hi);   // arbitrary value in [lo,hi]
int choose(const std::string& name, int n);                        // arbitrary value in 0..n-1 (forks)
void assume(const F&);
void check(const F&, const std::string& label);
bool caseSplit(const F&, const std::string& name);                  // forks on a formula
bool isLinear(const Sym& a);                                         // affine in the inputs
bool equivSign(const Sym& a, const Sym& b);                        // certainly the same sign everywhere (syntactic)
void setDontCareInverse(bool);
bool dontCareInverse();
void noteFail(const char* what);                                   // internal assertion fired etc.
[[noreturn]] void internalFailure(const char* kind, const char* expr, const char* file, int line);
// expected internal rejection: runs f; returns true if an internal assertion fired in it
struct CaseReg { CaseReg(const char* name, int tier, std::function<void()> f); };
void stat(const std::string& key, long add = 1);
}

namespace std {
#define SYMX_F1(f) inline symx::Sym f(const symx::Sym& a) { return symx::f(a); }
SYMX_F1(abs) SYMX_F1(fabs) SYMX_F1(sqrt) SYMX_F1(sin) SYMX_F1(cos) SYMX_F1(tan) SYMX_F1(acos) SYMX_F1(asin)
SYMX_F1(exp) SYMX_F1(log) SYMX_F1(floor) SYMX_F1(ceil) SYMX_F1(round) SYMX_F1(trunc) SYMX_F1(cosh) SYMX_F1(sinh)
#undef SYMX_F1
inline symx::Sym pow(const symx::Sym& a, int n) { return symx::powi(a, n); }
inline symx::Sym pow(const symx::Sym& a, const symx::Sym& b) { return symx::pow(a, b); }
inline symx::Sym pow(const symx::Sym& a, __typeof__(1.0) b) { return symx::pow(a, symx::Sym(b)); }
inline symx::Sym pow(const symx::Sym& a, float b) { return symx::pow(a, symx::Sym(b)); }
inline symx::Sym atan2(const symx::Sym& a, const symx::Sym& b) { return symx::atan2(a, b); }
inline symx::Sym hypot(const symx::Sym& a, const symx::Sym& b) { return symx::hypot(a, b); }
inline symx::Sym fmod(const symx::Sym& a, const symx::Sym& b) { return symx::fmod(a, b); }
inline symx::Sym hypot(const symx::Sym& a, const symx::Sym& b, const symx::Sym& c) { return symx::sqrt(a * a + b * b + c * c); }
inline long lround(const symx::Sym& a) { return (long)symx::round(a); }
inline long lrint(const symx::Sym& a) { return (long)symx::round(a); }
inline long long llround(const symx::Sym& a) { return (long)symx::round(a); }
inline symx::Sym rint(const symx::Sym& a) { return symx::round(a); }
inline symx::Sym nearbyint(const symx::Sym& a) { return symx::round(a); }
inline bool signbit(const symx::Sym& a) { return a < symx::Sym(0); }
inline symx::Sym copysign(const symx::Sym& a, const symx::Sym& b) { symx::Sym m = symx::abs(a); return b < symx::Sym(0) ? -m : m; }
inline symx::Sym fdim(const symx::Sym& a, const symx::Sym& b) { return a > b ? a - b : symx::Sym(0); }
inline symx::Sym fmax(const symx::Sym& a, const symx::Sym& b) { return a < b ? b : a; }
inline symx::Sym fmin(const symx::Sym& a, const symx::Sym& b) { return b < a ? b : a; }
inline bool isnan(const symx::Sym& a) { return symx::isnan(a); }
inline bool isinf(const symx::Sym& a) { return symx::isinf(a); }
inline bool isfinite(const symx::Sym& a) { return symx::isfinite(a); }
template <> struct numeric_limits<symx::Sym> {
  static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
    has_infinity = false, has_quiet_NaN = true, has_signaling_NaN = false, is_iec559 = false, is_bounded = true, is_modulo = false;
  static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021, max_exponent = 1024;
  static symx::Sym epsilon() { return symx::Sym(numeric_limits<__typeof__(1.0)>::epsilon()); }
  static symx::Sym min() { return symx::Sym(1e-300); }
  static symx::Sym max() { return symx::Sym(1e300); }
  static symx::Sym lowest() { return symx::Sym(-1e300); }
  static symx::Sym infinity() { return symx::Sym(1e300); }
  static symx::Sym quiet_NaN() { return symx::nanSym(); }
  static symx::Sym round_error() { return symx::Sym(0.5); }
};
}
