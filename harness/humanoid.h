// What the humanoid's decision vector [CoP x, CoP y, steps x, steps y] means,
// computed by sample-by-sample integration; shared by h_hum and h_humwalk.
#pragma once
#include "gait.h"
namespace hum {
struct Phys { double T, h; Vec3 g; };
inline Phys phys(int k) { Phys p; p.g << rat(0), rat(0), rat(981, 100); if (k == 0) { p.T = rat(1, 10); p.h = rat(8, 10); } else if (k == 1) { p.T = rat(1, 5); p.h = rat(1); p.g << rat(1, 2), rat(-3, 10), rat(10); } else { p.T = rat(1, 4); p.h = rat(3, 5); p.g << rat(-1), rat(1, 4), rat(8); } return p; }
// the humanoid as seen from the reference gait
struct View { const gait::Gait& g; Phys ph; VecX com[2]; double sup[2];
  View(const gait::Drive& d, const Phys& p, const VecX& sx, const VecX& sy) : g(d.g), ph(p) { com[0] = sx; com[1] = sy; sup[0] = d.supp(0); sup[1] = d.supp(1); }
  int N() const { return g.c.N; } int M() const { return g.M; }
  double support(const VecX& x, int i, int a) const { int j = g.sampStep[i]; return j < 0 ? sup[a] : x(2 * N() + a * M() + j); }
  double cop(const VecX& x, int i, int a) const { return x(a * N() + i) + support(x, i, a); }
  double dur(int i) const { return i == 0 ? ph.T * rat(g.s, g.c.m) : ph.T; }
  // jerks that put the centre of pressure where x says, and the states they lead to
  void roll(const VecX& x, int a, VecX& jerk, std::vector<oracle::Axis>& st) const { jerk.resize(N()); oracle::Axis s{com[a](0), com[a](1), com[a](2)}; const double lam = ph.h / ph.g(2);
    for (int i = 0; i < N(); ++i) { const double t = dur(i); oracle::Axis z = s; oracle::stepJerk(z, rat(0), t); double coef = t * t * t / double(6) - lam * t; jerk(i) = (cop(x, i, a) - (z.p - lam * (z.a + ph.g(a)))) / coef; oracle::stepJerk(s, jerk(i), t); st.push_back(s); } }
  VecX centring(const VecX& x) const { return x.head(2 * N()); }
  VecX jerk(const VecX& x) const { VecX r(2 * N()), j; for (int a = 0; a < 2; ++a) { std::vector<oracle::Axis> st; roll(x, a, j, st); r.segment(a * N(), N()) = j; } return r; }
  VecX velocity(const VecX& x, const VecX& ref) const { VecX r(2 * N()), j; for (int a = 0; a < 2; ++a) { std::vector<oracle::Axis> st; roll(x, a, j, st); for (int i = 0; i < N(); ++i) r(a * N() + i) = st[i].v - ref(a * N() + i); } return r; }
  VecX weights() const { VecX w = VecX::Constant(2 * N(), rat(1)); double f = rat(g.s, g.c.m); for (int a = 0; a < 2; ++a) { w(a * N()) = f; w(a * N() + N() - 1) = rat(105, 100) - f; } return w; } };
// 1/2 sum of w_i r_i(x)^2 for an affine residual r
struct Lsq { MatX J; VecX rx, r0; Lsq(const VecX& x, const std::function<VecX(const VecX&)>& r) { int n = x.size(); VecX z = VecX::Zero(n); r0 = r(z); J.resize(r0.size(), n); for (int k = 0; k < n; ++k) { VecX e = VecX::Zero(n); e(k) = rat(1); J.col(k) = r(e) - r0; } rx = r0 + J * x; }
  VecX gradient(const VecX& w) const { return J.transpose() * VecX(w.cwiseProduct(rx)); } MatX hessian(const VecX& w) const { MatX WJ = J; for (int i = 0; i < J.rows(); ++i) for (int k = 0; k < J.cols(); ++k) WJ(i, k) = w(i) * J(i, k); return J.transpose() * WJ; } };
// supporting polygons of the feet (four families; the last has no edge along an axis)
// families from 10 on: another one for each foot (left: last digit, right: first digit minus one)
inline VecV2 sole(int family, int foot) { using gait::quad; if (family >= 10) family = foot ? family / 10 - 1 : family % 10;
  if (family == 0) return foot ? quad({{-7, -5}, {9, -5}, {9, 4}, {-7, 4}}) : quad({{-8, -4}, {8, -4}, {8, 5}, {-8, 5}});
  if (family == 1) return foot ? quad({{-8, -4}, {6, -5}, {10, 1}, {-2, 6}}) : quad({{-7, -5}, {8, -4}, {9, 3}, {-7, 4}});
  if (family == 3) return foot ? quad({{-8, -4}, {6, -5}, {10, 1}, {-2, 6}}) : quad({{-7, -5}, {8, -4}, {9, 3}, {-6, 4}});
  return foot ? quad({{-6, -5}, {9, 0}, {-6, 4}}) : quad({{-9, 0}, {-4, -5}, {6, -5}, {10, 0}, {5, 5}, {-5, 5}}); }
inline double cross(const Vec2& o, const Vec2& a, const Vec2& b) { return (a(0) - o(0)) * (b(1) - o(1)) - (a(1) - o(1)) * (b(0) - o(0)); }
// counterclockwise hull of points given by numbers (gift wrapping)
inline VecV2 hull(const VecV2& p) { size_t s = 0; for (size_t i = 1; i < p.size(); ++i) if (p[i](0) < p[s](0) || (p[i](0) == p[s](0) && p[i](1) < p[s](1))) s = i; VecV2 h; size_t c = s;
  for (size_t guard = 0; guard <= p.size(); ++guard) { h.push_back(p[c]); size_t n = c; for (size_t i = 0; i < p.size(); ++i) { if (p[i](0) == p[c](0) && p[i](1) == p[c](1)) continue; if (n == c) { n = i; continue; } double k = cross(p[c], p[n], p[i]); double dn = (p[n] - p[c]).squaredNorm(), di = (p[i] - p[c]).squaredNorm(); if (k < rat(0) || (k == rat(0) && di > dn)) n = i; } if (n == s || (p[n](0) == p[s](0) && p[n](1) == p[s](1))) break; c = n; } return h; }
// rows (<= 0) that keep q in the counterclockwise polygon p; which: 0 all edges, 1 slanted ones, 2 axis-parallel ones
inline void inside(std::vector<double>& rows, const VecV2& p, const double& qx, const double& qy, int which = 0) { for (size_t i = 0; i < p.size(); ++i) { const Vec2 &a = p[i], &b = p[(i + 1) % p.size()]; bool par = a(0) == b(0) || a(1) == b(1); if ((which == 1 && par) || (which == 2 && !par)) continue; rows.push_back((b(1) - a(1)) * (qx - a(0)) - (b(0) - a(0)) * (qy - a(1))); } }
// hull of the two soles around sample i, relative to the support position of that sample
inline VecV2 phasePolygon(const gait::Drive& d, const VecX& plan, int i, int family) { const gait::Gait& g = d.g; int ph = g.phases[g.sampPhase[i]]; if (ph != gait::DS) return hull(sole(family, ph == gait::R)); 
  double f[2][2], o[2]; for (int a = 0; a < 2; ++a) { for (int k = 0; k < 2; ++k) f[k][a] = d.foot[k][a](0); int j = g.sampStep[i]; o[a] = d.supp(a); if (j >= 0) { int k = g.phases[g.land[j]] == gait::L ? 1 : 0; f[k][a] = o[a] = plan(a * g.M + j); } }
  VecV2 p; for (int k = 0; k < 2; ++k) for (auto& v : hull(sole(family, k))) { Vec2 w; w(0) = v(0) + f[k][0] - o[0]; w(1) = v(1) + f[k][1] - o[1]; p.push_back(w); } return hull(p); }
// requirements on x = the decision vector after the step (x0: the one before)
inline std::vector<double> copRows(const gait::Drive& d, const VecX& plan, const VecX& x, int family) { std::vector<double> r; int N = d.g.c.N; for (int i = 0; i < N; ++i) inside(r, phasePolygon(d, plan, i, family), x(i), x(N + i)); return r; }
inline std::vector<double> stepRows(const gait::Drive& d, const VecX& x0, const VecX& x, const VecV2& lr, const VecV2& rr) { std::vector<double> r; int N = d.g.c.N, M = d.g.M; for (int j = 0; j < M; ++j) { VecV2 p = hull(d.g.phases[d.g.land[j]] == gait::L ? lr : rr); double pv[2], p0[2], s[2]; for (int a = 0; a < 2; ++a) { s[a] = x(2 * N + a * M + j); pv[a] = j ? x(2 * N + a * M + j - 1) : d.supp(a); p0[a] = j ? x0(2 * N + a * M + j - 1) : d.supp(a); }
    inside(r, p, s[0] - pv[0], s[1] - pv[1], 1); inside(r, p, s[0] - p0[0], s[1] - p0[1], 2); } return r; }
}
