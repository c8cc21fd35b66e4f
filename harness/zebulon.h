// Wheeled robot: sources, configured pairs of models, predicted motion, residuals.
#pragma once
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/model/lip_model.cpp"
#include "src/model/zebulon_base_model.cpp"
#include "src/function/zebulon_base_velocity_tracking_objective.cpp"
#include "src/function/zebulon_base_position_tracking_objective.cpp"
#include "src/function/zebulon_jerk_minimization_objective.cpp"
#include "src/function/zebulon_cop_centering_objective.cpp"
#include "src/function/zebulon_com_centering_objective.cpp"
#include "src/function/zebulon_tilt_minimization_objective.cpp"
#include "src/function/zebulon_tilt_velocity_minimization_objective.cpp"
#include "src/function/zebulon_base_motion_constraint.cpp"
#include "src/function/zebulon_tilt_motion_constraint.cpp"
#include "src/function/zebulon_cop_constraint.cpp"
#include "src/function/zebulon_com_constraint.cpp"
#include "oracle.h"
using namespace MPCWalkgen;
typedef LIPModel<double> Lip; typedef BaseModel<double> Base;
static inline int other(int N) { return N == 1 ? 3 : N - 1; }
// ---- a configured pair of models ------------------------------------------------
struct Cfg { int N; double T, m, M, hc, hb, gx, gy, gz; bool masses = false, heights = false; };
struct Rig { Lip l; Base b; VecX cx, cy, bx, by; Rig(int N, const double& T) : l(N, T, true), b(N, T, true) {}
  void apply(const Cfg& c) { if (l.getNbSamples() != c.N) { l.setNbSamples(c.N); b.setNbSamples(c.N); } l.setSamplingPeriod(c.T); b.setSamplingPeriod(c.T);
    Vec3 g; g(0) = c.gx; g(1) = c.gy; g(2) = c.gz; l.setGravity(g); b.setGravity(g); l.setComHeight(c.hc); b.setComHeight(c.hb);
    l.setTotalMass(rat(1000)); b.setTotalMass(rat(1000)); l.setMass(c.m); if (c.masses) b.setMass(c.M); l.setTotalMass(c.m + c.M); b.setTotalMass(c.m + c.M); }
  void states(const std::string& t) { cx = inVec(t + "cx", 3, rat(-5), rat(5)); cy = inVec(t + "cy", 3, rat(-5), rat(5)); bx = inVec(t + "bx", 3, rat(-5), rat(5)); by = inVec(t + "by", 3, rat(-5), rat(5)); l.setStateX(cx); l.setStateY(cy); b.setStateX(bx); b.setStateY(by); } };
static inline double periodS(const std::string& n) { return input(n, rat(1, 100), rat(2)); }
static inline Cfg cfg(int N, const std::string& t, bool withBaseMass) { Cfg c; c.N = N; c.T = periodS(t + "T"); c.masses = withBaseMass; c.m = input(t + "m", rat(1), rat(50)); c.M = withBaseMass ? input(t + "M", rat(1, 10), rat(50)) : rat(0); c.hc = input(t + "hc", rat(1, 10), rat(2)); c.hb = input(t + "hb", rat(0), rat(1)); c.gx = input(t + "gx", rat(-3), rat(3)); c.gy = input(t + "gy", rat(-3), rat(3)); c.gz = input(t + "gz", rat(5), rat(12)); return c; }
// predicted motion for jerks u = [com x, com y, base x, base y]
struct Pred { std::vector<oracle::Axis> c[2], b[2]; };
static inline Pred predict(const Rig& r, const VecX& u, int N, const double& T) { Pred p; p.c[0] = oracle::rollout(r.cx, u.segment(0, N), T, T); p.c[1] = oracle::rollout(r.cy, u.segment(N, N), T, T); p.b[0] = oracle::rollout(r.bx, u.segment(2 * N, N), T, T); p.b[1] = oracle::rollout(r.by, u.segment(3 * N, N), T, T); return p; }
static inline double copTotal(const Cfg& c, const oracle::Axis& com, const oracle::Axis& base, int ax) { const double& g = ax == 0 ? c.gx : c.gy; double tot = c.m + c.M; return c.m / tot * (com.p - c.hc / c.gz * (com.a + g)) + c.M / tot * (base.p - c.hb / c.gz * (base.a + g)); }
struct TiltP { double T, m, M, L, h; };
static inline TiltP tiltP(int k) { switch (k) { case 0: return {rat(1, 10), rat(22), rat(8), rat(1, 5), rat(7, 10)}; case 1: return {rat(1, 4), rat(3), rat(17, 2), rat(3, 10), rat(1)}; case 2: return {rat(1), rat(10), rat(10), rat(1, 8), rat(5, 4)}; default: return {rat(1, 20), rat(1, 2), rat(20), rat(1, 10), rat(9, 10)}; } }
static inline void setTilt(Rig& r, int N, const TiltP& p) { if (r.l.getNbSamples() != N) { r.l.setNbSamples(N); r.b.setNbSamples(N); } r.l.setSamplingPeriod(p.T); r.b.setSamplingPeriod(p.T); r.l.setComHeight(p.h); r.b.setComHeight(p.L); r.l.setTotalMass(rat(1000)); r.b.setTotalMass(rat(1000)); r.l.setMass(p.m); r.b.setMass(p.M); r.l.setTotalMass(p.m + p.M); r.b.setTotalMass(p.m + p.M); }
// residuals of the linearised tipping angle (or rate) along the predicted motion:
// g(mh+ML) psi + m g (d-c) = -M L d'' - m h c'' + (mh^2+ML^2) psi'' - M g contact  (tipping about the contact point, psi positive away from it)
static inline VecX tiltResidual(const TiltP& p, const Pred& q, int N, const VecX& sx, const VecX& sy, const double& dx, const double& dy, bool rate) { const double G = rat(981, 100), A1 = G * (p.m * p.h + p.M * p.L), A6 = p.m * p.h * p.h + p.M * p.L * p.L, ps = p.T, ac = p.T * p.T / double(2);
  VecX e(2 * N); for (int ax = 0; ax < 2; ++ax) { double psi = ax ? sy(0) : sx(0), om = ax ? sy(1) : sx(1); for (int i = 0; i < N; ++i) {
    double rhs = p.m * G * (q.c[ax][i].p - q.b[ax][i].p) - p.m * p.h * q.c[ax][i].a - p.M * p.L * q.b[ax][i].a - p.M * G * (ax ? dy : dx), a = psi + ps * om, al = (rhs - A1 * a) / (A1 * ac - A6);
    psi = a + ac * al; om = om + p.T * al; e(ax * N + i) = rate ? om : psi; } } return e; }
typedef std::vector<std::pair<int, int>> Pts;
struct Shape { const char* n; bool sym; Pts p; };
static inline const std::vector<Shape>& shapes() { static const std::vector<Shape> s = { {"square", true, {{5, 5}, {-5, 5}, {-5, -5}, {5, -5}}}, {"rectangle", true, {{-9, 3}, {-9, -3}, {9, -3}, {9, 3}}}, {"diamond", true, {{10, 0}, {0, 10}, {-10, 0}, {0, -10}}}, {"hexagon", true, {{10, 0}, {5, 9}, {-5, 9}, {-10, 0}, {-5, -9}, {5, -9}}}, {"parallelogram", true, {{8, 4}, {-2, 4}, {-8, -4}, {2, -4}}}, {"triangle", false, {{10, 0}, {-5, 8}, {-5, -9}}}, {"shifted", false, {{7, 5}, {-3, 5}, {-3, -5}, {7, -5}}}, {"pentagon", false, {{10, 1}, {3, 9}, {-8, 6}, {-8, -7}, {3, -9}}} }; return s; }
static inline ConvexPolygon<double> poly(const Shape& s, const double& k) { VecV2 v; for (auto& q : s.p) { Vec2 w; w(0) = k * rat(q.first, 10); w(1) = k * rat(q.second, 10); v.push_back(w); } return ConvexPolygon<double>(v); }
