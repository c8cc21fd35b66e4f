// C08, C13 (trajectory part): objectives and motion constraint of the trajectory generator.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/model/no_dynamic_model.cpp"
#include "src/function/trajectory_position_tracking_objective.cpp"
#include "src/function/trajectory_velocity_tracking_objective.cpp"
#include "src/function/trajectory_jerk_minimization_objective.cpp"
#include "src/function/trajectory_motion_constraint.cpp"
#include "oracle.h"
using namespace MPCWalkgen;
typedef NoDynamicModel<double> M;
// mode 0: built for (N,T); 1: built for another horizon, then changed; 2: built for another period, then changed
static double T0() { return input("T", rat(1, 100), rat(2)); }
static int other(int N) { return N == 1 ? 3 : N - 1; }
template <class O, class Set, class Res> static void objective(int N, int mode, const Set& setRef, const Res& res, const std::string& l) {
  symx::setDontCareInverse(true); double T = T0(); M m(mode == 1 ? other(N) : N, mode == 2 ? input("Told", rat(1, 100), rat(2)) : T, true); Dirty<O> o(m);
  if (mode == 1) { int k = m.getNbSamples(); setRef(*o, inVec("oldref", k, rat(-5), rat(5))); VecX x = inVec("oldu", k, rat(-5), rat(5)); o->getGradient(x); m.setNbSamples(N); o->computeConstantPart(); }
  if (mode == 2) { m.setSamplingPeriod(T); o->computeConstantPart(); }
  VecX s = inVec("s", 3, rat(-5), rat(5)), x = inVec("u", N, rat(-5), rat(5)), ref = VecX::Zero(N); m.setState(s);
  if (mode != 0 || choose("reference set", 2)) { ref = inVec("ref", N, rat(-5), rat(5)); setRef(*o, ref); }
  MatX H = o->getHessian(); VecX g = o->getGradient(x);
  auto r = [&](const VecX& u) { auto st = oracle::rollout(s, u, T, T); VecX e(N); for (int i = 0; i < N; ++i) e(i) = res(st[i], u(i)) - ref(i); return e; };
  checkLeastSquares(g, H, x, r, l);
  VecX x2 = inVec("v", N, rat(-5), rat(5)), s2 = inVec("s2", 3, rat(-5), rat(5)); m.setState(s2); s = s2; if (choose("new reference", 2)) { ref = inVec("ref2", N, rat(-5), rat(5)); setRef(*o, ref); } VecX g2 = o->getGradient(x2); MatX H2 = o->getHessian(); checkLeastSquares(g2, H2, x2, r, l + " again"); }
static void motion(int N, int mode) {
  symx::setDontCareInverse(true); double T = T0(); M m(mode == 1 ? other(N) : N, mode == 2 ? input("Told", rat(1, 100), rat(2)) : T, true); Dirty<MotionConstraint<double>> c(m);
  if (mode == 1) { m.setNbSamples(N); c->computeConstantPart(); } if (mode == 2) { m.setSamplingPeriod(T); c->computeConstantPart(); }
  double vl = rat(1), al = rat(1); for (int k = 0; k < 2; ++k) { std::string t = k ? "again" : ""; VecX s = inVec("s" + t, 3, rat(-5), rat(5)), x = inVec("x0" + t, N, rat(-5), rat(5)), d = inVec("d" + t, N, rat(-5), rat(5)); m.setState(s);
  int set = k || mode == 0 ? choose("limits set" + t, 4) : 3; if (set & 1) { vl = input("vl" + t, rat(0), rat(5)); m.setVelocityLimit(vl); } if (set & 2) { al = input("al" + t, rat(0), rat(5)); m.setAccelerationLimit(al); }
  int n = c->getNbConstraints(); VecX lo = c->getFunctionInf(x), up = c->getFunctionSup(x), lo2 = c->getFunctionInf(x); MatX G = c->getGradient();
  check(F(lo.size() == n && up.size() == n && lo2.size() == n && G.rows() == n && G.cols() == N), "sizes"); if (lo.size() != n || up.size() != n || G.rows() != n || G.cols() != N) return; nearVec(lo2, lo, "lower function again");
  VecX Gd = G * d; std::vector<double> code, want; for (int i = 0; i < n; ++i) { code.push_back(Gd(i) - up(i)); code.push_back(lo(i) - Gd(i)); }
  VecX u = x + d; auto st = oracle::rollout(s, u, T, T); for (auto& a : st) { want.push_back(a.v - vl); want.push_back(-vl - a.v); want.push_back(a.a - al); want.push_back(-al - a.a); }
  rowsEquivalent(code, want, "motion limits" + t); } }
static int reg = [] {
  for (int N : {1, 2, 3, 4, 5, 6, 8, 10, 12, 16}) for (int mode = 0; mode < 3; ++mode) { int tier = 0; std::string t = S(S("/N", N) + "/mode", mode);
    addCase("C08/position" + t, tier, [=] { objective<PositionTrackingObjective<double>>(N, mode, [](PositionTrackingObjective<double>& o, const VecX& r) { o.setPosRefInWorldFrame(r); }, [](const oracle::Axis& a, const double&) { return a.p; }, "position tracking"); });
    addCase("C08/velocity" + t, tier, [=] { objective<VelocityTrackingObjective<double>>(N, mode, [](VelocityTrackingObjective<double>& o, const VecX& r) { o.setVelRefInWorldFrame(r); }, [](const oracle::Axis& a, const double&) { return a.v; }, "velocity tracking"); });
    addCase("C08/jerk" + t, N <= 8 ? 0 : 1, [=] { symx::setDontCareInverse(true); double T = T0(); M m(mode == 1 ? other(N) : N, T, true); Dirty<TrajectoryJerkMinimizationObjective<double>> o(m); if (mode) { m.setNbSamples(N); o->computeConstantPart(); } VecX x = inVec("u", N, rat(-5), rat(5)); VecX g = o->getGradient(x); MatX H = o->getHessian(); checkLeastSquares(g, H, x, [](const VecX& u) { return u; }, "jerk"); });
    addCase("C13/trajectory" + t, tier, [=] { motion(N, mode); }); }
  return 0; }();
