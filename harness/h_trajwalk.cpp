// C20, C24 (trajectory generator): the program handed to the solver after any setting changes.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/model/no_dynamic_model.cpp"
#include "src/function/trajectory_position_tracking_objective.cpp"
#include "src/function/trajectory_velocity_tracking_objective.cpp"
#include "src/function/trajectory_jerk_minimization_objective.cpp"
#include "src/function/trajectory_motion_constraint.cpp"
#include "src/trajectory_walkgen.cpp"
#include "oracle.h"
#include "walk.h"
#include <numeric>
using namespace MPCWalkgen;
typedef TrajectoryWalkgen<double> Gen;
struct World { Dirty<Gen> gen; int N; double T, vl, al, jl, w[3]; bool con; VecX s, vref, pref, X; bool resync; bool mayFail; int solves;
  World() : N(1), T(rat(1)), vl(rat(1)), al(rat(1)), jl(rat(1)), con(false), resync(false), mayFail(false), solves(0) { for (auto& x : w) x = rat(0); s = VecX::Zero(3); vref = pref = X = VecX::Zero(1); walk::mayFail() = &mayFail; }
  ~World() { walk::mayFail() = nullptr; } };
static bool gWide = false; // also a much larger horizon
enum { OP_N, OP_T, OP_VREF, OP_PREF, OP_LIMITS, OP_STATE, OP_WEIGHTS, OP_CONFIG, NOPS };
static void op(World& w, int k, const std::string& t) { Gen& g = *w.gen; switch (k) {
  case OP_N: { int ns[] = {1, 2, 3, 7}; w.N = ns[choose("N" + t, gWide ? 4 : 3)]; } g.setNbSamples(w.N); w.X = VecX::Zero(w.N); w.resync = false; w.vref = inVec("vref" + t, w.N, rat(-5), rat(5)); w.pref = inVec("pref" + t, w.N, rat(-5), rat(5)); g.setVelRefInWorldFrame(w.vref); g.setPosRefInWorldFrame(w.pref); break;
  case OP_T: w.T = input("T" + t, rat(1, 100), rat(2)); g.setSamplingPeriod(w.T); break;
  case OP_VREF: w.vref = inVec("vref" + t, w.N, rat(-5), rat(5)); g.setVelRefInWorldFrame(w.vref); break;
  case OP_PREF: w.pref = inVec("pref" + t, w.N, rat(-5), rat(5)); g.setPosRefInWorldFrame(w.pref); break;
  case OP_LIMITS: w.vl = input("vl" + t, rat(0), rat(9)); w.al = input("al" + t, rat(0), rat(9)); w.jl = input("jl" + t, rat(0), rat(9)); g.setVelLimit(w.vl); g.setAccLimit(w.al); g.setJerkLimit(w.jl); break;
  case OP_STATE: w.s = inVec("state" + t, 3, rat(-5), rat(5)); g.setState(w.s); break;
  case OP_WEIGHTS: { TrajectoryWalkgenWeighting<double> W; int on = choose("weights on" + t, 8); for (int i = 0; i < 3; ++i) w.w[i] = on >> i & 1 ? input(S("w", i) + t, rat(1, 100), rat(10)) : rat(0); W.velocityTracking = w.w[0]; W.positionTracking = w.w[1]; W.jerkMinimization = w.w[2]; g.setWeightings(W); break; }
  case OP_CONFIG: { TrajectoryWalkgenConfig<double> c; c.withMotionConstraints = w.con = choose("constraints" + t, 2); g.setConfig(c); break; } } }
static bool solve(World& w, const std::string& t) { Gen& g = *w.gen; double f = input("f" + t, rat(1, 100), rat(2)); int before = walk::calls(); w.mayFail = true; bool r = g.solve(f); w.mayFail = false; ++w.solves;
  check(F(walk::calls() == before + 1), "one program per step" + t); if (walk::calls() != before + 1) return false; walk::QP q = walk::last(); int N = w.N; auto& call = ::qpOASES::hook().calls.back();
  bool sz = q.ok && call.nV == N; check(F(sz), "sizes" + t); if (!sz) return false; bool failed = false; { // did the stand-in answer with a failure?
    failed = ::qpOASES::hook().lastCode != ::qpOASES::SUCCESSFUL_RETURN; }
  check(F(r == !failed), "failure of the solver reported" + t);
  if (w.resync) { if (!w.con) return false; for (int i = 0; i < N; ++i) w.X(i) = -w.jl - q.lb(i); w.resync = false; }
  VecX d = inVec("d" + t, N, rat(-5), rat(5)); const VecX s = w.s; const double T = w.T; walk::Sum want(N); auto st = [&](const VecX& u) { return oracle::rollout(s, u, T, T); };
  want.add(w.w[0], w.X, [&](const VecX& u) { auto z = st(u); VecX e(N); for (int i = 0; i < N; ++i) e(i) = z[i].v - w.vref(i); return e; });
  want.add(w.w[1], w.X, [&](const VecX& u) { auto z = st(u); VecX e(N); for (int i = 0; i < N; ++i) e(i) = z[i].p - w.pref(i); return e; });
  want.add(w.w[2], w.X, [&](const VecX& u) { return u; });
  nearMat(q.H, want.H, "Hessian" + t); nearVec(q.g, want.g, "gradient" + t);
  std::vector<double> need; if (w.con) { VecX u = w.X + d; auto z = st(u); auto lim = [&](const double& v, const double& l) { need.push_back(v - l); need.push_back(-l - v); }; for (int i = 0; i < N; ++i) { lim(z[i].v, w.vl); lim(z[i].a, w.al); lim(u(i), w.jl); } }
  rowsEquivalent(walk::rows(q, d), need, "constraints" + t);
  if (failed) { w.resync = true; w.s = g.getState(); return true; }
  w.X += walk::primalOf(before, N); oracle::Axis a{w.s(0), w.s(1), w.s(2)}; oracle::stepJerk(a, w.X(0), f); w.s << a.p, a.v, a.a; nearVec(g.getState(), w.s, "state after the step" + t); check(f_near(g.getJerk(), w.X(0), TOL), "jerk of the step" + t); return true; }
static void history(int N, int con, const std::vector<int>& shape, int first) { symx::setDontCareInverse(true); walk::reset(); gWide = shape.size() <= 2 && std::accumulate(shape.begin(), shape.end(), 0) <= 1; World w; if (N > 1) { w.N = N; w.gen->setNbSamples(N); w.X = VecX::Zero(N); w.vref = inVec("vref", N, rat(-5), rat(5)); w.pref = inVec("pref", N, rat(-5), rat(5)); w.gen->setVelRefInWorldFrame(w.vref); w.gen->setPosRefInWorldFrame(w.pref); }
  if (con >= 0) { TrajectoryWalkgenConfig<double> c; c.withMotionConstraints = w.con = con; w.gen->setConfig(c); TrajectoryWalkgenWeighting<double> W; W.velocityTracking = w.w[0] = input("w0", rat(1, 100), rat(10)); W.positionTracking = w.w[1] = input("w1", rat(1, 100), rat(10)); W.jerkMinimization = w.w[2] = input("w2", rat(1, 100), rat(10)); w.gen->setWeightings(W); }
  int k = 0; for (size_t i = 0; i < shape.size(); ++i) { for (int j = 0; j < shape[i]; ++j, ++k) op(w, k == 0 && first >= 0 ? first : choose(S("op", k), NOPS), S("_", k)); if (!solve(w, S(" (step ", i) + ")")) return; } }
// any valid settings: nothing but acceptance is required
static void accepted(int len) { symx::setDontCareInverse(true); walk::reset(); gWide = len <= 2; World w; for (int k = 0; k < len; ++k) { int o = choose(S("op", k), NOPS + 1); if (o == NOPS) { w.mayFail = true; w.gen->solve(input(S("f", k), rat(1, 100), rat(2))); w.mayFail = false; } else op(w, o, S("_", k)); } check(F(true), "accepted"); (*w.gen).solve(rat(1, 10)); }
static int reg = [] {
  for (int N = 1; N <= 3; ++N) for (int con = -1; con < 2; ++con) { std::string n = S("C20/N", N) + (con < 0 ? "/bare" : con ? "/constrained" : "/free");
    addCase(n + "/solves", 0, [=] { history(N, con, {0, 0, 0}, -1); }); if (con >= 0) { addCase(n + "/six solves", 0, [=] { history(N, con, {0, 0, 0, 0, 0, 0}, -1); }); for (int f = 0; f < NOPS; ++f) addCase(n + S("/s-s-op-s-s/first", f), 0, [=] { history(N, con, {0, 0, 1, 0}, f); }); }
    for (int f = 0; f < NOPS; ++f) { addCase(n + S("/s-op-s/first", f), 0, [=] { history(N, con, {0, 1}, f); }); addCase(n + S("/op-s-op-s/first", f), 0, [=] { history(N, con, {1, 1}, f); }); addCase(n + S("/op-op-s/first", f), 0, [=] { history(N, con, {2}, f); });
      addCase(n + S("/op-op-s-op-s/first", f), N <= 2 ? 0 : 1, [=] { history(N, con, {2, 1}, f); }); addCase(n + S("/op-s-op-s-op-s/first", f), N == 2 && con >= 0 && f != OP_WEIGHTS ? 0 : 1, [=] { history(N, con, {1, 1, 1}, f); }); } }
  for (int N : {5, 8, 12, 20}) for (int con = 0; con < 2; ++con) { std::string n = S("C20/N", N) + (con ? "/constrained" : "/free"); int tier = 0; addCase(n + "/solves", tier, [=] { history(N, con, {0, 0, 0}, -1); });
    for (int f = 0; f < NOPS; ++f) { addCase(n + S("/s-op-s/first", f), tier, [=] { history(N, con, {0, 1}, f); }); addCase(n + S("/op-s-s/first", f), tier, [=] { history(N, con, {1, 0}, f); }); } }
  for (int l = 0; l <= 4; ++l) addCase(S("C24/trajectory/len", l), l <= 3 ? 0 : 1, [=] { accepted(l); });
  return 0; }();
