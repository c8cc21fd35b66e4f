// C22, C24 (humanoid generator): the program handed to the solver in every gait phase.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/interpolator.cpp"
#include "src/model/lip_model.cpp"
#include "src/model/humanoid_foot_model.cpp"
#include "src/humanoid_feet_supervisor.cpp"
#include "src/function/humanoid_cop_centering_objective.cpp"
#include "src/function/humanoid_lip_com_velocity_tracking_objective.cpp"
#include "src/function/humanoid_lip_com_jerk_minimization_objective.cpp"
#include "src/function/humanoid_cop_constraint.cpp"
#include "src/function/humanoid_foot_constraint.cpp"
#include "src/humanoid_walkgen.cpp"
#include "oracle.h"
#include "humanoid.h"
#include "walk.h"
using namespace MPCWalkgen; using namespace gait; using namespace hum;
typedef HumanoidWalkgen<double> Gen;
struct World { Dirty<Gen> gen; Dirty<Sup> unused; Drive d; Phys ph; VecX com[2], ref; double w[3]; bool con[2]; int family, reach; int concrete; bool mayFail, failing = true, positive = false; VecX X; // concrete: 1 feet and footsteps, 2 also the centre of mass and every answer of the solver; positive: no sign of a planned CoP is left open (the code compares unbounded CoP entries with zero)
  World(const Cfg& c, const double& T, int conc) : d(c, T, *unused), family(0), reach(0), concrete(conc), mayFail(false) { d.live = false; ph.T = T; ph.h = rat(1); ph.g << rat(0), rat(0), rat(981, 100); for (auto& x : w) x = rat(0); con[0] = con[1] = false; com[0] = com[1] = VecX::Zero(3); ref = VecX::Zero(2 * c.N); }
  VecV2 lr() const { return reach & 1 ? quad({{-20, -18}, {-20, -40}, {30, -45}, {35, -18}}) : leftReach(); } VecV2 rr() const { return reach & 2 ? quad({{35, 15}, {30, 42}, {-25, 35}, {-20, 15}}) : rightReach(); } };
static void setFoot(World& w, int k, int a, const VecX& v) { w.d.foot[k][a] = v; Gen& g = *w.gen; if (k == 0) { if (a == 0) g.setLeftFootStateX(v); else if (a == 1) g.setLeftFootStateY(v); else g.setLeftFootStateZ(v); } else { if (a == 0) g.setRightFootStateX(v); else if (a == 1) g.setRightFootStateY(v); else g.setRightFootStateZ(v); } }
static void feet(World& w, const std::string& t) { static const int px[] = {21, -32, 93, -113}; for (int k = 0; k < 2; ++k) for (int a = 0; a < 2; ++a) { VecX v(3); v << (w.concrete ? rat(px[2 * a + k], 1000) : input(S(S("foot", k) + "_", a) + t, rat(-2), rat(2))), rat(0), rat(0); setFoot(w, k, a, v); } }
static void references(World& w, const std::string& t) { w.ref = inVec("ref" + t, 2 * w.d.g.c.N, rat(-2), rat(2)); w.gen->setVelRefInWorldFrame(w.ref); }
static void centre(World& w, const std::string& t) { if (w.concrete == 2) { w.com[0] << rat(t.size() + 1, 50), rat(1, 10), rat(1, 5); w.com[1] << rat(-3, 100), rat(t.size(), 50), rat(-1, 10); } else { for (int a = 0; a < 2; ++a) { w.com[a] = inVec(std::string("com") + "xy"[a] + t, 3, rat(-5), rat(5)); if (w.positive) w.com[a](0) = input(std::string("ahead") + "xy"[a] + t, rat(1), rat(5)); } } w.gen->setComStateX(w.com[0]); w.gen->setComStateY(w.com[1]); }
static void height(World& w, int k) { w.ph.h = k ? rat(4, 5) : rat(13, 10); VecX z(3); z << w.ph.h, rat(0), rat(0); w.gen->setComStateZ(z); }
static void weights(World& w, int on, int set) { HumanoidWalkgenWeighting<double> W; for (int i = 0; i < 3; ++i) w.w[i] = on >> i & 1 ? (set ? rat(2 + 3 * i, 7) : rat(5 - i, 2)) : rat(0); W.velocityTracking = w.w[0]; W.copCentering = w.w[1]; W.jerkMinimization = w.w[2]; w.gen->setWeightings(W); }
static void config(World& w, bool cop, bool steps) { HumanoidWalkgenConfig<double> c; c.withCopConstraints = w.con[0] = cop; c.withFeetConstraints = w.con[1] = steps; w.gen->setConfig(c); }
static void sole1(World& w, int f, int foot) { int l = w.family >= 10 ? w.family % 10 : w.family, q = w.family >= 10 ? w.family / 10 - 1 : w.family; (foot ? q : l) = f; w.family = 10 * (q + 1) + l; if (foot) w.gen->setRightFootCopConvexPolygon(ConvexPolygon<double>(sole(f, 1))); else w.gen->setLeftFootCopConvexPolygon(ConvexPolygon<double>(sole(f, 0))); }
static void soles(World& w, int f) { w.family = f; w.gen->setLeftFootCopConvexPolygon(ConvexPolygon<double>(sole(f, 0))); w.gen->setRightFootCopConvexPolygon(ConvexPolygon<double>(sole(f, 1))); }
static void reachable(World& w, int f, int which = 3) { w.reach = f; if (which & 1) w.gen->setLeftFootKinematicConvexPolygon(ConvexPolygon<double>(w.lr())); if (which & 2) w.gen->setRightFootKinematicConvexPolygon(ConvexPolygon<double>(w.rr())); }
static void rise(World& w, const std::string& t) { for (int k = 0; k < 2; ++k) w.d.hmax[k] = w.concrete ? rat(k + 3, 100) : input(S("rise", k) + t, rat(0), rat(1)); w.gen->setLeftFootMaxHeight(w.d.hmax[0]); w.gen->setRightFootMaxHeight(w.d.hmax[1]); }
static MatX inverse(const MatX& A, bool& ok) { int n = A.rows(); MatX M = A, R = MatX::Identity(n, n); ok = true; for (int c = 0; c < n; ++c) { int p = -1; for (int r = c; r < n && p < 0; ++r) if (std::abs(M(r, c)) > rat(1, 1000000000)) p = r; if (p < 0) { ok = false; return R; } M.row(c).swap(M.row(p)); R.row(c).swap(R.row(p)); double q = rat(1) / M(c, c); M.row(c) *= q; R.row(c) *= q; for (int r = 0; r < n; ++r) if (r != c) { double f = M(r, c); M.row(r) -= f * M.row(c); R.row(r) -= f * R.row(c); } } return R; }
static double stepAnswer(int cycle, int i) { return rat(((3 * cycle + i) % 7) - 3, 61); }
static double solverAnswer(const World& w, int k, int i);
static bool numeric(const World& w, int i) { return w.concrete == 2 || (w.concrete && i >= 2 * w.d.g.c.N); }
// the solver's answer, chosen by the harness for the steps when plans are concrete
static bool step(World& w, bool mv, bool look, const std::string& prop) { Gen& gen = *w.gen; const std::string t = S(" (cycle ", w.d.cycle) + ")"; gen.setMove(mv); w.d.begin(mv); const Gait& g = w.d.g; const int N = g.c.N, M = g.M, n = 2 * N + 2 * M; int before = walk::calls();
  std::vector<double> oldPlan; { int m = w.X.size() ? (w.X.size() - 2 * N) / 2 : 0; for (int a = 0; a < 2; ++a) { int off = g.droppedStep ? 1 : 0; for (int j = 0; j < M; ++j) oldPlan.push_back(j + off < m ? w.X(2 * N + a * m + j + off) : rat(1000)); } }
  w.mayFail = look && w.failing; bool r = gen.solve(w.d.f); w.mayFail = false; check(F(walk::calls() == before + 1), "one program per step" + t); if (walk::calls() != before + 1) return false; walk::QP q = walk::last(); auto& call = ::qpOASES::hook().calls.back();
  bool sz = q.ok && call.nV == n && q.g.size() == n && q.lb.size() == n && q.ub.size() == n && q.lbA.size() == call.nC && q.ubA.size() == call.nC; check(F(sz), "sizes" + t); if (!sz) return false; bool failed = ::qpOASES::hook().lastCode != ::qpOASES::SUCCESSFUL_RETURN; check(F(r == !failed), "failure of the solver reported" + t);
  View v(w.d, w.ph, w.com[0], w.com[1]); MatX H = MatX::Zero(n, n); VecX z = VecX::Zero(n), g0 = VecX::Zero(n); auto add = [&](const double& c, const VecX& W, const std::function<VecX(const VecX&)>& f) { Lsq l(z, f); H += c * l.hessian(W); g0 += c * l.gradient(W); };
  if (w.w[0] > 0) add(w.w[0], v.weights(), [&](const VecX& y) { return v.velocity(y, w.ref); }); if (w.w[1] > 0) add(w.w[1], VecX::Constant(2 * N, rat(1)), [&](const VecX& y) { return v.centring(y); }); if (w.w[2] > 0) add(w.w[2], v.weights(), [&](const VecX& y) { return v.jerk(y); });
  double scale = rat(1), top = rat(0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double a = std::abs(H(i, j)); if (a > top) { top = a; scale = q.H(i, j) / H(i, j); } }
  check(f_gt(scale, rat(0)), "objective scaled by a positive factor" + t); if (!(scale > 0)) return false; if (look) nearMat(MatX(q.H / scale), H, "Hessian" + t, top > rat(1) ? double(TOL * top) : double(TOL));
  bool ok; MatX inv = inverse(H, ok); if (!ok) { if (!(top > 0)) nearVec(q.g, VecX::Zero(n), "no objective, no gradient" + t); return false; }
  // the point around which the program is stated: what the gradient says
  VecX x0 = inv * VecX(q.g / scale - g0); for (int a = 0; a < 2; ++a) for (int j = 0; j < M; ++j) if (!(oldPlan[a * M + j] > rat(900))) check(f_near(x0(2 * N + a * M + j), oldPlan[a * M + j], TOL), S("program stated around the current plan, step ", j) + t);
  VecX sol(n); for (int i = 0; i < n; ++i) sol(i) = solverAnswer(w, before, i);
  if (look) { VecX d = inVec("d", n, rat(-5), rat(5)), x = x0 + d, plan = x0.segment(2 * N, 2 * M); std::vector<double> need; if (w.con[0]) need = copRows(w.d, plan, x, w.family); if (w.con[1]) for (auto& e : stepRows(w.d, x0, x, w.lr(), w.rr())) need.push_back(e); rowsEquivalent(walk::rows(q, d), need, "constraints" + t); }
  if (failed) return false; w.X = x0 + sol; VecX j[2]; std::vector<oracle::Axis> st; for (int a = 0; a < 2; ++a) { v.roll(w.X, a, j[a], st); oracle::Axis s{w.com[a](0), w.com[a](1), w.com[a](2)}; oracle::stepJerk(s, j[a](0), w.d.f); w.com[a] << s.p, s.v, s.a; }
  const VecX *cs[2] = {&gen.getComStateX(), &gen.getComStateY()}; if (look) for (int a = 0; a < 2; ++a) nearVec(*cs[a], w.com[a], std::string("centre of mass ") + "xy"[a] + t);
  w.d.end(VecX(w.X.segment(2 * N, 2 * M))); const VecX* fs[2][3] = {{&gen.getLeftFootStateX(), &gen.getLeftFootStateY(), &gen.getLeftFootStateZ()}, {&gen.getRightFootStateX(), &gen.getRightFootStateY(), &gen.getRightFootStateZ()}};
  if (look) for (int k = 0; k < 2; ++k) for (int a = 0; a < 3; ++a) nearVec(*fs[k][a], VecX(w.d.foot[k][a]), std::string(k ? "right foot " : "left foot ") + "xyz"[a] + t); return true; }
double solverAnswer(const World& w, int k, int i) { return numeric(w, i) ? stepAnswer(w.d.cycle, i) : w.positive ? input(S("sol", k, i), rat(0), rat(5)) : walk::primal(k, i); }
static World*& current() { static World* w = nullptr; return w; }
static double answer(int k, int i) { return solverAnswer(*current(), k, i); }
static void prepare(World& w) { walk::reset(); walk::mayFail() = &w.mayFail; current() = &w; ::qpOASES::hook().primal = answer; }
// ---- configuration in different orders, with repeated calls ------------------------
enum { CN, CT, CREACH, CSOLES, CCONF, CWEIGHT, CHEIGHT, CFEET, CRISE, NC };
static void configure(World& w, int what, bool final, int cop, int steps) { Gen& g = *w.gen; const Cfg& c = w.d.g.c; switch (what) {
  case CN: g.setNbSamples(final ? c.N : c.N + 1); if (final) { references(w, "init"); } break;
  case CT: if (final) { g.setSamplingPeriod(w.ph.T); g.setStepPeriod(w.ph.T * double(c.p)); g.setInitialDoubleSupportLength(w.ph.T * double(c.d)); } else { g.setSamplingPeriod(rat(1, 2)); g.setStepPeriod(rat(3)); g.setInitialDoubleSupportLength(rat(1)); } break;
  case CREACH: reachable(w, final ? 0 : 3); break;
  case CSOLES: soles(w, final ? (w.concrete == 2 ? 1 : 3) : 2); break;
  case CCONF: if (final) config(w, cop, steps); else config(w, !cop, !steps); break;
  case CWEIGHT: weights(w, final ? 7 : 2, final); break;
  case CHEIGHT: height(w, final); break;
  case CFEET: feet(w, final ? "" : "old"); break;
  case CRISE: rise(w, final ? "" : "old"); break; } }
static void setup(World& w, int rot, int twice, int cop, int steps) { if (twice >= 0) configure(w, twice, false, cop, steps); for (int k = 0; k < NC; ++k) configure(w, (k + rot) % NC, true, cop, steps); centre(w, "init"); }
// every history of at most `toggles` commands; what follows the last one is examined
static void walkAround(const Cfg& c, int cop, int steps, int cycles, int toggles, int concrete) { World w(c, rat(1, 10), concrete); w.positive = cop && concrete == 1; prepare(w); setup(w, 0, -1, cop, steps); std::vector<int> at; for (int k = 0; (int)at.size() < toggles; ) { int n = cycles - k, j = choose(S("command", at.size()), n + 1); if (j == n) break; at.push_back(k + j); k += j + 1; }
  int last = at.empty() ? 0 : at.back(); bool mv = false; size_t i = 0; for (int k = 0; k < cycles; ++k) { if (i < at.size() && at[i] == k) { mv = !mv; ++i; } w.failing = k == last || k == cycles - 1; if (!step(w, mv, k >= last, "")) break; } walk::mayFail() = nullptr; }
static void orders(const Cfg& c, int rot, int cop, int steps, int cycles, int concrete) { World w(c, rat(1, 10), concrete); w.positive = cop && concrete == 1; prepare(w); setup(w, rot, choose("twice", NC + 1) - 1, cop, steps); for (int k = 0; k < cycles; ++k) if (!step(w, true, k == 0 || k == cycles - 1, "")) break; walk::mayFail() = nullptr; }
// settings changed while walking
enum { MREACH, MSOLES, MCONF, MWEIGHT, MHEIGHT, MREF, MCOM, MFEET, MRISE, MSTEP, MSUPPORT, MRATE, NM };
static void change(World& w, int what, const std::string& t) { switch (what) {
  case MREACH: { int k = choose("reach" + t, 3) + 1; reachable(w, k, k); break; } case MSOLES: { int k = choose("soles" + t, 4); if (k < 2) soles(w, k ? 2 : w.concrete == 2 ? 0 : 3); else sole1(w, w.concrete == 2 ? 0 : 2, k == 3); break; } case MCONF: { int k = choose("constraints" + t, 4); config(w, k & 1, k >> 1); break; }
  case MWEIGHT: weights(w, choose("weights" + t, 8), 0); break; case MHEIGHT: height(w, 0); break; case MREF: references(w, t); break; case MCOM: centre(w, t); break;
  case MFEET: { int m = choose("moved" + t, 4); for (int k = 0; k < 2; ++k) for (int a = 0; a < 2; ++a) { if (m == 0 ? a == 1 : m == 1 ? a == 0 : m == 2 ? k == 1 : k == 0) continue; VecX v(3); v << w.d.foot[k][a](0) + rat(k == a ? 1 : -1, 50), rat(0), rat(0); if (!w.d.g.flies()) setFoot(w, k, a, v); } break; } case MRISE: for (int k = 0; k < 2; ++k) w.d.hmax[k] = rat(7 + k, 100); w.gen->setLeftFootMaxHeight(w.d.hmax[0]); w.gen->setRightFootMaxHeight(w.d.hmax[1]); break; } }
// the lengths of steps and double supports and the control rate; false: not a meaningful change now
static bool retime(World& w, int what, const std::string& t) { int r = what == MSTEP ? choose("length" + t, 3) : what == MSUPPORT ? 3 + choose("length" + t, 2) : 6 + choose("rate" + t, 3); if (!w.d.retime(r)) return false; if (what == MSTEP) w.gen->setStepPeriod(w.ph.T * double(w.d.g.c.p)); if (what == MSUPPORT) w.gen->setInitialDoubleSupportLength(w.ph.T * double(w.d.g.c.d)); return true; }
static void changes(const Cfg& c, int what, int cop, int steps, int cycles, int concrete) { World w(c, rat(1, 10), concrete); w.positive = (cop || what == MCONF) && concrete == 1; prepare(w); setup(w, 0, -1, cop, steps); int at = choose("at", cycles - 1) + 1; bool mv = true; for (int k = 0; k < cycles; ++k) { if (k == at) { if (what >= MSTEP) { if (!retime(w, what, "now")) { assume(F(false)); break; } } else change(w, what, "now"); if (choose("stop", 2)) mv = false; } if (!step(w, mv, k >= at, "")) break; } walk::mayFail() = nullptr; }
// ---- acceptance: any sequence of valid setting changes and control steps ------------
struct Any { Dirty<Gen> gen; int N = 1, m = 0, T = 10, P = 20, D = 20; bool mv = false, moved = false, refs = true; std::unique_ptr<Gait> g; double period() const { return rat(T, 10); } }; // times in tenths of a second
enum { ANB, AT, AP, AD, AREACH, ASOLES, ACONF, AWEIGHT, AHEIGHT, ACOM, AFEET, ARISE, AREFS, AYAW, AMOVE, ASOLVE, ARATE, NA };
// a reachable region is configured first: a walking robot without one has nowhere to step
static VecV2 symQuad(const std::string& n) { double a = input(n + "a", rat(1, 50), rat(1, 5)), b = input(n + "b", rat(1, 50), rat(1, 5)); VecV2 v; const int sx[] = {-1, 1, 1, -1}, sy[] = {-1, -1, 1, 1}; for (int i = 0; i < 4; ++i) { Vec2 q; q << rat(sx[i]) * a, rat(sy[i]) * b; v.push_back(q); } return v; }
static void anyOp(Any& w, int op, int k) { Gen& g = *w.gen; const std::string t = S("_", k); auto bound = [&](const char* n) { return input(n + t, rat(0), rat(2)); };
  switch (op) {
    case ANB: { static const int n[] = {2, 4, 1}; w.N = n[choose("n" + t, 3)]; g.setNbSamples(w.N); if (w.g) w.g->c.N = w.N; w.refs = false; break; }
    case AT: assume(F(w.m == 0)); w.T = choose("T" + t, 2) ? 1 : 2; assume(F(w.T <= w.P && w.T <= w.D)); g.setSamplingPeriod(w.period()); break;
    case AP: { static const int n[] = {4, 8, 6, 30}; w.P = n[choose("P" + t, 4)]; assume(F(2 * w.T <= w.P)); if (w.g) { Gait& r = *w.g; int p = w.P / w.T, q = r.ph == DS ? r.r : r.r + (p - r.c.p) * r.c.m; assume(F(r.ph == DS || q > 0)); if (r.ph != DS) { r.cur += q - r.r; r.r = q; } r.c.p = p; } g.setStepPeriod(rat(w.P, 10)); break; }
    case AD: { static const int n[] = {2, 4, 10}; w.D = n[choose("D" + t, 3)]; assume(F(w.T <= w.D)); if (w.g) assume(F(w.g->supportLength(w.D / w.T))); g.setInitialDoubleSupportLength(rat(w.D, 10)); break; }
    case AREACH: if (choose("side" + t, 2)) g.setLeftFootKinematicConvexPolygon(ConvexPolygon<double>(symQuad("lr" + t))); else g.setRightFootKinematicConvexPolygon(ConvexPolygon<double>(symQuad("rr" + t))); break;
    case ASOLES: if (choose("side" + t, 2)) g.setLeftFootCopConvexPolygon(ConvexPolygon<double>(sole(choose("family" + t, 3), 0))); else g.setRightFootCopConvexPolygon(ConvexPolygon<double>(sole(choose("family" + t, 3), 1))); break;
    case ACONF: { HumanoidWalkgenConfig<double> c; int v = choose("config" + t, 4); c.withCopConstraints = v & 1; c.withFeetConstraints = v >> 1; g.setConfig(c); break; }
    case AWEIGHT: { HumanoidWalkgenWeighting<double> W; int v = choose("weights" + t, 8); W.velocityTracking = rat(v & 1 ? 3 : 0, 2); W.copCentering = rat(v & 2 ? 5 : 0); W.jerkMinimization = rat(v & 4 ? 2 : 0, 3); g.setWeightings(W); break; }
    case AHEIGHT: { VecX z(3); z << rat(choose("h" + t, 3) + 4, 5), rat(0), rat(0); g.setComStateZ(z); break; }
    case ACOM: g.setComStateX(inVec("cx" + t, 3, rat(-5), rat(5))); g.setComStateY(inVec("cy" + t, 3, rat(-5), rat(5))); break;
    case AFEET: { VecX l(3), r(3), z = VecX::Zero(3); l << rat(1, 50), rat(0), rat(0); r << rat(-3, 50), rat(0), rat(0); g.setLeftFootStateX(l); g.setRightFootStateX(r); l(0) = rat(9, 100); r(0) = rat(-11, 100); g.setLeftFootStateY(l); g.setRightFootStateY(r); g.setLeftFootStateZ(z); g.setRightFootStateZ(z); break; }
    case ARISE: g.setLeftFootMaxHeight(bound("zl")); g.setRightFootMaxHeight(bound("zr")); break;
    case AREFS: g.setVelRefInWorldFrame(inVec("v" + t, 2 * w.N, rat(-2), rat(2))); g.setAngularVelRefInWorldFrame(inVec("a" + t, w.N, rat(-2), rat(2))); w.refs = true; break;
    case AYAW: g.setLeftFootYawUpperBound(bound("y0")); g.setLeftFootYawLowerBound(-bound("y1")); g.setRightFootYawUpperBound(bound("y2")); g.setRightFootYawLowerBound(-bound("y3")); g.setLeftFootYawSpeedUpperBound(bound("y4")); g.setRightFootYawSpeedUpperBound(bound("y5")); g.setLeftFootYawAccelerationUpperBound(bound("y6")); g.setRightFootYawAccelerationUpperBound(bound("y7")); break;
    case AMOVE: w.mv = !w.mv; g.setMove(w.mv); break;
    case ASOLVE: assume(F(w.refs)); w.moved = w.moved || w.mv; if (w.moved) assume(F(w.P <= w.T * w.N)); if (!w.m) { w.m = choose("feedbacks per sample", 2) + 1; w.g.reset(new Gait(Cfg{w.N, w.m, w.P / w.T, w.D / w.T})); } g.solve(w.period() / double(w.m)); w.g->begin(w.mv); w.g->end(); break;
    case ARATE: assume(F(w.m > 0)); { int m = 3 - w.m; if (w.m > 0 && !w.g->rate(m)) assume(F(false)); w.m = m; } break; } }
static double anyAnswer(int k, int i) { return rat(((3 * k + i) % 7) - 3, 61); }
static void accepted(bool configured, int len, int first, int second, int solves) { Any w; walk::reset(); walk::mayFail() = nullptr; ::qpOASES::hook().primal = anyAnswer;
  Gen& g = *w.gen; g.setLeftFootKinematicConvexPolygon(ConvexPolygon<double>(leftReach())); g.setRightFootKinematicConvexPolygon(ConvexPolygon<double>(rightReach()));
  if (configured) { w.N = 4; g.setNbSamples(4); w.T = 2; g.setSamplingPeriod(w.period()); w.P = 8; g.setStepPeriod(rat(4, 5)); w.D = 2; g.setInitialDoubleSupportLength(rat(1, 5)); g.setLeftFootCopConvexPolygon(ConvexPolygon<double>(sole(0, 0))); g.setRightFootCopConvexPolygon(ConvexPolygon<double>(sole(0, 1))); HumanoidWalkgenConfig<double> c; c.withCopConstraints = c.withFeetConstraints = true; g.setConfig(c); HumanoidWalkgenWeighting<double> W; W.velocityTracking = W.copCentering = W.jerkMinimization = rat(1); g.setWeightings(W); g.setVelRefInWorldFrame(VecX::Zero(8)); anyOp(w, AFEET, 99); w.mv = w.moved = true; g.setMove(true); w.m = 1; w.g.reset(new Gait(Cfg{4, 1, 4, 1})); anyOp(w, ASOLVE, 98); anyOp(w, ASOLVE, 97); }
  for (int k = 0; k < len; ++k) anyOp(w, k == 0 && first >= 0 ? first : k == 1 && second >= 0 ? second : choose(S("op", k), NA), k);
  if (!w.refs) { anyOp(w, AREFS, len); } for (int k = 0; k < solves; ++k) anyOp(w, ASOLVE, len + 1 + k); check(F(walk::calls() >= solves), "the control steps were taken"); }
static int reg = [] {
  struct K { Cfg c; int cycles, toggles, tier; };
  std::vector<K> ks = { {{2, 1, 2, 1}, 7, 2, 0}, {{3, 1, 2, 2}, 7, 2, 0}, {{4, 1, 3, 1}, 7, 2, 0}, {{3, 2, 2, 1}, 8, 2, 0}, {{6, 1, 2, 2}, 10, 2, 1}, {{4, 2, 2, 1}, 12, 3, 1}, {{4, 1, 2, 1}, 12, 4, 1}, {{6, 1, 2, 1}, 7, 1, 0}, {{8, 1, 3, 1}, 7, 1, 0}, {{10, 1, 2, 1}, 5, 1, 0} };
  for (size_t i = 0; i < ks.size(); ++i) { K k = ks[i]; std::string n = S(S(S(S("/N", k.c.N) + "m", k.c.m) + "p", k.c.p) + "d", k.c.d); for (int cop = 0; cop < 2; ++cop) for (int st = 0; st < 2; ++st) { std::string u = n + S("/cop", cop) + S("/steps", st);
    for (int conc = 0; conc < 3; ++conc) if (conc == 0 ? !cop && (!st || i == 0) : conc == 1 ? cop || st : cop == 1) addCase("C22/walk" + u + S("/numeric", conc), k.c.N == 8 && cop && conc == 1 ? 1 : k.tier, [=] { walkAround(k.c, cop, st, k.cycles, k.toggles, conc); });
    if (i == 3 && (!cop || !st)) for (int m = MSTEP; m < NM; ++m) addCase("C22/change" + u + S("/numeric", cop ? 2 : 1) + S("/what", m), k.tier, [=] { changes(k.c, m, cop, st, 7, cop ? 2 : 1); });
    if (i < 2 || i == 4) for (int conc = 1; conc <= 1 + cop; ++conc) { for (int r = 0; r < NC; ++r) addCase("C22/order" + u + S("/numeric", conc) + S("/rotation", r), k.tier, [=] { orders(k.c, r, cop, st, 3, conc); }); for (int m = 0; m < NM; ++m) if (!(m == MHEIGHT && cop && conc == 1) && !(m == MSTEP && k.c.N == 2)) addCase("C22/change" + u + S("/numeric", conc) + S("/what", m), k.tier, [=] { changes(k.c, m, cop, st, 5, conc); }); } } }
  for (int from = 0; from < 2; ++from) for (int l = 1; l <= 3; ++l) for (int f = 0; f < NA; ++f) if (!(from && f == AT) && !(!from && f == ARATE) && !(!from && l == 1 && f == AMOVE)) addCase(S(S(S("C24/humanoid/from", from) + "/len", l) + "/first", f), l <= 2 ? 0 : from == 0 && (f == AP || f == AD || f == AMOVE || f == ASOLVE) ? 0 : 1, [=] { accepted(from, l, f, -1, 3); });
  for (int from = 0; from < 2; ++from) for (int f = 0; f < NA; ++f) for (int e = 0; e < NA; ++e) if (!(from && (f == AT || e == AT)) && !(!from && (f == ARATE || (f == ASOLVE && e == AT) || (f != ASOLVE && e == ARATE)))) addCase(S(S(S("C24/humanoid/from", from) + "/len4/first", f) + "/second", e), 1, [=] { accepted(from, 4, f, e, 2); });
  return 0; }();
