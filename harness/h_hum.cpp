// C12, C15, C16: the humanoid's objectives and constraints in every gait phase.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/interpolator.cpp"
#include "src/model/lip_model.cpp"
#include "src/model/humanoid_foot_model.cpp"
#include "src/humanoid_feet_supervisor.cpp"
#include "src/function/humanoid_cop_centering_objective.cpp"
#include "src/function/humanoid_lip_com_velocity_tracking_objective.cpp"
#include "src/function/humanoid_lip_com_jerk_minimization_objective.cpp"
#include "src/function/humanoid_cop_constraint.cpp"
#include "src/function/humanoid_foot_constraint.cpp"
#include "oracle.h"
#include "humanoid.h"
#include <memory>
using namespace MPCWalkgen; using namespace gait; using namespace hum;
// the objects under test, made when the robot stands (and asked in every cycle) or when they are needed
struct Objs { Dirty<HumanoidCopCenteringObjective<double>> cop; Dirty<HumanoidLipComVelocityTrackingObjective<double>> vel; Dirty<HumanoidLipComJerkMinimizationObjective<double>> jerk; Dirty<HumanoidCopConstraint<double>> sole; Dirty<HumanoidFootConstraint<double>> foot; Objs(const LIPModel<double>& l, const Sup& s) : cop(l, s), vel(l, s), jerk(l, s), sole(l, s), foot(l, s) {} };
struct World { double T; Dirty<LIPModel<double>> lip; Dirty<Sup> sup; Drive d; Phys ph; std::unique_ptr<Objs> o; std::function<void(World&)> ask;
  void keep(const std::function<void(World&)>& a) { o.reset(new Objs(*lip, *sup)); ask = a; } Objs& objs() { if (!o) o.reset(new Objs(*lip, *sup)); return *o; }
  World(const Cfg& c, const Phys& q) : T(q.T), lip(c.N, q.T, true), sup(c.N, q.T), d(c, q.T, *sup), ph(q) { 
    sup->setStepPeriod(T * double(c.p)); sup->setInitialDoubleSupportLength(T * double(c.d)); lip->setFeedbackPeriod(T / double(c.m)); lip->setComHeight(q.h); lip->setGravity(q.g); } };
static VecX decision(const World& w, const char* n) { return inVec(n, 2 * w.d.g.c.N + 2 * w.d.g.M, rat(-5), rat(5)); }
// runs the gait; at a chosen cycle calls `at` and stops
static void history(World& w, int cycles, int toggles, bool concretePlan, const std::function<void(World&)>& at) {
  bool mv = false; int left = toggles; for (int k = 0; k < cycles; ++k) { mv = command(k, mv, left); w.d.begin(mv); if (k == cycles - 1 || choose(S("look", k), 2)) { at(w); return; } if (w.ask) w.ask(w);
    if (concretePlan) { VecX v(2 * w.d.g.M); for (int j = 0; j < w.d.g.M; ++j) { v(j) = rat(12 * (j + 1) + 5 * (k % 3), 100); v(w.d.g.M + j) = rat(w.d.g.phases[w.d.g.land[j]] == L ? -11 : 9, 100); } w.d.plan(v); } else w.d.plan();
    w.d.end(); } }
// ---- C12 --------------------------------------------------------------------------
static void objective(World& w, int which) { const int N = w.d.g.c.N; bool kept = !!w.ask; w.d.plan(); Objs& o = w.objs(); const char* names[] = {"CoP centring", "velocity tracking", "jerk"};
  for (int k = 0; k < (kept ? 2 : 1); ++k) { const std::string t = k ? "again" : ""; VecX sx = inVec("comx" + t, 3, rat(-5), rat(5)), sy = inVec("comy" + t, 3, rat(-5), rat(5)), ref = inVec("ref" + t, 2 * N, rat(-2), rat(2)), x = decision(w, ("x" + t).c_str()); w.lip->setStateX(sx); w.lip->setStateY(sy); View v(w.d, w.ph, sx, sy);
    VecX g; MatX H; if (which == 0) { g = o.cop->getGradient(x); H = o.cop->getHessian(); } else if (which == 1) { o.vel->setVelRefInWorldFrame(ref); g = o.vel->getGradient(x); H = o.vel->getHessian(); } else { g = o.jerk->getGradient(x); H = o.jerk->getHessian(); }
    Lsq q(x, [&](const VecX& y) { return which == 0 ? v.centring(y) : which == 1 ? v.velocity(y, ref) : v.jerk(y); }); VecX W = which ? v.weights() : VecX(VecX::Constant(2 * N, rat(1)));
    nearVec(g, q.gradient(W), std::string(names[which]) + " gradient" + t); nearMat(H, q.hessian(W), std::string(names[which]) + " Hessian" + t); } }
// some decision vector of the current size
static VecX some(const World& w) { VecX x(2 * w.d.g.c.N + 2 * w.d.g.M); for (int i = 0; i < x.size(); ++i) x(i) = rat((7 * i) % 11 - 5, 40); return x; }
static void askObjective(World& w, int which) { VecX x = some(w), s(3); s << rat(1, 20), rat(-1, 10), rat(1, 5); w.lip->setStateX(s); w.lip->setStateY(-s); Objs& o = *w.o; if (which == 0) { o.cop->getGradient(x); o.cop->getHessian(); } else if (which == 1) { o.vel->setVelRefInWorldFrame(VecX::Constant(2 * w.d.g.c.N, rat(1, 4))); o.vel->getGradient(x); o.vel->getHessian(); } else { o.jerk->getGradient(x); o.jerk->getHessian(); } }
template <class C> static void askConstraint(World& w, C& c) { VecX x = some(w); c.getNbConstraints(); c.getFunction(x); c.getInfBounds(x); c.getSupBounds(x); c.getGradient(x.size()); }
// ---- C15, C16 -----------------------------------------------------------------------
template <class C> static std::vector<double> codeRows(C& c, const VecX& x0, const VecX& d, int from, int n) { std::vector<double> r; VecX f = c.getFunction(x0), in = c.getInfBounds(x0), su = c.getSupBounds(x0); MatX G = c.getGradient(x0.size()); int k = c.getNbConstraints();
  bool sz = f.size() == k && G.rows() == k && G.cols() == d.size() && in.size() == n && su.size() == n; check(F(sz), "sizes"); if (!sz) { assume(F(false)); return r; }
  VecX v = f + G * d; for (int i = 0; i < k; ++i) r.push_back(v(i)); const double big = rat(1000000); for (int i = 0; i < n; ++i) { if (!(su(i) > big)) r.push_back(d(from + i) - su(i)); if (!(in(i) < -big)) r.push_back(in(i) - d(from + i)); } return r; }
static void copConstraint(World& w, int family) { const int N = w.d.g.c.N, M = w.d.g.M; VecX plan = w.d.steps(), x0 = decision(w, "x"), d = decision(w, "d"); for (int i = 0; i < 2 * M; ++i) x0(2 * N + i) = plan(i);
  rowsEquivalent(codeRows(*w.objs().sole, x0, d, 0, 2 * N), copRows(w.d, plan, x0 + d, family), "centre of pressure"); }
static void footConstraint(World& w) { const int N = w.d.g.c.N, M = w.d.g.M; VecX x0 = decision(w, "x"), d = decision(w, "d"); rowsEquivalent(codeRows(*w.objs().foot, x0, d, 2 * N, 2 * M), stepRows(w.d, x0, x0 + d, leftReach(), rightReach()), "footsteps"); }
static void soles(World& w, int family) { w.sup->setLeftFootCopConvexPolygon(ConvexPolygon<double>(sole(family, 0))); w.sup->setRightFootCopConvexPolygon(ConvexPolygon<double>(sole(family, 1))); }
static void standAt(World& w, int k) { const int px[][4] = {{0, 0, 10, -10}, {0, 5, 8, -12}, {20, -15, 10, -12}}; for (int a = 0; a < 2; ++a) for (int f = 0; f < 2; ++f) { VecX v(3); v << rat(px[k][2 * a + f], 100), rat(0), rat(0); w.d.foot[f][a] = v; if (f) { if (a) w.sup->setRightFootStateY(v); else w.sup->setRightFootStateX(v); } else { if (a) w.sup->setLeftFootStateY(v); else w.sup->setLeftFootStateX(v); } } }
// the settings were different when the same object was asked before
static void asked(World& w, int what, int family) { const int N = w.d.g.c.N, M = w.d.g.M; VecX plan = w.d.steps(), x0 = decision(w, "x"), d = decision(w, "d"); for (int i = 0; i < 2 * M; ++i) x0(2 * N + i) = plan(i);
  Dirty<HumanoidCopConstraint<double>> c(*w.lip, *w.sup); Dirty<HumanoidFootConstraint<double>> f(*w.lip, *w.sup); auto ask = [&] { if (what < 2) { c->getFunction(x0); c->getGradient(x0.size()); c->getInfBounds(x0); c->getSupBounds(x0); } else { f->getFunction(x0); f->getGradient(x0.size()); f->getInfBounds(x0); f->getSupBounds(x0); } };
  if (what == 0) { soles(w, family == 1 ? 0 : 1); ask(); soles(w, family); } else if (what == 1) { VecX old[2], v(3); for (int k = 0; k < 2; ++k) { old[k] = w.d.foot[1][k]; v << old[k](0) + rat(k ? -3 : 7, 100), rat(0), rat(0); if (k) w.sup->setRightFootStateY(v); else w.sup->setRightFootStateX(v); } ask(); w.sup->setRightFootStateX(old[0]); w.sup->setRightFootStateY(old[1]); }
  else { w.sup->setLeftFootKinematicConvexPolygon(ConvexPolygon<double>(quad({{-30, -20}, {-35, -30}, {10, -40}, {40, -32}, {40, -20}}))); w.sup->setRightFootKinematicConvexPolygon(ConvexPolygon<double>(quad({{40, 16}, {45, 33}, {15, 44}, {-25, 31}, {-30, 16}}))); ask(); w.d.polygons(); }
  if (what < 2) rowsEquivalent(codeRows(*c, x0, d, 0, 2 * N), copRows(w.d, plan, x0 + d, family), "centre of pressure"); else rowsEquivalent(codeRows(*f, x0, d, 2 * N, 2 * M), stepRows(w.d, x0, x0 + d, leftReach(), rightReach()), "footsteps"); }
static int reg = [] {
  for (int what = 0; what < 3; ++what) for (int f = 0; f < 3; ++f) { if (what == 2 && f) continue; addCase(S(S(what < 2 ? "C15/asked" : "C16/asked", what) + "/soles", f), 0, [=] { World w(Cfg{3, 2, 2, 1}, phys(f)); w.d.polygons(); soles(w, f); standAt(w, f); history(w, 9, 2, true, [=](World& v) { asked(v, what, f); }); }); }
  struct K { Cfg c; int cycles, toggles, tier; };
  std::vector<K> ks = { {{2, 1, 2, 1}, 8, 3, 0}, {{3, 1, 2, 2}, 8, 3, 0}, {{4, 1, 3, 1}, 8, 2, 0}, {{4, 2, 2, 1}, 9, 2, 0}, {{3, 3, 2, 1}, 10, 2, 0}, {{5, 1, 2, 1}, 7, 2, 0}, {{6, 1, 2, 2}, 12, 3, 1}, {{8, 2, 3, 2}, 20, 2, 1}, {{4, 1, 2, 1}, 12, 12, 1}, {{8, 1, 2, 1}, 10, 3, 0}, {{8, 1, 3, 1}, 9, 2, 0}, {{10, 1, 2, 2}, 7, 2, 0}, {{16, 1, 4, 2}, 9, 1, 0} };
  for (auto& k : ks) { std::string n = S(S(S(S("/N", k.c.N) + "m", k.c.m) + "p", k.c.p) + "d", k.c.d);
    for (int q = 0; q < 3; ++q) for (int which = 0; which < 3; ++which) { if (which == 0 && q == 2) continue; addCase("C12" + n + S(S("/set", q) + "/objective", which), k.tier, [=] { World w(k.c, phys(q)); w.d.polygons(); w.d.place(false); if (q == 1) w.keep([=](World& v) { askObjective(v, which); }); history(w, k.cycles, k.toggles, false, [=](World& v) { objective(v, which); }); }); }
    for (int f = 0; f < 3; ++f) { addCase("C15" + n + S("/soles", f), k.tier, [=] { World w(k.c, phys(f)); w.d.polygons(); soles(w, f); standAt(w, f); if (f == 1 && k.c.N < 8) w.keep([](World& v) { askConstraint(v, *v.o->sole); }); history(w, k.cycles, k.toggles, true, [=](World& v) { copConstraint(v, f); }); }); }
    for (int kept = 0; kept < 2; ++kept) addCase("C16" + n + (kept ? "/kept" : ""), k.tier, [=] { World w(k.c, phys(0)); w.d.polygons(); w.d.place(false); if (kept) w.keep([](World& v) { askConstraint(v, *v.o->foot); }); history(w, k.cycles, k.toggles, false, footConstraint); }); }
  return 0; }();
