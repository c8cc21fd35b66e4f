// C03: predictions handed out by the models after arbitrary setter histories.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/model/lip_model.cpp"
#include "src/model/zebulon_base_model.cpp"
#include "src/model/no_dynamic_model.cpp"
#include "oracle.h"
using namespace MPCWalkgen;
typedef LinearDynamic<double> LD;
static bool gConcrete;           // concrete periods: inverses are checked too
static void linCheck(const LD& d, int N, int ns, const VecX& x0, const VecX& u, const VecX& e, const std::string& l) {
  bool sz = d.U.rows() == N && d.U.cols() == N && d.UT.rows() == N && d.UT.cols() == N && d.S.rows() == N && d.S.cols() == ns && d.K.size() == N && d.Uinv.rows() == N && d.Uinv.cols() == N && d.UTinv.rows() == N && d.UTinv.cols() == N;
  check(F(sz), l + " sizes"); if (!sz) return;
  nearVec(VecX(d.U * u + d.S * x0 + d.K), e, l); nearVec(VecX(d.UT.transpose() * u), VecX(d.U * u), l + " UT");
  if (gConcrete) { nearVec(VecX(d.Uinv * (d.U * u)), u, l + " Uinv", rat(1, 50)); nearMat(d.UTinv, MatX(d.Uinv.transpose()), l + " UTinv"); } }
struct P { int N; double T, f; int k; double h; Vec3 g; double m, M; bool even = true; };
static double period(const std::string& n) {
  if (!gConcrete) return input(n, rat(1, 10), rat(2));
  switch (choose(n + "#", 3)) { case 0: return rat(1, 10); case 1: return rat(1, 2); default: return rat(1); } }
static int gSteps = 3;
static VecX pick(const std::vector<oracle::Axis>& r, int what) { VecX e(r.size()); for (size_t i = 0; i < r.size(); ++i) e(i) = what == 0 ? r[i].p : what == 1 ? r[i].v : r[i].a; return e; }
static VecX copOf(const std::vector<oracle::Axis>& r, const double& h, const double& gx, const double& gz, const double& ratio) { VecX e(r.size()); for (size_t i = 0; i < r.size(); ++i) e(i) = ratio * (r[i].p - h / gz * (r[i].a + gx)); return e; }
static void lipCompare(const LIPModel<double>& lip, const P& p) {
  VecX x0 = inVec("x", 3, rat(-5), rat(5)), u = inVec("u", p.N, rat(-5), rat(5));
  for (int i = 0; i < p.k + p.even; ++i) {   // i==k: the accessors without an index
    bool last = i == p.k; double Sd = last ? p.T : p.f * double(i + 1);
    auto r = oracle::rollout(x0, u, Sd, p.T); std::string t = S("phase", i) + " ";
    linCheck(last ? lip.getComPosLinearDynamic() : lip.getComPosLinearDynamic(i), p.N, 3, x0, u, pick(r, 0), t + "pos");
    linCheck(last ? lip.getComVelLinearDynamic() : lip.getComVelLinearDynamic(i), p.N, 3, x0, u, pick(r, 1), t + "vel");
    linCheck(last ? lip.getComAccLinearDynamic() : lip.getComAccLinearDynamic(i), p.N, 3, x0, u, pick(r, 2), t + "acc");
    linCheck(last ? lip.getComJerkLinearDynamic() : lip.getComJerkLinearDynamic(i), p.N, 3, x0, u, u, t + "jerk");
    bool inv = gConcrete; gConcrete = false;  // CoP inverses are C02's business (conditioning)
    linCheck(last ? lip.getCopXLinearDynamic() : lip.getCopXLinearDynamic(i), p.N, 3, x0, u, copOf(r, p.h, p.g(0), p.g(2), p.m / p.M), t + "copX");
    linCheck(last ? lip.getCopYLinearDynamic() : lip.getCopYLinearDynamic(i), p.N, 3, x0, u, copOf(r, p.h, p.g(1), p.g(2), p.m / p.M), t + "copY"); 
    if (inv) { const LD& cx = last ? lip.getCopXLinearDynamic() : lip.getCopXLinearDynamic(i); nearVec(VecX(cx.Uinv * (cx.U * u)), u, t + "copX Uinv", rat(1, 10)); 
               const LD& cy = last ? lip.getCopYLinearDynamic() : lip.getCopYLinearDynamic(i); nearVec(VecX(cy.Uinv * (cy.U * u)), u, t + "copY Uinv", rat(1, 10)); }
    gConcrete = inv; } 
  check(F(lip.getNbSamples() == p.N), "nbSamples"); check(f_near(lip.getSamplingPeriod(), p.T, TOL), "sampling period"); check(f_near(lip.getFeedbackPeriod(), p.f, TOL), "feedback period");
  check(f_near(lip.getComHeight(), p.h, TOL), "height"); check(f_near(lip.getStateZ()(0), p.h, TOL), "stateZ"); nearVec(VecX(lip.getGravity()), VecX(p.g), "gravity"); check(f_near(lip.getMass(), p.m, TOL), "mass"); }
static double val(const std::string& n, double lo, double hi, double c0, double c1) { if (!gConcrete) return input(n, lo, hi); return choose(n + "#", 2) ? c1 : c0; }
static void lipOp(LIPModel<double>& lip, P& p, int step, int op) {
  std::string s = S("_", step);
  switch (op) {
    case 0: { int ns[] = {1, 2, 3, 7}; p.N = ns[choose("N" + s, gSteps <= 2 ? 4 : 3)]; } lip.setNbSamples(p.N); break;
    case 1: p.T = period("T" + s); p.f = p.T; p.k = 1; p.even = true; lip.setSamplingPeriod(p.T); break;
    case 2: { int ks[] = {2, 1, 3, 6}; p.k = ks[choose("k" + s, gSteps <= 2 ? 4 : 3)]; p.f = p.T / double(p.k); p.even = !choose("uneven" + s, 2); if (!p.even) p.f = p.f * rat(9, 10); lip.setFeedbackPeriod(p.f); break; }
    case 3: p.h = val("h" + s, rat(1, 10), rat(2), rat(4, 5), rat(1, 2)); lip.setComHeight(p.h); break;
    case 4: { p.g(0) = val("gx" + s, rat(-5), rat(5), rat(1), rat(0)); p.g(1) = val("gy" + s, rat(-5), rat(5), rat(-2), rat(3)); p.g(2) = val("gz" + s, rat(5), rat(15), rat(10), rat(9)); lip.setGravity(p.g); break; }
    case 5: { p.M = val("M" + s, rat(1), rat(20), rat(8), rat(5)); assume(f_ge(p.M, p.m)); lip.setTotalMass(p.M); break; }
    case 6: { p.m = val("m" + s, rat(1, 2), rat(20), rat(1), rat(4)); assume(f_ge(p.M, p.m)); lip.setMass(p.m); break; } } }
static void lipCase(bool conc, int steps, bool autoCompute, int first) {
  gConcrete = conc; gSteps = steps; symx::setDontCareInverse(!conc); P p;
  int ctor = autoCompute ? choose("ctor", 2) : 0;
  p.h = rat(1); p.g << rat(0), rat(0), rat(981, 100); p.m = rat(1); p.M = rat(1);
  p.N = ctor ? 1 : 2; p.T = ctor ? rat(1) : (conc ? rat(1, 5) : input("T", rat(1, 10), rat(2))); p.f = p.T; p.k = 1;
  alignas(LIPModel<double>) static unsigned char buf[sizeof(LIPModel<double>)]; memset(buf, 0xFF, sizeof buf); asm volatile("" : : "r"(buf) : "memory");
  LIPModel<double>& lip = *(ctor ? new (buf) LIPModel<double>() : new (buf) LIPModel<double>(p.N, p.T, autoCompute));
  for (const VecX* v : {&lip.getStateX(), &lip.getStateY(), &lip.getStateYaw()}) { check(F(v->size() == 3), "new state size"); if (v->size() == 3) nearVec(*v, VecX(VecX::Zero(3)), "new state"); }
  for (int s = 0; s < steps; ++s) lipOp(lip, p, s, s == 0 && first >= 0 ? first : choose(S("op", s), 7));
  if (!autoCompute) lip.computeDynamics();
  lipCompare(lip, p);
  VecX sx = inVec("sx", 3, rat(-5), rat(5)), sy = inVec("sy", 3, rat(-5), rat(5)), sw = inVec("sw", 3, rat(-5), rat(5)); double j = input("j", rat(-9), rat(9)), t = input("t", rat(1, 100), rat(2));
  lip.setStateX(sx); lip.setStateY(sy); lip.setStateYaw(sw);
  int ax = choose("axis", 3); if (ax == 0) lip.updateStateX(j, t); else if (ax == 1) lip.updateStateY(j, t); else lip.updateStateYaw(j, t);
  VecX* v[3] = {&sx, &sy, &sw}; oracle::Axis a{(*v[ax])(0), (*v[ax])(1), (*v[ax])(2)}; oracle::stepJerk(a, j, t); *v[ax] << a.p, a.v, a.a;
  nearVec(lip.getStateX(), sx, "stateX"); nearVec(lip.getStateY(), sy, "stateY"); nearVec(lip.getStateYaw(), sw, "stateYaw");
  lip.~LIPModel<double>(); }
static void baseOp(BaseModel<double>& b, P& p, int step, int op) {
  std::string s = S("_", step);
  switch (op) {
    case 0: { int ns[] = {1, 2, 3, 7}; p.N = ns[choose("N" + s, gSteps <= 2 ? 4 : 3)]; } b.setNbSamples(p.N); break;
    case 1: p.T = period("T" + s); b.setSamplingPeriod(p.T); break;
    case 2: p.h = val("h" + s, rat(1, 10), rat(2), rat(4, 5), rat(1, 2)); b.setComHeight(p.h); break;
    case 3: { p.g(0) = val("gx" + s, rat(-5), rat(5), rat(1), rat(0)); p.g(1) = val("gy" + s, rat(-5), rat(5), rat(-2), rat(3)); p.g(2) = val("gz" + s, rat(5), rat(15), rat(10), rat(9)); b.setGravity(p.g); break; }
    case 4: { p.M = val("M" + s, rat(1), rat(20), rat(8), rat(5)); assume(f_ge(p.M, p.m)); b.setTotalMass(p.M); break; }
    case 5: { p.m = val("m" + s, rat(1, 2), rat(20), rat(1), rat(4)); assume(f_ge(p.M, p.m)); b.setMass(p.m); break; } } }
// limits: the same defaults from every constructor, kept through every other setting, and set one at a time
template <class M> static void limits(M& b) { double l[3] = {rat(1), rat(1), rat(1)}; auto get = [&](const std::string& t) { check(f_near(b.getVelocityLimit(), l[0], TOL), "velocity limit" + t); check(f_near(b.getAccelerationLimit(), l[1], TOL), "acceleration limit" + t); check(f_near(b.getJerkLimit(), l[2], TOL), "jerk limit" + t); }; get(" by default");
  int k = choose("limit", 3); l[k] = input("new limit", rat(0), rat(9)); if (k == 0) b.setVelocityLimit(l[0]); else if (k == 1) b.setAccelerationLimit(l[1]); else b.setJerkLimit(l[2]); get(" once set"); }
static void baseCase(bool conc, int steps, bool autoCompute, int first) {
  gConcrete = conc; gSteps = steps; symx::setDontCareInverse(!conc); P p; int ctor = autoCompute ? choose("ctor", 2) : 0;
  p.h = rat(0); p.g << rat(0), rat(0), rat(981, 100); p.m = rat(0); p.M = rat(1); p.N = ctor ? 1 : 2; p.T = ctor ? rat(1) : (conc ? rat(1, 5) : input("T", rat(1, 10), rat(2)));
  alignas(BaseModel<double>) static unsigned char buf[sizeof(BaseModel<double>)]; memset(buf, 0xFF, sizeof buf); asm volatile("" : : "r"(buf) : "memory");
  BaseModel<double>& b = *(ctor ? new (buf) BaseModel<double>() : new (buf) BaseModel<double>(p.N, p.T, autoCompute));
  for (const VecX* v : {&b.getStateX(), &b.getStateY(), &b.getStateRoll(), &b.getStatePitch(), &b.getStateYaw()}) { check(F(v->size() == 3), "new state size"); if (v->size() == 3) nearVec(*v, VecX(VecX::Zero(3)), "new state"); }
  for (int s = 0; s < steps; ++s) baseOp(b, p, s, s == 0 && first >= 0 ? first : choose(S("op", s), 6));
  if (!autoCompute) b.computeDynamics();
  VecX x0 = inVec("x", 3, rat(-5), rat(5)), u = inVec("u", p.N, rat(-5), rat(5)), x2 = x0.head(2); auto r = oracle::rollout(x0, u, p.T, p.T); auto r2 = oracle::rollout2(x2, u, p.T, p.T);
  linCheck(b.getBasePosLinearDynamic(), p.N, 3, x0, u, pick(r, 0), "pos"); linCheck(b.getBaseVelLinearDynamic(), p.N, 3, x0, u, pick(r, 1), "vel"); linCheck(b.getBaseAccLinearDynamic(), p.N, 3, x0, u, pick(r, 2), "acc"); linCheck(b.getBaseJerkLinearDynamic(), p.N, 3, x0, u, u, "jerk");
  linCheck(b.getBaseTiltAngleLinearDynamic(), p.N, 2, x2, u, pick(r2, 0), "tilt angle"); linCheck(b.getBaseTiltAngularVelLinearDynamic(), p.N, 2, x2, u, pick(r2, 1), "tilt rate");
  bool inv = gConcrete; gConcrete = false;
  linCheck(b.getCopXLinearDynamic(), p.N, 3, x0, u, copOf(r, p.h, p.g(0), p.g(2), p.m / p.M), "copX"); linCheck(b.getCopYLinearDynamic(), p.N, 3, x0, u, copOf(r, p.h, p.g(1), p.g(2), p.m / p.M), "copY"); gConcrete = inv;
  check(F(b.getNbSamples() == p.N), "nbSamples"); check(f_near(b.getSamplingPeriod(), p.T, TOL), "sampling period"); check(f_near(b.getComHeight(), p.h, TOL), "height"); check(f_near(b.getMass(), p.m, TOL), "mass");
  check(f_near(b.getTiltContactPointX(), rat(0), TOL), "default contact point x"); check(f_near(b.getTiltContactPointY(), rat(0), TOL), "default contact point y");
  VecX sx = inVec("sx", 3, rat(-5), rat(5)), sy = inVec("sy", 3, rat(-5), rat(5)), sr = inVec("sr", 3, rat(-1), rat(1)), sp = inVec("sp", 3, rat(-1), rat(1)), sw = inVec("sw", 3, rat(-3), rat(3)); double j = input("j", rat(-9), rat(9)), t = input("t", rat(1, 100), rat(2));
  b.setStateX(sx); b.setStateY(sy); b.setStateRoll(sr); b.setStatePitch(sp); b.setStateYaw(sw); int ax = choose("axis", 2); if (ax) b.updateStateY(j, t); else b.updateStateX(j, t);
  VecX& v = ax ? sy : sx; oracle::Axis a{v(0), v(1), v(2)}; oracle::stepJerk(a, j, t); v << a.p, a.v, a.a;
  nearVec(b.getStateX(), sx, "stateX"); nearVec(b.getStateY(), sy, "stateY"); nearVec(b.getStateRoll(), sr, "roll"); nearVec(b.getStatePitch(), sp, "pitch"); nearVec(b.getStateYaw(), sw, "yaw");
  if (steps <= 2) limits(b); b.~BaseModel<double>(); }
static void noDynCase(bool conc, int steps, bool autoCompute) {
  gConcrete = conc; gSteps = steps; symx::setDontCareInverse(!conc); P p; int ctor = autoCompute ? choose("ctor", 2) : 0; p.N = ctor ? 1 : 2; p.T = ctor ? rat(1) : (conc ? rat(1, 5) : input("T", rat(1, 10), rat(2)));
  alignas(NoDynamicModel<double>) static unsigned char buf[sizeof(NoDynamicModel<double>)]; memset(buf, 0xFF, sizeof buf); asm volatile("" : : "r"(buf) : "memory");
  NoDynamicModel<double>& b = *(ctor ? new (buf) NoDynamicModel<double>() : new (buf) NoDynamicModel<double>(p.N, p.T, autoCompute));
  for (int s = 0; s < steps; ++s) { std::string t = S("_", s); if (choose("op" + t, 2)) { p.N = choose("N" + t, 4) + 1; b.setNbSamples(p.N); } else { p.T = period("T" + t); b.setSamplingPeriod(p.T); } }
  if (!autoCompute) b.computeDynamics();
  VecX x0 = inVec("x", 3, rat(-5), rat(5)), u = inVec("u", p.N, rat(-5), rat(5)); auto r = oracle::rollout(x0, u, p.T, p.T);
  linCheck(b.getPosLinearDynamic(), p.N, 3, x0, u, pick(r, 0), "pos"); linCheck(b.getVelLinearDynamic(), p.N, 3, x0, u, pick(r, 1), "vel"); linCheck(b.getAccLinearDynamic(), p.N, 3, x0, u, pick(r, 2), "acc"); linCheck(b.getJerkLinearDynamic(), p.N, 3, x0, u, u, "jerk");
  check(F(b.getNbSamples() == p.N), "nbSamples"); check(f_near(b.getSamplingPeriod(), p.T, TOL), "sampling period");
  VecX s = inVec("s", 3, rat(-5), rat(5)); double j = input("j", rat(-9), rat(9)), t = input("t", rat(1, 100), rat(2)); b.setState(s); b.updateState(j, t); oracle::Axis a{s(0), s(1), s(2)}; oracle::stepJerk(a, j, t); s << a.p, a.v, a.a; nearVec(b.getState(), s, "state"); limits(b); b.~NoDynamicModel<double>(); }
// C24: any sequence of valid settings is accepted (nothing compared)
static void models(bool base, int steps, int first) { gConcrete = false; gSteps = 3; symx::setDontCareInverse(true); P p; p.h = rat(base ? 0 : 1); p.g << rat(0), rat(0), rat(981, 100); p.m = rat(base ? 0 : 1); p.M = rat(1); p.N = 1; p.T = p.f = rat(1); p.k = 1;
  if (base) { Dirty<BaseModel<double>> b; for (int s = 0; s < steps; ++s) { int op = s == 0 ? first : choose(S("op", s), 7); if (op < 6) baseOp(*b, p, s, op); else { double v = input(S("v", s), rat(0), rat(9)); b->setVelocityLimit(v); b->setAccelerationLimit(v); b->setJerkLimit(v); b->setTiltContactPointX(-v); b->setTiltContactPointY(v); } } b->computeDynamics(); check(F(b->getNbSamples() == p.N), "settings accepted"); }
  else { Dirty<LIPModel<double>> l; for (int s = 0; s < steps; ++s) lipOp(*l, p, s, s == 0 ? first : choose(S("op", s), 7)); l->computeDynamics(); check(F(l->getNbSamples() == p.N), "settings accepted"); } }
static int reg = [] {
  for (int base = 0; base < 2; ++base) for (int n = 1; n <= 5; ++n) for (int f = 0; f < 7; ++f) addCase(S(S(std::string("C24/models/") + (base ? "base" : "lip") + "/len", n) + "/first", f), n <= 4 ? 0 : 1, [=] { models(base, n, f); });
  for (int c = 0; c < 2; ++c) for (int n = 0; n <= 3; ++n) {
    std::string t = c ? "/concrete" : "/symbolic"; 
    for (int f = 0; f < 7; ++f) { if (n == 0 && f) continue; int first = n ? f : -1;
      int tier = n <= 2 ? 0 : (c ? 9 : 0);
      addCase(S(S("C03/lip" + t + "/len", n) + "/first", first), tier, [=] { lipCase(c, n, true, first); });
      if (f < 6) addCase(S(S("C03/base" + t + "/len", n) + "/first", first), tier, [=] { baseCase(c, n, true, first); }); }
    if (n <= 2) { addCase(S("C03/lip-manual" + t + "/len", n), 0, [=] { lipCase(c, n, false, -1); }); addCase(S("C03/base-manual" + t + "/len", n), 0, [=] { baseCase(c, n, false, -1); }); }
    addCase(S("C03/trajectory-model" + t + "/len", n), 0, [=] { noDynCase(c, n, true); }); }
  return 0; }();
