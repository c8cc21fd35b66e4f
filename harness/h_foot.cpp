// C04: three-piece cubic interpolation and the foot model's moves along it.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/interpolator.cpp"
#include "src/model/humanoid_foot_model.cpp"
#include "oracle.h"
#include "spline.h"
using namespace MPCWalkgen;
static double pv(const VecX& f, int k, const double& x) { return f(4 * k) * x * x * x + f(4 * k + 1) * x * x + f(4 * k + 2) * x + f(4 * k + 3); }
static double dv(const VecX& f, int k, const double& x) { return 3 * f(4 * k) * x * x + 2 * f(4 * k + 1) * x + f(4 * k + 2); }
static double av(const VecX& f, int k, const double& x) { return 6 * f(4 * k) * x + 2 * f(4 * k + 1); }
static Vec3 inV3(const std::string& n) { Vec3 v; for (int i = 0; i < 3; ++i) v(i) = input(S(n, i), rat(-5), rat(5)); return v; }
static void pieces() {
  Vec3 i = inV3("i"), f = inV3("f"); double T = input("T", rat(1, 100), rat(5)); Dirty<Interpolator<double>> I; VecX F12(12); I->computePolynomialNormalisedFactors(F12, i, f, T);
  double t1 = rat(1, 3), t2 = rat(2, 3), z = rat(0), o = rat(1);
  check(f_near(pv(F12, 0, z), i(0), TOL), "start position"); check(f_near(dv(F12, 0, z), T * i(1), TOL), "start velocity"); check(f_near(av(F12, 0, z), T * T * i(2), TOL), "start acceleration");
  check(f_near(pv(F12, 2, o), f(0), TOL), "end position"); check(f_near(dv(F12, 2, o), T * f(1), TOL), "end velocity"); check(f_near(av(F12, 2, o), T * T * f(2), TOL), "end acceleration");
  for (int k = 0; k < 2; ++k) { double x = k ? t2 : t1; check(f_near(pv(F12, k, x), pv(F12, k + 1, x), TOL), S("junction position ", k)); check(f_near(dv(F12, k, x), dv(F12, k + 1, x), TOL), S("junction velocity ", k)); check(f_near(av(F12, k, x), av(F12, k + 1, x), TOL), S("junction acceleration ", k)); }
  double t = input("t", rat(0), rat(5)); assume(f_le(t, T)); Vec4 sub; I->selectFactors(sub, F12, t, T); Spline s = solve(i, f, T); int k = caseSplit(f_le(3 * t, T), "first") ? 0 : caseSplit(f_le(3 * t, 2 * T), "second") ? 1 : 2; VecX s4 = sub; double x = t / T;
  check(f_near(pv(s4, 0, x), s.p(x, k), TOL), "selected position"); check(f_near(dv(s4, 0, x), s.v(x, k), TOL), "selected velocity"); check(f_near(av(s4, 0, x), s.a(x, k), TOL), "selected acceleration"); }
static void polynoms() { Vec4 c; for (int i = 0; i < 4; ++i) c(i) = input(S("c", i), rat(-9), rat(9)); double x = input("x", rat(-3), rat(3));
  check(f_near(Tools::polynomValue<double>(c, x), c(0) * x * x * x + c(1) * x * x + c(2) * x + c(3), TOL), "value"); check(f_near(Tools::dPolynomValue<double>(c, x), 3 * c(0) * x * x + 2 * c(1) * x + c(2), TOL), "first derivative"); check(f_near(Tools::ddPolynomValue<double>(c, x), 6 * c(0) * x + 2 * c(1), TOL), "second derivative"); }
// moves: a sequence of targets on one foot, any axis at each step
static void moves(int steps, int ctor, bool concreteT) {
  alignas(HumanoidFootModel<double>) static unsigned char buf[sizeof(HumanoidFootModel<double>)]; memset(buf, 0xFF, sizeof buf); asm volatile("" : : "r"(buf) : "memory");
  HumanoidFootModel<double>& m = *(ctor ? new (buf) HumanoidFootModel<double>() : new (buf) HumanoidFootModel<double>(4, rat(1, 10)));
  Vec3 st[4]; for (int a = 0; a < 4; ++a) st[a] << rat(0), rat(0), rat(0);
  auto cmp = [&](const std::string& l) { const VecX* g[4] = {&m.getStateX(), &m.getStateY(), &m.getStateZ(), &m.getStateYaw()}; for (int a = 0; a < 4; ++a) nearVec(*g[a], VecX(st[a]), l + S(" axis", a)); };
  cmp("initial");
  if (choose("set", 2)) for (int a = 0; a < 4; ++a) { st[a] = inV3(S("s", a)); VecX v = st[a]; if (a == 0) m.setStateX(v); else if (a == 1) m.setStateY(v); else if (a == 2) m.setStateZ(v); else m.setStateYaw(v); }
  for (int s = 0; s < steps; ++s) {
    int a = choose(S("axis", s), 3); Vec3 f = inV3(S("f", s)); double T = concreteT ? (choose(S("T#", s), 2) ? rat(3, 10) : rat(1)) : input(S("T", s), rat(1, 100), rat(3)); double t = input(S("t", s), rat(0), rat(3)); assume(f_le(t, T)); if (choose(S("full", s), 2)) t = T;
    Spline sp = solve(st[a], f, T); if (a == 0) m.updateStateX(f, T, t); else if (a == 1) m.updateStateY(f, T, t); else m.updateStateZ(f, T, t);
    int k = caseSplit(f_le(3 * t, T), "first") ? 0 : caseSplit(f_le(3 * t, 2 * T), "second") ? 1 : 2; double x = t / T; Vec3 n; n << sp.p(x, k), sp.v(x, k) / T, sp.a(x, k) / (T * T); st[a] = n; cmp(S("after move", s)); 
    const VecX& g = a == 0 ? m.getStateX() : a == 1 ? m.getStateY() : m.getStateZ(); if (t == T) nearVec(g, VecX(f), "target reached at the end"); }
  m.~HumanoidFootModel<double>(); }
// two trajectories, the second like the first in all but one respect (of any axis, the state being set in between)
static void alike(int differ) {
  Dirty<HumanoidFootModel<double>> m(4, rat(1, 10)); VecX start = inV3("s"); Vec3 f = inV3("f"); double T = input("T", rat(1, 100), rat(3)), t = T * input("t", rat(0), rat(1));
  for (int s = 0; s < 2; ++s) { if (s) { if (differ < 3) start(differ) = input("s'", rat(-5), rat(5)); else if (differ < 6) f(differ - 3) = input("f'", rat(-5), rat(5)); else if (differ == 6) T = input("T'", rat(1, 100), rat(3)); else t = T * input("t'", rat(0), rat(1)); assume(f_le(t, T)); }
    int a = choose(S("axis", s), 3); Vec3 i = start; if (a == 0) { m->setStateX(start); m->updateStateX(f, T, t); } else if (a == 1) { m->setStateY(start); m->updateStateY(f, T, t); } else { m->setStateZ(start); m->updateStateZ(f, T, t); }
    Spline sp = solve(i, f, T); int k = caseSplit(f_le(3 * t, T), "first") ? 0 : caseSplit(f_le(3 * t, 2 * T), "second") ? 1 : 2; double x = t / T; const VecX& g = a == 0 ? m->getStateX() : a == 1 ? m->getStateY() : m->getStateZ();
    check(f_near(g(0), sp.p(x, k), TOL), "position"); check(f_near(g(1) * T, sp.v(x, k), TOL), "velocity"); check(f_near(g(2) * T * T, sp.a(x, k), TOL), "acceleration"); } }
static int reg = [] { for (int d = 0; d < 8; ++d) addCase(S("C04/alike/", d), 0, [=] { alike(d); }); addCase("C04/pieces", 0, pieces); addCase("C04/polynomials", 0, polynoms);
  for (int c = 0; c < 2; ++c) { addCase(S("C04/moves1/ctor", c), 0, [=] { moves(1, c, false); }); addCase(S("C04/moves2/ctor", c), 0, [=] { moves(2, c, true); }); addCase(S("C04/moves3/ctor", c), 1, [=] { moves(3, c, true); }); }
  return 0; }();
