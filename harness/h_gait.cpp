// C17, C18, C19: the humanoid's feet supervisor against a reference gait.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "src/convexpolygon.cpp"
#include "src/interpolator.cpp"
#include "src/model/humanoid_foot_model.cpp"
#include "src/humanoid_feet_supervisor.cpp"
#include "oracle.h"
#include "gait.h"
using namespace MPCWalkgen; using namespace gait;
static double period(int tk) { return tk == 0 ? input("T", rat(1, 100), rat(1)) : tk == 1 ? rat(1, 10) : rat(1); }
// builds and configures a supervisor: constructor and setter order vary
static void setup(Dirty<Sup>*& s, const Cfg& c, const double& T, int ctor) {
  if (ctor == 0) s = new Dirty<Sup>(c.N, T); else { s = new Dirty<Sup>(); (*s)->setNbSamples(c.N); (*s)->setSamplingPeriod(T); }
  if (ctor == 0 ? c.p != 2 : true) (*s)->setStepPeriod(T * double(c.p));
  if (ctor == 0 ? c.d != 2 : true) (*s)->setInitialDoubleSupportLength(T * double(c.d)); }
typedef std::function<void(Drive&)> Hook;
static void history(const Cfg& c, int tk, int ctor, int cycles, int toggles, bool full, const Hook& afterTimeline, const Hook& afterFeet, int from = 0) {
  double T = period(tk); Dirty<Sup>* s = nullptr; setup(s, c, T, ctor); { Drive d(c, T, **s); d.polygons(); d.place(full);
    if (full) { d.hmax[0] = input("lh", rat(0), rat(1)); d.hmax[1] = input("rh", rat(0), rat(1)); (*s)->setLeftFootMaxHeight(d.hmax[0]); (*s)->setRightFootMaxHeight(d.hmax[1]); }
    bool mv = false; int left = toggles; for (int k = 0; k < cycles; ++k) { mv = command(k, mv, left, from); int n = d.X.size() / 2 - c.N; d.oldX = d.X.segment(2 * c.N, n); d.oldY = d.X.segment(2 * c.N + n, n); d.begin(mv); afterTimeline(d); d.plan(); d.end(); afterFeet(d); } } delete s; }
// periods and the control rate changed in the middle of a walk
static void retimed(const Cfg& c, int tk, int cycles, int toggles, int changes, int what, bool full, const Hook& afterTimeline, const Hook& afterFeet) {
  double T = period(tk); Dirty<Sup>* s = nullptr; setup(s, c, T, 0); { Drive d(c, T, **s); d.polygons(); d.place(full); if (full) { d.hmax[0] = input("lh", rat(0), rat(1)); d.hmax[1] = input("rh", rat(0), rat(1)); (*s)->setLeftFootMaxHeight(d.hmax[0]); (*s)->setRightFootMaxHeight(d.hmax[1]); }
    auto times = [&](const char* n, int from, int count, bool all) { std::vector<int> at; for (int k = from; (int)at.size() < count; ) { int j = choose(S(n, at.size()), cycles - k + (all ? 0 : 1)); if (k + j >= cycles) break; at.push_back(k + j); k += j + 1; if (k >= cycles) break; } return at; };
    std::vector<int> cmd = times("command", 0, toggles, false), chg = times("change", 1, changes, true); int first = chg.empty() ? 0 : chg[0]; bool mv = false;
    for (int k = 0; k < cycles; ++k) { if (std::count(cmd.begin(), cmd.end(), k)) mv = !mv; if (std::count(chg.begin(), chg.end(), k)) { int w = k == first ? what : choose(S("what", k), Drive::retimings()); if (!d.retime(w)) { assume(F(false)); break; } }
      int n = d.X.size() / 2 - c.N; d.oldX = d.X.segment(2 * c.N, n); d.oldY = d.X.segment(2 * c.N + n, n); d.begin(mv); if (k >= first) afterTimeline(d); d.plan(); d.end(); if (k >= first) afterFeet(d); } } delete s; }
static void nothing(Drive&) {}
// ---- C17 ------------------------------------------------------------------------
static void within(const double& v, const VecV2& p, int a, const std::string& l) { double lo = p[0](a), hi = p[0](a); for (auto& q : p) { if (q(a) < lo) lo = q(a); if (q(a) > hi) hi = q(a); } check(f_ge(v, lo - TOL) && f_le(v, hi + TOL), l); }
static void gaitCheck(Drive& d) { const Gait& g = d.g; const int N = g.c.N, M = g.M; const std::string t = S(" (cycle ", d.cycle) + ")";
  check(F(d.sup.isInDS() == (g.ph == DS)), "double support exactly in the double-support phases" + t);
  check(f_near(d.sup.getSupportFootStateX()(0), d.supp(0), TOL) && f_near(d.sup.getSupportFootStateY()(0), d.supp(1), TOL), "support foot of the phase" + t);
  check(F(d.sup.getNbPreviewedSteps() == M), "number of previewed steps" + t); check(F(d.X.size() == 2 * N + 2 * M), "size of the decision vector" + t); if (d.X.size() != 2 * N + 2 * M) { assume(F(false)); return; }
  check(F(d.sup.getNbOfCallsBeforeNextSample() == g.s), "calls before the next sample" + t);
  int keep = d.oldX.size(), off = 0; if (g.droppedStep) { off = 1; --keep; } if (keep > M) keep = M;
  for (int i = 0; i < M; ++i) for (int a = 0; a < 2; ++a) { double v = d.X(2 * N + a * M + i); if (i < keep) check(f_near(v, a ? d.oldY(i + off) : d.oldX(i + off), TOL), S("planned footstep kept ", i) + t);
    else { double prev = i == 0 ? d.supp(a) : d.X(2 * N + a * M + i - 1); within(v - prev, g.phases[g.land[i]] == L ? leftReach() : rightReach(), a, S("new footstep starts within reach ", i) + t); } } }
static void feetUnmoved(Drive& d) { }
// ---- C18 ------------------------------------------------------------------------
static void selectionCheck(Drive& d) { const Gait& g = d.g; const int N = g.c.N, M = g.M; const std::string t = S(" (cycle ", d.cycle) + ")"; const SelectionMatrices<double>& m = d.sup.getSelectionMatrices(); const LinearDynamic<double>& y = d.sup.getFeetPosLinearDynamic(); const MatX& W = d.sup.getSampleWeightMatrix();
  bool sz = m.V.rows() == N && m.V.cols() == M && m.VT.rows() == M && m.VT.cols() == N && m.V0.rows() == N && m.V0.cols() == 1 && y.U.rows() == N && y.U.cols() == M && y.UT.rows() == M && y.UT.cols() == N && y.S.rows() == N && y.S.cols() == 1 && W.rows() == N && W.cols() == N;
  check(F(sz), "sizes" + t); if (!sz) { assume(F(false)); return; }
  for (int i = 0; i < N; ++i) { check(F(m.V0(i, 0) == (g.sampStep[i] < 0)), S("current support of sample ", i) + t); check(f_near(y.S(i, 0), double(g.sampStep[i] < 0 ? 1 : 0), TOL), S("dynamics, current support of sample ", i) + t);
    for (int j = 0; j < M; ++j) { int w = g.sampStep[i] == j; check(F(m.V(i, j) == w && m.VT(j, i) == w), S("step under sample ", i, j) + t); check(f_near(y.U(i, j), double(w), TOL) && f_near(y.UT(j, i), double(w), TOL), S("dynamics, step under sample ", i, j) + t); } }
  const MatX &Rt = d.sup.getRotationMatrix(), &RtT = d.sup.getRotationMatrixT(); nearMat(Rt, MatX::Identity(2 * N, 2 * N), "rotation" + t); nearMat(RtT, MatX::Identity(2 * N, 2 * N), "rotation transposed" + t);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i != j) check(f_near(W(i, j), rat(0), TOL), "no weight across samples" + t);
  if (N >= 2) { double first = rat(g.s, g.c.m); check(f_near(W(0, 0), first, TOL), "weight of the first sample" + t); check(f_near(W(0, 0) + W(N - 1, N - 1), rat(105, 100), TOL), "weight of the last sample" + t); for (int i = 1; i + 1 < N; ++i) check(f_near(W(i, i), rat(1), TOL), S("weight of sample ", i) + t); } }
// ---- C19 ------------------------------------------------------------------------
static void feetCheck(Drive& d) { const Gait& g = d.g; const std::string t = S(" (after cycle ", d.cycle) + ")"; Sup& s = d.sup; const VecX* st[2][3] = {{&s.getLeftFootStateX(), &s.getLeftFootStateY(), &s.getLeftFootStateZ()}, {&s.getRightFootStateX(), &s.getRightFootStateY(), &s.getRightFootStateZ()}};
  int fly = g.ph == L ? 1 : g.ph == R ? 0 : -1; for (int k = 0; k < 2; ++k) for (int a = 0; a < 3; ++a) nearVec(*st[k][a], VecX(d.foot[k][a]), std::string(k == fly ? "flying" : "standing") + " foot, axis " + "xyz"[a] + t);
  if (fly >= 0 && g.r == 0) { VecX land = d.steps(); for (int a = 0; a < 3; ++a) { VecX w(3); w << (a < 2 ? land(a * g.M) : rat(0)), rat(0), rat(0); nearVec(*st[fly][a], w, std::string("landed on the plan, axis ") + "xyz"[a] + t); } }
  if (fly >= 0 && 2 * g.r == g.flight() && g.flight() > 0) { VecX w(3); w << d.hmax[fly], rat(0), rat(0); nearVec(*st[fly][2], w, "at its maximum height in the middle of the flight" + t); } }
static int reg = [] {
  struct K { Cfg c; int cycles, toggles, tier; };
  std::vector<K> ks = { {{4, 1, 2, 2}, 12, 12, 0}, {{3, 1, 3, 1}, 12, 12, 0}, {{6, 1, 2, 1}, 12, 12, 0}, {{4, 2, 2, 1}, 14, 3, 0}, {{3, 2, 3, 1}, 14, 3, 0}, {{2, 3, 2, 1}, 15, 3, 0}, {{8, 1, 3, 2}, 14, 4, 0}, {{5, 1, 4, 3}, 14, 4, 0}, {{2, 1, 2, 2}, 12, 12, 0},
    {{16, 1, 8, 8}, 40, 2, 1}, {{16, 2, 4, 2}, 30, 3, 1}, {{10, 5, 4, 1}, 50, 2, 1}, {{6, 3, 3, 2}, 30, 4, 1}, {{4, 1, 2, 1}, 16, 16, 1}, {{7, 1, 3, 1}, 16, 16, 1}, {{5, 4, 5, 1}, 40, 3, 1} };
  for (size_t i = 0; i < ks.size(); ++i) for (int ctor = 0; ctor < 2; ++ctor) { K k = ks[i]; std::string n = S(S(S(S(S("/N", k.c.N) + "m", k.c.m) + "p", k.c.p) + "d", k.c.d) + "/ctor", ctor);
    for (int tk = 0; tk < 2; ++tk) { std::string u = n + (tk ? "/T0.1" : "/Tfree"); int tier = k.tier || ctor == tk;
      addCase("C17" + u, tier, [=] { history(k.c, tk, ctor, k.cycles, k.toggles, false, gaitCheck, nothing); });
      addCase("C18" + u, tier, [=] { history(k.c, tk, ctor, k.cycles, k.toggles, false, selectionCheck, nothing); });
      addCase("C19" + u, tier, [=] { history(k.c, tk, ctor, k.cycles, k.toggles, true, nothing, feetCheck); }); } }
  struct P { Cfg c; int cycles, toggles, changes, tier; };
  std::vector<P> ps = { {{4, 1, 2, 2}, 8, 2, 1, 0}, {{5, 1, 3, 2}, 8, 2, 1, 0}, {{4, 2, 3, 1}, 12, 2, 1, 0}, {{6, 1, 3, 2}, 10, 2, 2, 1}, {{3, 1, 2, 7}, 9, 1, 2, 0}, {{6, 2, 4, 2}, 18, 2, 1, 1}, {{5, 1, 3, 1}, 12, 3, 2, 1} };
  for (size_t i = 0; i < ps.size(); ++i) for (int what = 0; what < Drive::retimings(); ++what) for (int tk = 0; tk < 2; ++tk) if (Drive::possible(ps[i].c, what)) { P k = ps[i]; std::string n = S(S(S(S(S("/retimed/N", k.c.N) + "m", k.c.m) + "p", k.c.p) + "d", k.c.d) + "/what", what) + (tk ? "/T0.1" : "/Tfree"); int tier = k.tier || tk == int(i % 2);
      addCase("C17" + n, tier, [=] { retimed(k.c, tk, k.cycles, k.toggles, k.changes, what, false, gaitCheck, nothing); });
      addCase("C18" + n, tier, [=] { retimed(k.c, tk, k.cycles, k.toggles, k.changes, what, false, selectionCheck, nothing); });
      addCase("C19" + n, tier, [=] { retimed(k.c, tk, k.cycles, k.toggles, k.changes, what, true, nothing, feetCheck); }); }
  return 0; }();
