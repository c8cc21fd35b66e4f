// C09, C10, C11, C13 (wheeled robot), C14: objectives and constraints of the wheeled robot.
#include "zebulon.h"
// ---- C09 ------------------------------------------------------------------------
template <class O, class Set, class Res> static void baseObjective(int N, int mode, const Set& setRef, const Res& res, const std::string& l) {
  symx::setDontCareInverse(true); double T = periodS("T"); Base b(mode == 1 ? other(N) : N, mode == 2 ? periodS("Told") : T, true); Dirty<O> o(b);
  if (mode == 1) { int k = b.getNbSamples(); setRef(*o, inVec("oldref", 2 * k, rat(-5), rat(5))); o->getGradient(inVec("oldu", 2 * k, rat(-5), rat(5))); b.setNbSamples(N); o->computeConstantPart(); }
  if (mode == 2) { b.setSamplingPeriod(T); o->computeConstantPart(); }
  VecX ref = VecX::Zero(2 * N); if (mode != 0 || choose("reference set", 2)) { ref = inVec("ref", 2 * N, rat(-5), rat(5)); setRef(*o, ref); }
  for (int k = 0; k < 2; ++k) { std::string t = S("k", k); VecX sx = inVec(t + "sx", 3, rat(-5), rat(5)), sy = inVec(t + "sy", 3, rat(-5), rat(5)), x = inVec(t + "u", 2 * N, rat(-5), rat(5)); b.setStateX(sx); b.setStateY(sy); if (k && choose("new reference", 2)) { ref = inVec("ref2", 2 * N, rat(-5), rat(5)); setRef(*o, ref); }
    VecX g = o->getGradient(x); MatX H = o->getHessian();
    checkLeastSquares(g, H, x, [&](const VecX& u) { auto a = oracle::rollout(sx, u.segment(0, N), T, T), c = oracle::rollout(sy, u.segment(N, N), T, T); VecX e(2 * N); for (int i = 0; i < N; ++i) { e(i) = res(a[i]) - ref(i); e(N + i) = res(c[i]) - ref(N + i); } return e; }, l + (k ? " again" : "")); } }
// ---- C10 ------------------------------------------------------------------------
template <class O> struct Setup { Rig r; Dirty<O> o; Cfg c; Setup(int N, int mode, bool bm) : r(mode == 1 ? other(N) : N, mode == 0 ? periodS("T") : periodS("T0")), o(prep(r, mode, N, bm, c), r.b) { c = cfg(N, "", bm); }
  static const Lip& prep(Rig& r, int mode, int N, bool bm, Cfg&) { if (mode == 0) r.apply(cfg(N, "", bm)); if (mode == 2) r.apply(cfg(N, "old", bm)); return r.l; } };
static void copCentering(int N, int mode, int kind, bool bm) {
  symx::setDontCareInverse(true); Setup<CopCenteringObjective<double>> s(N, mode, bm); Cfg& c = s.c; s.r.apply(c); s.o->computeConstantPart(); VecX ref = VecX::Zero(2 * N);
  if (kind == 1 || mode == 1) { ref = inVec("ref", 2 * N, rat(-5), rat(5)); s.o->setCopRefInLocalFrame(ref); }
  auto world = [&](const std::string& t) { VecX p = inVec("rcp" + t, 2 * N, rat(-5), rat(5)), a = inVec("rca" + t, 2 * N, rat(-5), rat(5)), q = inVec("rbp" + t, 2 * N, rat(-5), rat(5)), d = inVec("rba" + t, 2 * N, rat(-5), rat(5)); s.o->setCopRefInWorldFrame(p, a, q, d);
    // the total CoP of the reference motion, relative to the reference base
    for (int i = 0; i < 2 * N; ++i) { oracle::Axis com{p(i), 0, a(i)}, base{q(i), 0, d(i)}; ref(i) = copTotal(c, com, base, i / N) - q(i); } }; if (kind == 2) world("");
  s.r.states(""); VecX x = inVec("u", 4 * N, rat(-5), rat(5)); VecX g = s.o->getGradient(x); MatX H = s.o->getHessian();
  auto res = [&](const VecX& u) { Pred p = predict(s.r, u, N, c.T); VecX e(2 * N); for (int i = 0; i < N; ++i) for (int ax = 0; ax < 2; ++ax) e(ax * N + i) = copTotal(c, p.c[ax][i], p.b[ax][i], ax) - p.b[ax][i].p - ref(ax * N + i); return e; };
  checkLeastSquares(g, H, x, res, "CoP centring"); VecX x2 = inVec("v", 4 * N, rat(-5), rat(5)); s.r.states("2"); int nr = choose("new reference", 3); if (nr == 1) { ref = inVec("ref2", 2 * N, rat(-5), rat(5)); s.o->setCopRefInLocalFrame(ref); } if (nr == 2) world("2"); VecX g2 = s.o->getGradient(x2); MatX H2 = s.o->getHessian(); checkLeastSquares(g2, H2, x2, res, "CoP centring again"); }
static void comCentering(int N, int mode, int kind, bool bm) {
  symx::setDontCareInverse(true); Setup<ComCenteringObjective<double>> s(N, mode, bm); Cfg& c = s.c; s.r.apply(c); if (mode == 1) s.o->setNbSamples(N); s.o->computeConstantPart(); VecX ref = VecX::Zero(2 * N), shift = VecX::Zero(2 * N);
  double f = (c.m * c.hc + c.M * c.hb) / (c.m + c.M) / c.gz; auto sh = [&] { for (int i = 0; i < N; ++i) { shift(i) = f * c.gx; shift(N + i) = f * c.gy; } s.o->updateGravityShift(); }; auto rf = [&] { ref = inVec("ref", 2 * N, rat(-5), rat(5)); s.o->setComRefInLocalFrame(ref); };
  if (kind == 1) rf(); if (kind == 2) sh(); if (kind == 3) { rf(); sh(); } if (kind == 4) { sh(); rf(); } if (kind == 5) { s.o->setComRefInLocalFrame(inVec("ref0", 2 * N, rat(-5), rat(5))); sh(); rf(); sh(); }
  s.r.states(""); VecX x = inVec("u", 4 * N, rat(-5), rat(5)); VecX g = s.o->getGradient(x); MatX H = s.o->getHessian();
  auto res = [&](const VecX& u) { Pred p = predict(s.r, u, N, c.T); VecX e(2 * N); for (int i = 0; i < N; ++i) for (int ax = 0; ax < 2; ++ax) e(ax * N + i) = p.c[ax][i].p - p.b[ax][i].p - ref(ax * N + i) - shift(ax * N + i); return e; };
  checkLeastSquares(g, H, x, res, "CoM centring"); VecX x2 = inVec("v", 4 * N, rat(-5), rat(5)); s.r.states("2"); if (choose("new reference", 2)) { ref = inVec("ref2", 2 * N, rat(-5), rat(5)); s.o->setComRefInLocalFrame(ref); } VecX g2 = s.o->getGradient(x2); MatX H2 = s.o->getHessian(); checkLeastSquares(g2, H2, x2, res, "CoM centring again"); }
static void zebJerk(int N, int mode) { symx::setDontCareInverse(true); Rig r(mode ? other(N) : N, periodS("T")); Dirty<JerkMinimizationObjective<double>> o(r.l, r.b); if (mode) { r.l.setNbSamples(N); r.b.setNbSamples(N); o->computeConstantPart(); } VecX x = inVec("u", 4 * N, rat(-5), rat(5)); VecX g = o->getGradient(x); MatX H = o->getHessian(); checkLeastSquares(g, H, x, [](const VecX& u) { return u; }, "jerk"); }
// ---- C11 ------------------------------------------------------------------------
template <class O> static void tilt(int N, int mode, bool rate, int pk, const std::string& l) {
  TiltP p = tiltP(pk), old = tiltP((pk + 1) % 4); Rig r(mode == 1 ? other(N) : N, p.T); setTilt(r, mode == 1 ? other(N) : N, mode == 2 ? old : p);
  double dx = rat(0), dy = rat(0); auto contact = [&](const std::string& t) { dx = input(t + "dx", rat(-1), rat(1)); dy = input(t + "dy", rat(-1), rat(1)); r.b.setTiltContactPointX(dx); r.b.setTiltContactPointY(dy); };
  if (mode == 3) contact("old"); Dirty<O> o(r.l, r.b);
  if (mode == 1 || mode == 2) { setTilt(r, N, p); contact(""); o->computeConstantPart(); } if (mode == 3) { contact(""); o->updateTiltContactPoint(); }
  for (int k = 0; k < 2; ++k) { std::string t = S("k", k); if (k && choose("new contact", 2)) { contact("new"); o->updateTiltContactPoint(); } r.states(t); VecX sx = inVec(t + "roll", 3, rat(-1), rat(1)), sy = inVec(t + "pitch", 3, rat(-1), rat(1)); r.b.setStateRoll(sx); r.b.setStatePitch(sy); VecX x = inVec(t + "u", 4 * N, rat(-5), rat(5));
    VecX g = o->getGradient(x); MatX H = o->getHessian();
    checkLeastSquares(g, H, x, [&](const VecX& u) { return tiltResidual(p, predict(r, u, N, p.T), N, sx, sy, dx, dy, rate); }, l + (k ? " again" : "")); } }
// ---- C13 ------------------------------------------------------------------------
static void baseMotion(int N, int mode) {
  symx::setDontCareInverse(true); double T = periodS("T"); Base b(mode == 1 ? other(N) : N, mode == 2 ? periodS("Told") : T, true); Dirty<BaseMotionConstraint<double>> c(b);
  if (mode == 1) { b.setNbSamples(N); c->computeConstantPart(); } if (mode == 2) { b.setSamplingPeriod(T); c->computeConstantPart(); }
  double vl = rat(1), al = rat(1); for (int k = 0; k < 2; ++k) { std::string t = k ? "again" : ""; VecX sx = inVec("sx" + t, 3, rat(-5), rat(5)), sy = inVec("sy" + t, 3, rat(-5), rat(5)), x = inVec("x" + t, 2 * N, rat(-5), rat(5)), d = inVec("d" + t, 2 * N, rat(-5), rat(5)); b.setStateX(sx); b.setStateY(sy);
  int set = k || mode == 0 ? choose("limits set" + t, 4) : 3; if (set & 1) { vl = input("vl" + t, rat(0), rat(5)); b.setVelocityLimit(vl); } if (set & 2) { al = input("al" + t, rat(0), rat(5)); b.setAccelerationLimit(al); }
  int n = c->getNbConstraints(); VecX lo = c->getFunctionInf(x), up = c->getFunctionSup(x), lo2 = c->getFunctionInf(x); MatX G = c->getGradient();
  check(F(lo.size() == n && up.size() == n && G.rows() == n && G.cols() == 2 * N), "sizes"); if (lo.size() != n || up.size() != n || G.rows() != n || G.cols() != 2 * N) return; nearVec(lo2, lo, "lower function again");
  VecX Gd = G * d; std::vector<double> code, want; for (int i = 0; i < n; ++i) { code.push_back(Gd(i) - up(i)); code.push_back(lo(i) - Gd(i)); }
  VecX u = x + d; for (int ax = 0; ax < 2; ++ax) for (auto& a : oracle::rollout(ax ? sy : sx, u.segment(ax * N, N), T, T)) { want.push_back(a.v - vl); want.push_back(-vl - a.v); want.push_back(a.a - al); want.push_back(-al - a.a); }
  rowsEquivalent(code, want, "base motion limits" + t); } }
static void tiltMotion(int N, int mode) {
  symx::setDontCareInverse(true); double T = periodS("T"); Rig r(mode == 1 ? other(N) : N, mode == 2 ? periodS("Told") : T); VecX yaw = VecX::Zero(3); if (mode == 3) { VecX y0 = inVec("oldyaw", 3, rat(-3), rat(3)); r.b.setStateYaw(y0); }
  Dirty<TiltMotionConstraint<double>> c(r.l, r.b); if (mode == 1) { r.l.setNbSamples(N); r.b.setNbSamples(N); } if (mode == 2) { r.l.setSamplingPeriod(T); r.b.setSamplingPeriod(T); } if (mode) { yaw = inVec("yaw", 3, rat(-3), rat(3)); r.b.setStateYaw(yaw); c->computeConstantPart(); }
  for (int k = 0; k < 2; ++k) { std::string t = k ? "again" : ""; if (k && choose("new heading", 2)) { yaw = inVec("yaw2", 3, rat(-3), rat(3)); r.b.setStateYaw(yaw); c->computeConstantPart(); } r.states(t); VecX x = inVec("x" + t, 4 * N, rat(-5), rat(5)), d = inVec("d" + t, 4 * N, rat(-5), rat(5)); int n = c->getNbConstraints(); VecX f = c->getFunction(x), f2 = c->getFunction(x); MatX G = c->getGradient();
  check(F(f.size() == n && n == 2 * N && G.rows() == n && G.cols() == 4 * N), "sizes"); if (f.size() != n || n != 2 * N || G.rows() != n || G.cols() != 4 * N) return; nearVec(f2, f, "function again");
  Pred q = predict(r, VecX(x + d), N, T); double sn = std::sin(yaw(0)), cs = std::cos(yaw(0)); VecX Gd = G * d; std::vector<double> code, want; for (int i = 0; i < n; ++i) { code.push_back(Gd(i) - f(i)); code.push_back(f(i) - Gd(i)); }
  for (int i = 0; i < N; ++i) { double a = sn * q.c[0][i].v - cs * q.c[1][i].v, b = sn * q.b[0][i].v - cs * q.b[1][i].v; for (const double& e : {a, b}) { want.push_back(e); want.push_back(-e); } }
  rowsEquivalent(code, want, "no sideways velocity" + t); } }
// ---- C14 ------------------------------------------------------------------------
struct CopK { typedef CopConstraint<double> C; static void set(Base& b, const ConvexPolygon<double>& p) { b.setCopSupportConvexPolygon(p); } static double q(const Cfg& c, const oracle::Axis& com, const oracle::Axis& base, int ax) { return copTotal(c, com, base, ax) - base.p; } };
struct ComK { typedef ComConstraint<double> C; static void set(Base& b, const ConvexPolygon<double>& p) { b.setComSupportConvexPolygon(p); } static double q(const Cfg&, const oracle::Axis& com, const oracle::Axis& base, int) { return com.p - base.p; } };
// the code's constraints at rest, for a point relative to the base: are they all satisfied?
template <class K> static bool accepts(const Shape& s, const double& px, const double& py) { Rig r(1, rat(1)); K::set(r.b, poly(s, rat(1))); typename K::C c(r.l, r.b); VecX a = VecX::Zero(3), b = VecX::Zero(3); a(0) = px; b(0) = py; r.l.setStateX(a); r.l.setStateY(b); VecX f = c.getFunction(VecX(VecX::Zero(4))); for (int i = 0; i < f.size(); ++i) if (f(i) > rat(1, 1000)) return false; return true; }
// a vertex pulled slightly inside whose mirror image lies outside the polygon
template <class K> static bool mirrored(const Shape& s) { if (s.sym) return false; for (auto& q : s.p) { double x = rat(q.first, 10) * rat(19, 20), y = rat(q.second, 10) * rat(19, 20); if (accepts<K>(s, x, y) && !accepts<K>(s, -x, -y)) return false; if (!accepts<K>(s, x, y) && accepts<K>(s, -x, -y)) return true; } return false; }
template <class K> static void polyConstraint(int N, int mode, const Shape& s, bool bm, const std::string& l) {
  symx::setDontCareInverse(true); bool mir = mirrored<K>(s); Cfg c = cfg(N, "", bm); Rig r(mode == 1 ? other(N) : N, mode == 0 ? c.T : periodS("T0")); double k = mode == 3 ? input("scale", rat(1, 10), rat(3)) : rat(1);
  if (mode == 0) { r.apply(c); K::set(r.b, poly(s, rat(1))); } if (mode == 2) { r.apply(cfg(N, "old", bm)); K::set(r.b, poly(s, rat(2))); } if (mode == 3) { r.apply(c); K::set(r.b, poly(shapes()[0], rat(2))); }
  Dirty<typename K::C> o(r.l, r.b); if (mode) { r.apply(c); K::set(r.b, poly(s, k)); o->computeConstantPart(); }
  for (int again = 0; again < 2; ++again) { std::string t = again ? "again" : ""; if (again && choose("new polygon", 2)) { k = input("scale2", rat(1, 10), rat(3)); K::set(r.b, poly(s, k)); o->computeConstantPart(); } r.states(t); VecX x = inVec("x" + t, 4 * N, rat(-5), rat(5)), d = inVec("d" + t, 4 * N, rat(-5), rat(5)); int n = o->getNbConstraints(), V = s.p.size(); VecX f = o->getFunction(x), f2 = o->getFunction(x); MatX G = o->getGradient();
  check(F(f.size() == n && n == N * V && G.rows() == n && G.cols() == 4 * N), l + ": sizes"); if (f.size() != n || n != N * V || G.rows() != n || G.cols() != 4 * N) return; nearVec(f2, f, l + ": function again");
  VecX Gd = G * d; std::vector<double> code, want; for (int i = 0; i < n; ++i) code.push_back(f(i) - Gd(i));
  Pred q = predict(r, VecX(x + d), N, c.T); ConvexPolygon<double> pg = poly(s, k); const VecV2& v = pg.getVertices();
  for (int i = 0; i < N; ++i) { double qx = K::q(c, q.c[0][i], q.b[0][i], 0), qy = K::q(c, q.c[1][i], q.b[1][i], 1); if (mir) { qx = -qx; qy = -qy; } for (int e = 0; e < V; ++e) { const Vec2 &p1 = v[e], &p2 = v[(e + 1) % V]; want.push_back(-((p2(0) - p1(0)) * (qy - p1(1)) - (p2(1) - p1(1)) * (qx - p1(0)))); } }
  rowsEquivalent(code, want, l + (s.sym ? ": the polygon" : ": the polygon or its mirror image") + t); } }
static int reg = [] {
  for (int N : {1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20}) for (int mode = 0; mode < 4; ++mode) { std::string t = S(S("/N", N) + "/mode", mode); auto tier = [&](int q, int th) { return N <= q ? 0 : N <= th ? 1 : 9; };
    if (mode < 3) { addCase("C09/velocity" + t, tier(20, 20), [=] { baseObjective<BaseVelocityTrackingObjective<double>>(N, mode, [](BaseVelocityTrackingObjective<double>& o, const VecX& r) { o.setVelRefInWorldFrame(r); }, [](const oracle::Axis& a) { return a.v; }, "base velocity"); });
      addCase("C09/position" + t, tier(20, 20), [=] { baseObjective<BasePositionTrackingObjective<double>>(N, mode, [](BasePositionTrackingObjective<double>& o, const VecX& r) { o.setPosRefInWorldFrame(r); }, [](const oracle::Axis& a) { return a.p; }, "base position"); });
      if (mode < 2) addCase("C09/jerk" + t, tier(20, 20), [=] { zebJerk(N, mode); });
      for (int bm = 0; bm < 2; ++bm) for (int kind = 0; kind < 6; ++kind) { std::string u = S(S(t + "/kind", kind) + "/basemass", bm); if (kind < 3 && !(mode == 1 && kind == 0)) addCase("C10/cop" + u, tier(12, 20), [=] { copCentering(N, mode, kind, bm); }); addCase("C10/com" + u, tier(12, 20), [=] { comCentering(N, mode, kind, bm); }); }
      addCase("C13/base" + t, tier(20, 20), [=] { baseMotion(N, mode); }); }
    addCase("C13/tilt" + t, tier(20, 20), [=] { tiltMotion(N, mode); });
    for (int pk = 0; pk < 4; ++pk) { addCase(S("C11/angle" + t + "/set", pk), tier(10, 20), [=] { tilt<TiltMinimizationObjective<double>>(N, mode, false, pk, "tilt angle"); }); addCase(S("C11/rate" + t + "/set", pk), tier(10, 20), [=] { tilt<TiltVelMinimizationObjective<double>>(N, mode, true, pk, "tilt rate"); }); }
    for (auto& s : shapes()) { for (int bm = 0; bm < 2; ++bm) addCase(S(std::string("C14/cop/") + s.n + t + "/basemass", bm), tier(8, 16), [=] { polyConstraint<CopK>(N, mode, s, bm, "CoP"); }); addCase(std::string("C14/com/") + s.n + t, tier(8, 20), [=] { polyConstraint<ComK>(N, mode, s, true, "CoM"); }); } }
  for (auto& s : shapes()) if (!s.sym) { addCase(std::string("C14/orientation/cop/") + s.n, 0, [=] { check(F(!mirrored<CopK>(s)), "the polygon itself, not its mirror image, limits the CoP"); }); addCase(std::string("C14/orientation/com/") + s.n, 0, [=] { check(F(!mirrored<ComK>(s)), "the polygon itself, not its mirror image, limits the CoM"); }); }
  return 0; }();
