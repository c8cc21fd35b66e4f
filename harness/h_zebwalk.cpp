// C21, C24 (wheeled-robot generator): the program handed to the solver after any setting changes.
#include "zebulon.h"
#include "src/zebulon_walkgen.cpp"
#include "walk.h"
#include <numeric>
typedef ZebulonWalkgen<double> Gen;
static const int NW = 7; // velocity, position, CoP, CoM, jerk, tilt, tilt rate
static const char* const wn[NW] = {"velocity", "position", "CoP", "CoM", "jerk", "tilt", "tilt rate"};
struct World { Dirty<Gen> gen; int N = 1; Cfg c; double vl = rat(1), al = rat(1), jl = rat(1), dx = rat(0), dy = rat(0), w[NW]; bool con[4] = {false, false, false, false}; VecX cx, cy, bx, by, roll, pitch, yaw, vref, pref, copref, comref, X; VecV2 copP, comP; bool mayFail = false;
  World() { c.N = 1; c.T = rat(1); c.m = rat(1); c.M = rat(0); c.hc = rat(1); c.hb = rat(0); c.gx = rat(0); c.gy = rat(0); c.gz = rat(981, 100); for (auto& x : w) x = rat(0); for (VecX* v : {&cx, &cy, &bx, &by, &roll, &pitch, &yaw}) *v = VecX::Zero(3); vref = pref = copref = comref = VecX::Zero(2); X = VecX::Zero(4); walk::mayFail() = &mayFail; }
  ~World() { walk::mayFail() = nullptr; } };
// (sin, cos) of the heading stay symbolic atoms when the heading is not 0
static VecX num(int k, std::initializer_list<double> v) { VecX r(k); int i = 0; for (auto& x : v) r(i++) = x; return r; }
static double pick(const std::string& n, std::initializer_list<double> v) { return *(v.begin() + choose(n, v.size())); }
static void weights(World& w, const std::string& t, int on, int set) { ZebulonWalkgenWeighting<double> W; for (int i = 0; i < NW; ++i) w.w[i] = on >> i & 1 ? (set ? rat(3 + 2 * i, 2) : rat(7 - i, 3)) : rat(0); W.velocityTracking = w.w[0]; W.positionTracking = w.w[1]; W.copCentering = w.w[2]; W.comCentering = w.w[3]; W.jerkMinimization = w.w[4]; W.tiltMinimization = w.w[5]; W.tiltVelMinimization = w.w[6]; w.gen->setWeightings(W); }
static void oneWeight(World& w, int i) { w.w[i] = w.w[i] + rat(5, 4); ZebulonWalkgenWeighting<double> W; W.velocityTracking = w.w[0]; W.positionTracking = w.w[1]; W.copCentering = w.w[2]; W.comCentering = w.w[3]; W.jerkMinimization = w.w[4]; W.tiltMinimization = w.w[5]; W.tiltVelMinimization = w.w[6]; w.gen->setWeightings(W); }
static void config(World& w, int on) { ZebulonWalkgenConfig<double> C; for (int i = 0; i < 4; ++i) w.con[i] = on >> i & 1; C.withCopConstraints = w.con[0]; C.withBaseMotionConstraints = w.con[1]; C.withComConstraints = w.con[2]; C.withTiltMotionConstraints = w.con[3]; w.gen->setConfig(C); }
static void references(World& w, const std::string& t) { Gen& g = *w.gen; int n = 2 * w.N; w.vref = inVec("vref" + t, n, rat(-5), rat(5)); w.pref = inVec("pref" + t, n, rat(-5), rat(5)); w.copref = inVec("copref" + t, n, rat(-5), rat(5)); w.comref = inVec("comref" + t, n, rat(-5), rat(5)); g.setVelRefInWorldFrame(w.vref); g.setPosRefInWorldFrame(w.pref); g.setCopRefInLocalFrame(w.copref); g.setComRefInLocalFrame(w.comref); }
static VecV2 verts(const Shape& s) { return poly(s, rat(1)).getVertices(); }
static int nsym() { int n = 0; for (auto& s : shapes()) if (s.sym) ++n; return n; }
static bool gAlike = false; // short histories: also values that differ in one respect only
static void setPoly(World& w, const std::string& t, bool com) { const Shape& s = shapes()[choose("shape" + t, 3)]; ConvexPolygon<double> p = poly(s, rat(1)); if (choose("hull" + t, 2)) { Type<double>::vectorOfVector3 v; for (int k : {1, 0, 2, 3}) { Vec3 q; q(0) = rat(s.p[k].first, 10); q(1) = rat(s.p[k].second, 10); q(2) = input(S("z", k) + t, rat(-1), rat(1)); v.push_back(q); } Vec3 q; q(0) = rat(1, 100); q(1) = rat(2, 100); q(2) = rat(0); v.push_back(q); if (com) w.gen->setBaseComHull(v); else w.gen->setBaseCopHull(v); } else if (com) w.gen->setBaseComConvexPolygon(p); else w.gen->setBaseCopConvexPolygon(p); (com ? w.comP : w.copP) = p.getVertices(); }
enum { OP_N, OP_T, OP_GRAV, OP_COPP, OP_COMP, OP_HC, OP_HB, OP_M, OP_MB, OP_VREF, OP_PREF, OP_COPREF, OP_COMREF, OP_WORLD, OP_LIMITS, OP_BASE, OP_ROLL, OP_YAW, OP_COM, OP_CONTACT, OP_WEIGHTS, OP_CONFIG, NOPS };
static void op(World& w, int k, const std::string& t, int maxN) { Gen& g = *w.gen; int n = 2 * w.N; auto st = [&](const std::string& nm) { return inVec(nm + t, 3, rat(-5), rat(5)); }; switch (k) {
  case OP_N: w.N = w.c.N = choose("N" + t, maxN) + 1; g.setNbSamples(w.N); w.X = VecX::Zero(4 * w.N); references(w, t); break;
  case OP_T: w.c.T = pick("T" + t, {rat(1, 10), rat(1, 4), rat(1)}); g.setSamplingPeriod(w.c.T); break;
  case OP_GRAV: { Vec3 v; int k = choose("g" + t, gAlike ? 5 : 2); if (k == 1) v << rat(1), rat(-2), rat(9); else if (!k) v << rat(0), rat(1, 2), rat(10); else { v << w.c.gx, w.c.gy, w.c.gz; v(k - 2) = k == 4 ? rat(11) : -v(k - 2) + rat(1, 3); } w.c.gx = v(0); w.c.gy = v(1); w.c.gz = v(2); g.setGravity(v); break; }
  case OP_COPP: setPoly(w, t, false); break;
  case OP_COMP: setPoly(w, t, true); break;
  case OP_HC: w.c.hc = pick("hc" + t, {rat(7, 10), rat(5, 4)}); g.setComBodyHeight(w.c.hc); break;
  case OP_HB: w.c.hb = pick("hb" + t, {rat(1, 8), rat(3, 10)}); g.setComBaseHeight(w.c.hb); break;
  case OP_M: w.c.m = pick("m" + t, {rat(1, 2), rat(22)}); g.setBodyMass(w.c.m); break;
  case OP_MB: w.c.M = pick("M" + t, {rat(3, 4), rat(17)}); w.c.masses = true; g.setBaseMass(w.c.M); break;
  case OP_VREF: w.vref = inVec("vref" + t, n, rat(-5), rat(5)); g.setVelRefInWorldFrame(w.vref); break;
  case OP_PREF: w.pref = inVec("pref" + t, n, rat(-5), rat(5)); g.setPosRefInWorldFrame(w.pref); break;
  case OP_COPREF: w.copref = inVec("copref" + t, n, rat(-5), rat(5)); g.setCopRefInLocalFrame(w.copref); break;
  case OP_COMREF: w.comref = inVec("comref" + t, n, rat(-5), rat(5)); g.setComRefInLocalFrame(w.comref); break;
  case OP_WORLD: { VecX p = inVec("rcp" + t, n, rat(-5), rat(5)), a = inVec("rca" + t, n, rat(-5), rat(5)), q = inVec("rbp" + t, n, rat(-5), rat(5)), d = inVec("rba" + t, n, rat(-5), rat(5)); g.setComAndCopRefInWorldFrame(p, a, q, d); w.comref = p - q; for (int i = 0; i < n; ++i) { oracle::Axis com{p(i), rat(0), a(i)}, base{q(i), rat(0), d(i)}; w.copref(i) = copTotal(w.c, com, base, i / w.N) - q(i); } break; }
  case OP_LIMITS: w.vl = input("vl" + t, rat(0), rat(9)); w.al = input("al" + t, rat(0), rat(9)); w.jl = input("jl" + t, rat(0), rat(9)); g.setBaseVelLimit(w.vl); g.setBaseAccLimit(w.al); g.setBaseJerkLimit(w.jl); break;
  case OP_BASE: w.bx = st("bx"); w.by = st("by"); g.setBaseStateX(w.bx); g.setBaseStateY(w.by); break;
  case OP_ROLL: w.roll = st("roll"); w.pitch = st("pitch"); g.setBaseStateRoll(w.roll); g.setBaseStatePitch(w.pitch); break;
  case OP_YAW: w.yaw = st("yaw"); w.yaw(0) = gAlike ? pick("heading" + t, {rat(0), rat(1), rat(-1)}) : pick("heading" + t, {rat(0), rat(1)}); g.setBaseStateYaw(w.yaw); break;
  case OP_COM: w.cx = st("cx"); w.cy = st("cy"); g.setComStateX(w.cx); g.setComStateY(w.cy); break;
  case OP_CONTACT: w.dx = input("dx" + t, rat(-1), rat(1)); w.dy = input("dy" + t, rat(-1), rat(1)); g.setTiltContactPointOnTheGroundInLocalFrameX(w.dx); g.setTiltContactPointOnTheGroundInLocalFrameY(w.dy); break;
  case OP_WEIGHTS: { int k = choose("weights" + t, gAlike ? 2 * NW + 3 : NW + 3); if (k >= NW + 3) { oneWeight(w, k - NW - 3); break; } weights(w, t, k < NW ? 1 << k : k == NW ? 0 : 127, k & 1); break; }
  case OP_CONFIG: { int k = choose("constraints" + t, 6); config(w, k < 4 ? 1 << k : k == 4 ? 0 : 15); break; } } }
static Pred predict(const World& w, const VecX& u) { int N = w.N; Pred p; p.c[0] = oracle::rollout(w.cx, u.segment(0, N), w.c.T, w.c.T); p.c[1] = oracle::rollout(w.cy, u.segment(N, N), w.c.T, w.c.T); p.b[0] = oracle::rollout(w.bx, u.segment(2 * N, N), w.c.T, w.c.T); p.b[1] = oracle::rollout(w.by, u.segment(3 * N, N), w.c.T, w.c.T); return p; }
static bool gFixed = false; // longer histories: a fixed feedback period
static bool solve(World& w, const std::string& t) { Gen& g = *w.gen; int N = w.N, n = 4 * N; double f = gFixed ? rat(1, 10) : input("f" + t, rat(1, 100), rat(2)); int before = walk::calls(); w.mayFail = true; bool r = g.solve(f); w.mayFail = false;
  check(F(walk::calls() == before + 1), "one program per step" + t); if (walk::calls() != before + 1) return false; walk::QP q = walk::last(); bool sz = q.ok && ::qpOASES::hook().calls.back().nV == n; check(F(sz), "sizes" + t); if (!sz) return false;
  bool failed = ::qpOASES::hook().lastCode != ::qpOASES::SUCCESSFUL_RETURN; check(F(r == !failed), "failure of the solver reported" + t);
  const Cfg& c = w.c; walk::Sum want(n); auto axes = [&](const VecX& u, const std::function<double(const oracle::Axis&, const oracle::Axis&, int, int)>& e) { Pred p = predict(w, u); VecX v(2 * N); for (int ax = 0; ax < 2; ++ax) for (int i = 0; i < N; ++i) v(ax * N + i) = e(p.c[ax][i], p.b[ax][i], ax, ax * N + i); return v; };
  want.add(w.w[0], w.X, [&](const VecX& u) { return axes(u, [&](const oracle::Axis&, const oracle::Axis& b, int, int k) { return b.v - w.vref(k); }); });
  want.add(w.w[1], w.X, [&](const VecX& u) { return axes(u, [&](const oracle::Axis&, const oracle::Axis& b, int, int k) { return b.p - w.pref(k); }); });
  want.add(w.w[2], w.X, [&](const VecX& u) { return axes(u, [&](const oracle::Axis& m, const oracle::Axis& b, int ax, int k) { return copTotal(c, m, b, ax) - b.p - w.copref(k); }); });
  double sh = (c.m * c.hc + c.M * c.hb) / (c.m + c.M) / c.gz; want.add(w.w[3], w.X, [&](const VecX& u) { return axes(u, [&](const oracle::Axis& m, const oracle::Axis& b, int ax, int k) { return m.p - b.p - w.comref(k) - sh * (ax ? c.gy : c.gx); }); });
  want.add(w.w[4], w.X, [&](const VecX& u) { return u; });
  TiltP tp{c.T, c.m, c.M, c.hb, c.hc}; for (int k = 0; k < 2; ++k) if (w.w[5 + k] > 0) want.add(w.w[5 + k], w.X, [&](const VecX& u) { return tiltResidual(tp, predict(w, u), N, w.roll, w.pitch, w.dx, w.dy, k == 1); });
  double scale = rat(1), top = rat(0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double a = std::abs(want.H(i, j)); if (a > top) { top = a; scale = q.H(i, j) / want.H(i, j); } }
  check(f_gt(scale, rat(0)), "objective scaled by a positive factor" + t); if (!(scale > 0)) return false; nearMat(MatX(q.H / scale), want.H, "Hessian" + t); nearVec(VecX(q.g / scale), want.g, "gradient" + t);
  VecX d = inVec("d" + t, n, rat(-5), rat(5)), u = w.X + d; Pred p = predict(w, u); std::vector<double> need; auto polyRows = [&](const VecV2& v, const std::function<double(int, int)>& pt) { int V = v.size(); for (int i = 0; i < N; ++i) { double qx = pt(i, 0), qy = pt(i, 1); for (int e = 0; e < V; ++e) { const Vec2 &p1 = v[e], &p2 = v[(e + 1) % V]; need.push_back(-((p2(0) - p1(0)) * (qy - p1(1)) - (p2(1) - p1(1)) * (qx - p1(0)))); } } };
  auto lim = [&](const double& v, const double& l) { need.push_back(v - l); need.push_back(-l - v); };
  if (w.con[0]) polyRows(w.copP, [&](int i, int ax) { return copTotal(c, p.c[ax][i], p.b[ax][i], ax) - p.b[ax][i].p; });
  if (w.con[1]) for (int ax = 0; ax < 2; ++ax) for (int i = 0; i < N; ++i) { lim(p.b[ax][i].v, w.vl); lim(p.b[ax][i].a, w.al); lim(u(2 * N + ax * N + i), w.jl); }
  if (w.con[2]) polyRows(w.comP, [&](int i, int ax) { return p.c[ax][i].p - p.b[ax][i].p; });
  if (w.con[3]) { double sn = std::sin(w.yaw(0)), cs = std::cos(w.yaw(0)); for (int i = 0; i < N; ++i) for (auto* z : {p.c, p.b}) { double e = sn * z[0][i].v - cs * z[1][i].v; need.push_back(e); need.push_back(-e); } }
  rowsEquivalent(walk::rows(q, d), need, "constraints" + t); if (failed) return false;
  w.X += walk::primalOf(before, n); VecX* s[4] = {&w.cx, &w.cy, &w.bx, &w.by}; for (int k = 0; k < 4; ++k) { oracle::Axis a{(*s[k])(0), (*s[k])(1), (*s[k])(2)}; oracle::stepJerk(a, w.X(k * N), f); (*s[k]) << a.p, a.v, a.a; }
  nearVec(g.getComStateX(), w.cx, "com x" + t); nearVec(g.getComStateY(), w.cy, "com y" + t); nearVec(g.getBaseStateX(), w.bx, "base x" + t); nearVec(g.getBaseStateY(), w.by, "base y" + t); return true; }
// a generic configuration reached through the setters in one fixed order
static void generic(World& w, int N) { Gen& g = *w.gen; if (N > 1) { w.N = w.c.N = N; g.setNbSamples(N); w.X = VecX::Zero(4 * N); } references(w, "init"); w.c.T = rat(1, 5); g.setSamplingPeriod(w.c.T); w.c.m = rat(6); g.setBodyMass(w.c.m); w.c.M = rat(5); g.setBaseMass(w.c.M); w.c.hc = rat(4, 5); g.setComBodyHeight(w.c.hc); w.c.hb = rat(1, 4); g.setComBaseHeight(w.c.hb); Vec3 v; v << rat(1, 2), rat(-1), rat(19, 2); w.c.gx = v(0); w.c.gy = v(1); w.c.gz = v(2); g.setGravity(v); const Shape& s = shapes()[0]; g.setBaseCopConvexPolygon(poly(s, rat(1, 2))); w.copP = poly(s, rat(1, 2)).getVertices(); const Shape& h = shapes()[2]; g.setBaseComConvexPolygon(poly(h, rat(1))); w.comP = verts(h); weights(w, "init", 127, 1); config(w, 15); w.cx = inVec("cxi", 3, rat(-5), rat(5)); w.cy = inVec("cyi", 3, rat(-5), rat(5)); w.bx = inVec("bxi", 3, rat(-5), rat(5)); w.by = inVec("byi", 3, rat(-5), rat(5)); g.setComStateX(w.cx); g.setComStateY(w.cy); g.setBaseStateX(w.bx); g.setBaseStateY(w.by); }
static void history(int N, int from, const std::vector<int>& shape, int first) { symx::setDontCareInverse(true); walk::reset(); gFixed = shape.size() > 3; gAlike = std::accumulate(shape.begin(), shape.end(), 0) <= 1; World w; if (from == 1) generic(w, N); else if (N > 1) { w.N = w.c.N = N; w.gen->setNbSamples(N); w.X = VecX::Zero(4 * N); references(w, "init"); }
  if (from == 0) { weights(w, "init", 127, 0); config(w, 15); }
  int k = 0; for (size_t i = 0; i < shape.size(); ++i) { for (int j = 0; j < shape[i]; ++j, ++k) op(w, k == 0 && first >= 0 ? first : choose(S("op", k), NOPS), S("_", k), from < 0 ? 2 : N == 1 ? 2 : N); if (!solve(w, S(" (step ", i) + ")")) return; } }
static void accepted(int len, int first) { symx::setDontCareInverse(true); walk::reset(); gAlike = false; World w; for (int k = 0; k < len; ++k) { int o = k == 0 ? first : choose(S("op", k), NOPS + 1); if (o == NOPS) { w.mayFail = true; w.gen->solve(input(S("f", k), rat(1, 100), rat(2))); w.mayFail = false; } else op(w, o, S("_", k), 2); } w.gen->solve(rat(1, 10)); check(F(true), "accepted"); }
// symbolic masses, heights, gravities and periods
static void acceptedAny(int len, int first) { symx::setDontCareInverse(true); walk::reset(); World w; Gen& g = *w.gen; for (int k = 0; k < len; ++k) { int o = k == 0 ? first : choose(S("op", k), 6); auto v = [&](const char* n, const double& lo, const double& hi) { return input(S(n, k), lo, hi); }; switch (o) { case 0: g.setBodyMass(v("m", rat(1, 1000), rat(50))); break; case 1: g.setBaseMass(v("M", rat(1, 1000), rat(50))); break; case 2: g.setComBodyHeight(v("hc", rat(1, 10), rat(2))); break; case 3: g.setComBaseHeight(v("hb", rat(0), rat(1))); break; case 4: { Vec3 q; q << v("gx", rat(-3), rat(3)), v("gy", rat(-3), rat(3)), v("gz", rat(5), rat(12)); g.setGravity(q); break; } default: g.setSamplingPeriod(v("T", rat(1, 100), rat(2))); } } check(F(true), "accepted"); g.solve(rat(1, 10)); }
static int reg = [] {
  for (int N : {1, 2, 3, 4, 5, 6, 8}) for (int from = -1; from < 2; ++from) { std::string n = S("C21/N", N) + (from < 0 ? "/bare" : from ? "/generic" : "/default");
    if (N >= 5 && from == 0) continue; addCase(n + "/s-s-s", 0, [=] { history(N, from, {0, 0, 0}, -1); });
    if (N <= 2 && from) { addCase(n + "/five solves", 0, [=] { history(N, from, {0, 0, 0, 0, 0}, -1); }); for (int f = 0; f < NOPS; ++f) addCase(n + S("/s-s-op-s-s/first", f), 0, [=] { history(N, from, {0, 0, 1, 0}, f); }); }
    if (N <= 4) for (int f = 0; f < NOPS; ++f) { int tier = 1; addCase(n + S("/op-op-s-s/first", f), tier, [=] { history(N, from, {2, 0, 0, 0}, f); }); addCase(n + S("/op-s-op-s-s/first", f), tier, [=] { history(N, from, {1, 1, 0, 0}, f); }); addCase(n + S("/s-op-op-s-s/first", f), N == 2 && from == 1 ? 0 : 1, [=] { history(N, from, {0, 2, 0, 0}, f); }); if (N == 2) addCase(n + S("/s-op-s-op-s-s/first", f), tier, [=] { history(N, from, {0, 1, 1, 0}, f); }); }
    for (int f = 0; f < NOPS; ++f) { std::string u = S("/first", f); bool heavy = f == OP_T || f == OP_HC || f == OP_M; int one = N <= 4 || (N == 6 && !heavy) ? 0 : N == 8 && heavy ? 9 : 1, two = N == 1 || (N == 2 && from == 1) ? 0 : N == 2 ? 1 : 9; addCase(n + "/op-s" + u, N <= 6 || from == 1 ? 0 : 1, [=] { history(N, from, {1}, f); }); addCase(n + "/s-op-s" + u, one, [=] { history(N, from, {0, 1}, f); }); addCase(n + "/op-s-op-s" + u, two, [=] { history(N, from, {1, 1}, f); }); addCase(n + "/op-op-s" + u, two, [=] { history(N, from, {2}, f); });
      if (N == 1 && from == 1) { addCase(n + "/op-op-op-s" + u, 1, [=] { history(N, from, {3}, f); }); addCase(n + "/op-s-op-op-s" + u, 1, [=] { history(N, from, {1, 2}, f); }); } } }
  for (int l = 1; l <= 3; ++l) for (int f = 0; f <= NOPS; ++f) addCase(S(S("C24/wheeled/len", l) + "/first", f), l <= 2 ? 0 : 1, [=] { accepted(l, f); });
  for (int l = 1; l <= 6; ++l) for (int f = 0; f < 6; ++f) addCase(S(S("C24/wheeled/any/len", l) + "/first", f), l <= 4 ? 0 : 1, [=] { acceptedAny(l, f); });
  return 0; }();
