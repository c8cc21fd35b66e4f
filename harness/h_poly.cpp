// C05, C06: convex hull and the constraints derived from it.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/convexpolygon.h>
#include "src/convexpolygon.cpp"
#include "oracle.h"
using namespace MPCWalkgen;
typedef ConvexPolygon<double> CP;
static double crs(const Vec2& a, const Vec2& b, const Vec2& c) { return (b(0) - a(0)) * (c(1) - a(1)) - (b(1) - a(1)) * (c(0) - a(0)); }
// "either exactly zero or at least the gap": keeps the inputs away from the code's own tolerances
static void gap(const double& d, const double& g) { assume(f_eq(d, double(0)) || f_ge(d, g) || f_le(d, -g)); }
static void generic(const VecV2& p) { const double g = rat(1, 100);
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < i; ++j) { gap(p[i](0) - p[j](0), g); gap(p[i](1) - p[j](1), g); for (size_t k = 0; k < j; ++k) gap(crs(p[k], p[j], p[i]), g); } }
static F same(const Vec2& a, const Vec2& b) { return f_eq(a(0), b(0)) && f_eq(a(1), b(1)); }
static Vec2 free2(const std::string& n) { Vec2 v; v(0) = input(n + "x", rat(-2), rat(2)); v(1) = input(n + "y", rat(-2), rat(2)); return v; }
static Vec2 pt(const double& x, const double& y) { Vec2 v; v(0) = x; v(1) = y; return v; }
static void checkHull(const VecV2& p, const VecV2& v, const std::string& l) {
  const int k = v.size(); check(F(k >= 1 && k <= (int)p.size()), l + ": number of vertices"); if (k < 1) return; const double s = rat(1, 1000000000);
  for (int i = 0; i < k; ++i) { F o(false); for (auto& q : p) o = o || same(q, v[i]); check(o, l + ": every vertex is a given point"); }
  for (int i = 0; i < k; ++i) for (int j = 0; j < i; ++j) { check(!same(v[i], v[j]), l + ": vertices are distinct"); for (int m = 0; m < j; ++m) check(f_gt(crs(v[m], v[j], v[i]), s), l + ": strictly convex, counter-clockwise"); }
  for (auto& q : p) { if (k >= 3) for (int i = 0; i < k; ++i) check(f_ge(crs(v[i], v[(i + 1) % k], q), -s), l + ": contains every given point");
    else if (k == 1) check(same(q, v[0]), l + ": contains every given point");
    else { Vec2 d = v[1] - v[0], e = q - v[0]; check(f_near(crs(v[0], v[1], q), double(0), s) && f_ge(d.dot(e), -s) && f_le(d.dot(e), d.dot(d) + s), l + ": contains every given point"); } } }
static void hull(const VecV2& p, const std::string& l) { generic(p); VecV2 in = p; Dirty<CP> c(in); checkHull(p, c->getVertices(), l); }
typedef std::vector<std::pair<int, int>> Pts; // coordinates in tenths
static VecV2 mk(const Pts& b) { VecV2 v; for (auto& q : b) v.push_back(pt(rat(q.first, 10), rat(q.second, 10))); return v; }
static const std::vector<std::pair<std::string, Pts>>& bases() { static const std::vector<std::pair<std::string, Pts>> b = {
  {"one", {{3, 5}}}, {"origin", {{0, 0}}}, {"pair", {{-5, 2}, {7, 2}}}, {"slantedpair", {{-5, 2}, {7, -9}}}, {"samepair", {{4, 4}, {4, 4}}},
  {"triangle", {{0, 10}, {-10, -5}, {10, -5}}}, {"revtriangle", {{10, 3}, {-10, -5}, {0, 10}}}, {"square", {{5, 5}, {-5, 5}, {-5, -5}, {5, -5}}}, {"crosssquare", {{5, 5}, {-5, -5}, {-5, 5}, {5, -5}}},
  {"aligned", {{0, 0}, {10, 10}, {5, 5}}}, {"alignedrev", {{10, 10}, {0, 0}, {-5, -5}}}, {"vertical", {{2, 3}, {2, -8}, {2, 9}}}, {"horizontal", {{3, 1}, {-8, 1}, {9, 1}}},
  {"duptriangle", {{0, 10}, {-10, -5}, {10, -5}, {-10, -5}}}, {"dupmid", {{0, 10}, {0, 10}, {-10, -5}, {10, -5}}}, {"rectmid", {{10, 5}, {0, 5}, {-10, 5}, {-10, -5}, {10, -5}}},
  {"pentagon", {{10, 0}, {3, 9}, {-8, 6}, {-8, -6}, {3, -9}}}, {"pentagonin", {{10, 0}, {1, 1}, {3, 9}, {-8, 6}, {-8, -6}, {3, -9}}}, {"feet", {{8, 12}, {-8, 12}, {-8, 4}, {8, 4}, {8, -4}, {-8, -4}, {-8, -12}, {8, -12}}} };
  return b; }
// coordinates chosen so that polygons of the family have general edges, axis-parallel edges or both
static const std::vector<std::pair<std::string, Pts>>& polys() { static const std::vector<std::pair<std::string, Pts>> b = {
  {"square", {{5, 5}, {-5, 5}, {-5, -5}, {5, -5}}}, {"triangle", {{0, 10}, {-10, -5}, {10, -5}}}, {"diamond", {{10, 0}, {0, 10}, {-10, 0}, {0, -10}}}, {"pentagon", {{10, 0}, {3, 9}, {-8, 6}, {-8, -6}, {3, -9}}},
  {"octagon", {{10, 5}, {5, 10}, {-5, 10}, {-10, 5}, {-10, -5}, {-5, -10}, {5, -10}, {10, -5}}}, {"righttriangle", {{0, 0}, {10, 0}, {0, 10}}}, {"trapezoid", {{10, -5}, {5, 5}, {-5, 5}, {-10, -5}}}, {"hexfoot", {{10, 3}, {7, 6}, {-9, 6}, {-9, -6}, {7, -6}, {10, -3}}}, {"offcentre", {{15, 12}, {9, 18}, {4, 3}}} };
  return b; }
static void planes(const VecV2& p, const std::string& l) {
  Dirty<CP> c(p); const VecV2& v = c->getVertices(); const int k = v.size(); if (k < 3) { assume(F(false)); return; }
  Vec2 q; q(0) = input("qx", rat(-5), rat(5)); q(1) = input("qy", rat(-5), rat(5)); const double e = rat(1, 10000);
  F in, sat, satTight; int axis = 0; bool left = false, right = false, up = false, down = false;
  const VecX &X = c->getGeneralConstraintsMatrixCoefsForX(), &Y = c->getGeneralConstraintsMatrixCoefsForY(), &C = c->getGeneralConstraintsConstantPart(); const int n = c->getNbGeneralConstraints();
  check(F(X.size() == n && Y.size() == n && C.size() == n), l + ": sizes"); if (X.size() != n || Y.size() != n || C.size() != n) return;
  for (int i = 0; i < k; ++i) { in = in && f_ge(crs(v[i], v[(i + 1) % k], q), -TOL * 0); Vec2 d = v[(i + 1) % k] - v[i];
    if (d(0) < e && d(0) > -e) { ++axis; if (d(1) > 0) { right = true; check(f_near(c->getXSupBound(), v[i](0), TOL), l + ": right edge is the upper bound in x"); } else { left = true; check(f_near(c->getXInfBound(), v[i](0), TOL), l + ": left edge is the lower bound in x"); } }
    else if (d(1) < e && d(1) > -e) { ++axis; if (d(0) > 0) { down = true; check(f_near(c->getYInfBound(), v[i](1), TOL), l + ": bottom edge is the lower bound in y"); } else { up = true; check(f_near(c->getYSupBound(), v[i](1), TOL), l + ": top edge is the upper bound in y"); } } }
  check(F(n == k - axis), l + ": one general constraint per slanted edge"); const double big = rat(1000000);
  if (!right) check(f_ge(c->getXSupBound(), big), l + ": no bound without edge"); if (!left) check(f_le(c->getXInfBound(), -big), l + ": no bound without edge"); if (!up) check(f_ge(c->getYSupBound(), big), l + ": no bound without edge"); if (!down) check(f_le(c->getYInfBound(), -big), l + ": no bound without edge");
  sat = f_le(q(0), c->getXSupBound()) && f_ge(q(0), c->getXInfBound()) && f_le(q(1), c->getYSupBound()) && f_ge(q(1), c->getYInfBound());
  satTight = f_le(q(0), c->getXSupBound() + TOL) && f_ge(q(0), c->getXInfBound() - TOL) && f_le(q(1), c->getYSupBound() + TOL) && f_ge(q(1), c->getYInfBound() - TOL);
  for (int i = 0; i < n; ++i) { double r = X(i) * q(0) + Y(i) * q(1) + C(i); sat = sat && f_le(r, double(0)); satTight = satTight && f_le(r, TOL); }
  F inTol; for (int i = 0; i < k; ++i) inTol = inTol && f_ge(crs(v[i], v[(i + 1) % k], q), -TOL * 10);
  check(!sat || inTol, l + ": constraints imply membership"); check(!in || satTight, l + ": membership implies constraints"); }
static int reg = [] {
  addCase("C05/free/1", 0, [] { hull({free2("p0")}, "hull"); });
  addCase("C05/free/2", 0, [] { hull({free2("p0"), free2("p1")}, "hull"); });
  addCase("C05/free/2dup", 0, [] { Vec2 a = free2("p0"), b = free2("p1"); VecV2 v; int m = choose("which", 6); for (int i = 0; i < 3; ++i) v.push_back(((m + 1) >> i) & 1 ? a : b); hull(v, "hull"); });
  addCase("C05/free/alldup", 0, [] { Vec2 a = free2("p0"); VecV2 v; int m = choose("copies", 4); for (int i = 0; i <= m; ++i) v.push_back(a); hull(v, "hull"); });
  for (auto& b : bases()) { const int n = b.second.size(); std::set<int> pos = {0, (n + 1) / 2, n};
    addCase("C05/base/" + b.first, 0, [=] { VecV2 v = mk(b.second); int r = choose("rotation", n); VecV2 w; for (int i = 0; i < n; ++i) w.push_back(v[(i + r) % n]); Dirty<CP> c(w); checkHull(w, c->getVertices(), "hull"); check(f_le(double(0), double(1)), "reached"); });
    for (int at : pos) { addCase(S("C05/one/" + b.first + "/at", at), b.first == "pentagonin" ? 9 : n >= 5 && b.first != "rectmid" ? 1 : 0, [=] { VecV2 v = mk(b.second); v.insert(v.begin() + at, free2("p")); hull(v, "hull"); });
      if (n >= 2) addCase(S("C05/aligned/" + b.first + "/at", at), n >= 6 || (n == 5 && at) ? 1 : 0, [=] { VecV2 v = mk(b.second); int i = choose("from", n), j = choose("to", n); double t = input("t", rat(-1), rat(2)); Vec2 q = v[i] + t * (v[j] - v[i]); v.insert(v.begin() + at, q); hull(v, "hull"); }); } }
  for (auto& b : polys()) { const int n = b.second.size();
    addCase("C06/" + b.first, 0, [=] { VecV2 v = mk(b.second); double s = choose("mirror", 2) ? rat(-1) : rat(1), ox = input("ox", rat(-1), rat(1)), oy = input("oy", rat(-1), rat(1)); for (auto& q : v) q = pt(s * q(0) + ox, q(1) + oy); planes(v, "polygon"); });
    addCase("C06/vertex/" + b.first, n >= 5 ? 9 : n == 4 && b.first != "square" ? 1 : 0, [=] { VecV2 v = mk(b.second); int i = choose("vertex", n); v[i] = free2("p"); generic(v); planes(v, "polygon"); });
    addCase("C06/aligned/" + b.first, 0, [=] { VecV2 v = mk(b.second); int i = choose("vertex", n), ax = choose("axis", 2); Vec2 o = v[i]; v[i](1 - ax) = input("c", rat(-2), rat(2)); generic(v); planes(v, "polygon"); }); }
  for (int m = 0; m < 3; ++m) addCase(S("C06/rectangle/", m), 0, [m] { double x0 = m == 2 ? input("x0", rat(-2), rat(0)) : rat(-7, 10), x1 = m == 1 ? rat(9, 10) : input("x1", rat(1, 10), rat(2)), y0 = m == 1 ? input("y0", rat(-2), rat(0)) : rat(-3, 10), y1 = m == 2 ? rat(5, 10) : input("y1", rat(1, 10), rat(2)); VecV2 v = {pt(x0, y0), pt(x1, y0), pt(x1, y1), pt(x0, y1)}; int r = choose("rotation", 4); std::rotate(v.begin(), v.begin() + r, v.end()); if (choose("reverse", 2)) std::reverse(v.begin(), v.end()); planes(v, "polygon"); });
  addCase("C06/empty", 0, [] { Dirty<CP> a; VecV2 none; Dirty<CP> b(none); const double big = rat(1000000); for (CP* c : {&*a, &*b}) { check(F(c->getNbGeneralConstraints() == 0 && c->getVertices().empty()), "empty polygon: no general constraint"); check(f_ge(c->getXSupBound(), big) && f_le(c->getXInfBound(), -big) && f_ge(c->getYSupBound(), big) && f_le(c->getYInfBound(), -big), "empty polygon: no bound"); } });
  return 0; }();
