// Reference gait in whole feedback ticks, and a driver running the real
// supervisor next to it.  m ticks per sample, p samples per step, d samples
// of double support.
#pragma once
#include "spline.h"
namespace gait {
enum { DS, L, R };
struct Cfg { int N, m, p, d; };
struct Gait {
  Cfg c; int ph, r, nxt, nxtDur, cur; bool mv; std::vector<int> phases, land, sampPhase, sampStep; int M, s; bool switched, droppedStep, foreseen = false; // foreseen: the next phase was within the horizon at the last control step
  explicit Gait(Cfg k) : c(k), ph(DS), r(k.d * k.m), nxt(DS), nxtDur(0), cur(k.d * k.m), mv(false), M(0), s(0), switched(false), droppedStep(false) {}
  int next(int q) const { return q == DS ? (mv ? L : DS) : !mv ? DS : q == L ? R : L; }
  int dur(int q) const { return (q == DS ? c.d : c.p) * c.m; }
  void begin(bool move) { mv = move; switched = droppedStep = false; if (r == 0) { switched = true; if (!foreseen) { nxt = next(ph); nxtDur = dur(nxt); } droppedStep = ph != DS; ph = nxt; r = cur = nxtDur; }
    s = (r - 1) % c.m + 1; nxt = next(ph); nxtDur = dur(nxt); const int last = s + (c.N - 1) * c.m; // ticks until the last sample
    phases.assign(1, ph); std::vector<int> end(1, r); M = 0; land.clear(); // phases, their ends, the phases that end with a previewed landing
    while (end.back() <= last) { if (phases.back() != DS) { land.push_back(phases.size() - 1); ++M; } int q = next(phases.back()); phases.push_back(q); end.push_back(end.back() + dur(q)); }
    foreseen = phases.size() > 1; sampPhase.assign(c.N, 0); sampStep.assign(c.N, -1); for (int i = 0; i < c.N; ++i) { int t = s + i * c.m, k = 0; while (end[k] <= t) ++k; sampPhase[i] = k; for (int j = 0; j < M; ++j) if (land[j] < k) sampStep[i] = j; } }
  void end() { --r; }
  // settings changed during the walk; what remains of the current phase changes with them
  bool stepLength(int p) { int q = ph == DS ? r : r + (p - c.p) * c.m; if (p < 2 || p > c.N || (ph != DS && q <= 0)) return false; cur += q - r; r = q; c.p = p; return true; }
  bool supportLength(int d) { int q = ph != DS ? r : r + (d - c.d) * c.m; if (d < 1 || q < 0) return false; cur += q - r; r = q; c.d = d; return true; }
  bool rate(int m) { if (r % c.m || nxtDur % c.m) return false; r = r / c.m * m; cur = cur / c.m * m; nxtDur = nxtDur / c.m * m; c.m = m; return true; } // between two samples
  int flight() const { return cur - c.m; }
  bool flies() const { return ph != DS && r <= flight(); }
};
inline VecV2 quad(const std::vector<std::pair<int, int>>& p, int den = 100) { VecV2 v; for (auto& q : p) { Vec2 w; w(0) = rat(q.first, den); w(1) = rat(q.second, den); v.push_back(w); } return v; }
// reachable sets: left foot as support (steps to its right), right foot as support
inline VecV2 leftReach() { return quad({{-30, -20}, {-35, -35}, {10, -42}, {40, -35}, {40, -20}}); }
inline VecV2 rightReach() { return quad({{40, 18}, {45, 30}, {15, 40}, {-25, 36}, {-30, 18}}); }
typedef MPCWalkgen::HumanoidFeetSupervisor<double> Sup;
struct Drive {
  Gait g; double T, f; Sup& sup; VecX X; Vec3 foot[2][3]; double hmax[2]; int cycle; VecX oldX, oldY; bool live = true; // false: the reference only
  // the supervisor is configured by the caller's setter order
  Drive(Cfg c, const double& t, Sup& s) : g(c), T(t), f(t / double(c.m)), sup(s), X(VecX::Zero(2 * c.N)), cycle(0) { for (int k = 0; k < 2; ++k) for (int a = 0; a < 3; ++a) foot[k][a] << rat(0), rat(0), rat(0); hmax[0] = hmax[1] = rat(0); }
  void polygons() { sup.setLeftFootKinematicConvexPolygon(MPCWalkgen::ConvexPolygon<double>(leftReach())); sup.setRightFootKinematicConvexPolygon(MPCWalkgen::ConvexPolygon<double>(rightReach())); }
  void place(bool full) { for (int k = 0; k < 2; ++k) for (int a = 0; a < 3; ++a) { if (a == 2 && !full) continue; std::string n = std::string(k ? "right" : "left") + "xyz"[a]; VecX v(3); v << (a == 2 ? rat(0) : input(n, rat(-2), rat(2))), rat(0), rat(0); foot[k][a] = v;
      if (k == 0) { if (a == 0) sup.setLeftFootStateX(v); else if (a == 1) sup.setLeftFootStateY(v); else sup.setLeftFootStateZ(v); } else { if (a == 0) sup.setRightFootStateX(v); else if (a == 1) sup.setRightFootStateY(v); else sup.setRightFootStateZ(v); } } }
  double supp(int a) const { if (g.ph == R) return foot[1][a](0); if (g.ph == DS && !g.mv) return (foot[0][a](0) + foot[1][a](0)) / double(2); return foot[0][a](0); }
  // one control cycle up to the solver: command, timeline; the plan is in X
  void begin(bool move) { g.begin(move); if (!live) return; sup.setMove(move); sup.updateTimeline(X, f); }
  // the solver's new plan: arbitrary footsteps
  void plan() { for (int i = 0; i < 2 * g.M; ++i) X(2 * g.c.N + i) = input(S(S("plan", cycle) + "_", i), rat(-3), rat(3)); }
  void plan(const VecX& v) { for (int i = 0; i < 2 * g.M; ++i) X(2 * g.c.N + i) = v(i); }
  // false: not a meaningful change here.  The caller passes it on to a generator when this is the reference only.
  bool retime(int what) { switch (what) { case 0: case 1: case 2: { int p = g.c.p + (what == 0 ? 1 : what == 1 ? -1 : 2); if (!g.stepLength(p)) return false; if (live) sup.setStepPeriod(T * double(p)); return true; }
    case 3: case 4: case 5: { int q = g.c.d + (what == 3 ? 1 : what == 4 ? -1 : -4); if (!g.supportLength(q)) return false; if (live) sup.setInitialDoubleSupportLength(T * double(q)); return true; }
    default: { int m = what == 6 ? g.c.m + 1 : what == 7 ? 2 * g.c.m : 1; if (m == g.c.m || !g.rate(m)) return false; f = T / double(m); return true; } } }
  static int retimings() { return 9; }
  static bool possible(const Cfg& c, int what) { switch (what) { case 0: return c.p < c.N; case 1: return c.p > 2; case 2: return c.p + 2 <= c.N; case 4: return c.d > 1; case 5: return c.d > 4; case 8: return c.m > 1; default: return true; } }
  VecX steps() const { return X.segment(2 * g.c.N, 2 * g.M); }
  // reference motion of the feet, then the real one
  void end() { if (live) end(steps()); }
  void end(const VecX& st) { if (g.flies()) { int k = g.ph == L ? 1 : 0; for (int a = 0; a < 3; ++a) { Vec3 to; int rem2 = 2 * g.r; to << rat(0), rat(0), rat(0); if (a < 2) to(0) = st(a * g.M); else if (2 * (g.r - 1) >= g.flight()) { to(0) = hmax[k]; rem2 = 2 * g.r - g.flight(); }
        double Tr = f * double(rem2) / double(2); Spline sp = solve(foot[k][a], to, Tr); double x = double(2) / double(rem2); int piece = 6 <= rem2 ? 0 : 3 <= rem2 ? 1 : 2; Vec3 n; n << sp.p(x, piece), sp.v(x, piece) / Tr, sp.a(x, piece) / (Tr * Tr); foot[k][a] = n; } }
    if (live) sup.updateFeetStates(st, f); g.end(); ++cycle; }
};
// a command for this cycle, with at most `left` changes over the whole history
inline bool command(int cycle, bool cur, int& left, int from = 0) { if (left <= 0 || cycle < from) return cur; if (choose(S("toggle", cycle), 2)) { --left; return !cur; } return cur; }
}
