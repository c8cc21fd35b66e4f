// Independent kinematics used as oracles: plain sample-by-sample integration.
#pragma once
#include "../engine/hcommon.h"
namespace oracle {
struct Axis { double p, v, a; };               // position, velocity, acceleration
inline void stepJerk(Axis& s, const double& j, const double& h) {
  Axis n; n.p = s.p + h * s.v + h * h * s.a / 2 + h * h * h * j / 6; n.v = s.v + h * s.a + h * h * j / 2; n.a = s.a + h * j; s = n; }
// states at the end of each of the N pieces; first piece lasts S, the others T
inline std::vector<Axis> rollout(const VecX& x0, const VecX& jerk, const double& S, const double& T) {
  std::vector<Axis> r; Axis s{x0(0), x0(1), x0(2)};
  for (int i = 0; i < jerk.size(); ++i) { stepJerk(s, jerk(i), i == 0 ? S : T); r.push_back(s); } return r; }
// constant acceleration pieces
inline std::vector<Axis> rollout2(const VecX& x0, const VecX& acc, const double& S, const double& T) {
  std::vector<Axis> r; Axis s{x0(0), x0(1), 0};
  for (int i = 0; i < acc.size(); ++i) { double h = i == 0 ? S : T; Axis n; n.p = s.p + h * s.v + h * h * acc(i) / 2; n.v = s.v + h * acc(i); n.a = acc(i); s = n; r.push_back(s); } return r; }
}
