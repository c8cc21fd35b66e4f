// Independent construction of the three-piece cubic trajectory.
#pragma once
// the trajectory defined by its 12 conditions, solved independently (unit duration):
// accelerations a(0)=A0, knots A1,A2 and A3 are piecewise linear; A1, A2 follow from the end position and speed.
struct Spline { double p0, v0, A[4]; double p(const double& x, int k) const { double P = p0, V = v0, h = rat(1, 3); for (int i = 0; i < k; ++i) { P = P + h * V + h * h * (2 * A[i] + A[i + 1]) / 6; V = V + h * (A[i] + A[i + 1]) / 2; } double y = x - h * k; return P + y * V + y * y * A[k] / 2 + y * y * y * (A[k + 1] - A[k]) / (6 * h); }
  double v(const double& x, int k) const { double V = v0, h = rat(1, 3); for (int i = 0; i < k; ++i) V = V + h * (A[i] + A[i + 1]) / 2; double y = x - h * k; return V + y * A[k] + y * y * (A[k + 1] - A[k]) / (2 * h); }
  double a(const double& x, int k) const { double h = rat(1, 3), y = x - h * k; return A[k] + y * (A[k + 1] - A[k]) / h; } };
inline Spline solve(const Vec3& i, const Vec3& f, const double& T) {
  Spline s; s.p0 = i(0); s.v0 = T * i(1); s.A[0] = T * T * i(2); s.A[3] = T * T * f(2); double dV = T * f(1) - s.v0, dP = f(0) - s.p0 - s.v0;
  // dV = (A0+2A1+2A2+A3)/6 ; dP = (8 A0 + 12 A1 + 6 A2 + A3)/54  (exact for piecewise linear acceleration)
  double e1 = 6 * dV - s.A[0] - s.A[3], e2 = 54 * dP - 8 * s.A[0] - s.A[3]; // 2A1+2A2=e1 ; 12A1+6A2=e2
  s.A[1] = (e2 - 3 * e1) / 6; s.A[2] = e1 / 2 - s.A[1]; return s; }
