// C01, C02: prediction matrices against step-by-step integration.
#include "../engine/prelude.h"
#include <mpc-walkgen/constant.h>
#include <mpc-walkgen/tools.h>
#include "src/lineardynamic.cpp"
#include "src/tools.cpp"
#include "oracle.h"
using namespace MPCWalkgen;
typedef Tools::ConstantJerkDynamic<double> CJD;
typedef LinearDynamic<double> LD;
static void transposes(const LD& d, const std::string& l) {
  check(F(d.UT.rows() == d.U.cols() && d.UT.cols() == d.U.rows()), l + " UT size");
  nearMat(d.UT, MatX(d.U.transpose()), l + " UT==U^T"); }
static VecX predict(const LD& d, const VecX& x0, const VecX& u) { return d.U * u + d.S * x0 + d.K; }
enum Q { POS, VEL, ACC, JERK, POS2, VEL2, COP };
static const char* QN[] = {"pos", "vel", "acc", "jerk", "pos2", "vel2", "cop"};
static void build(int q, const double& Sd, const double& T, int N, LD& d) {
  switch (q) { case POS: CJD::computePosDynamic(Sd, T, N, d); break; case VEL: CJD::computeVelDynamic(Sd, T, N, d); break;
    case ACC: CJD::computeAccDynamic(Sd, T, N, d); break; case JERK: CJD::computeJerkDynamic(N, d); break;
    case POS2: CJD::computeOrder2PosDynamic(Sd, T, N, d); break; case VEL2: CJD::computeOrder2VelDynamic(Sd, T, N, d); break; } }
static void predictCase(int q, int N, bool dirty) {
  symx::setDontCareInverse(true);
  double Sd = input("S", rat(1, 1000), rat(2)), T = input("T", rat(1, 1000), rat(2));
  Dirty<LD> d;
  if (dirty) { d->reset(N == 1 ? 3 : N - 1, 2, N + 1); d->U.setConstant(rat(7)); d->UT.setConstant(rat(5)); d->S.setConstant(rat(3)); d->K.setConstant(rat(2)); }
  build(q, Sd, T, N, *d);
  int ns = (q == POS2 || q == VEL2) ? 2 : 3;
  VecX x0 = inVec("x", ns, rat(-5), rat(5)), u = inVec("u", N, rat(-5), rat(5));
  VecX e(N);
  if (ns == 3) { auto r = oracle::rollout(x0, u, Sd, T); for (int i = 0; i < N; ++i) e(i) = q == POS ? r[i].p : q == VEL ? r[i].v : q == ACC ? r[i].a : u(i); }
  else { auto r = oracle::rollout2(x0, u, Sd, T); for (int i = 0; i < N; ++i) e(i) = q == POS2 ? r[i].p : r[i].v; }
  check(F(d->U.rows() == N && d->U.cols() == N && d->S.rows() == N && d->S.cols() == ns && d->K.size() == N), "sizes");
  nearVec(predict(*d, x0, u), e, std::string(QN[q]) + " prediction == integration");
  transposes(*d, QN[q]); }
static void copCase(int N) {
  symx::setDontCareInverse(true);
  double Sd = input("S", rat(1, 1000), rat(2)), T = input("T", rat(1, 1000), rat(2)), h = input("h", rat(1, 100), rat(3)), gx = input("gx", rat(-10), rat(10)), gz = input("gz", rat(1), rat(20));
  double m = input("m", rat(0), rat(50)), me = input("mextra", rat(1, 10), rat(50)); double M = m + me;
  if (choose("equalmass", 2)) { m = input("m1", rat(1), rat(50)); M = m; }
  if (choose("negativegz", 2)) gz = -gz;
  Dirty<LD> d; CJD::computeCopDynamic(Sd, T, N, *d, h, gx, gz, m, M);
  VecX x0 = inVec("x", 3, rat(-5), rat(5)), u = inVec("u", N, rat(-5), rat(5));
  auto r = oracle::rollout(x0, u, Sd, T); VecX e(N);
  for (int i = 0; i < N; ++i) e(i) = (m / M) * (r[i].p - h / gz * (r[i].a + gx));
  nearVec(predict(*d, x0, u), e, "CoP prediction"); transposes(*d, "cop"); }
static void invCase(int q, int N, long tn, long td, long sn, long sd, double hh) {
  double T = rat(tn, td), Sd = rat(sn, sd); Dirty<LD> d;
  if (q == COP) CJD::computeCopDynamic(Sd, T, N, *d, hh, rat(1, 2), rat(981, 100), rat(3), rat(5)); else build(q, Sd, T, N, *d);
  VecX u = inVec("u", N, rat(-1), rat(1));
  nearVec(VecX(d->Uinv * (d->U * u)), u, std::string(QN[q]) + " Uinv*U*u==u", rat(1, 100));
  nearMat(d->UTinv, MatX(d->Uinv.transpose()), std::string(QN[q]) + " UTinv"); 
  check(F(d->UTinv.rows() == N && d->UTinv.cols() == N), "size"); }
static void invSymbolic(int q, int N) { // symbolic periods, exact inverse; every inverse entry is kept (period small enough)
  double Sd = input("S", rat(1, 20), rat(1, 2)), T = input("T", rat(1, 20), rat(1, 2)); Dirty<LD> d; build(q, Sd, T, N, *d);
  VecX u = inVec("u", N, rat(-1), rat(1));
  nearVec(VecX(d->Uinv * (d->U * u)), u, std::string(QN[q]) + " Uinv*U*u==u (symbolic periods)", rat(1, 100)); }
static int reg = [] {
  for (int q : {POS, VEL, ACC, JERK, POS2, VEL2}) for (int N : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 24, 30, 40, 50, 64}) {
    int tier = N <= 30 ? 0 : 1; addCase(S(std::string("C01/") + QN[q] + "/N", N), tier, [=] { predictCase(q, N, false); });
    if (N <= 3) addCase(S(std::string("C01/") + QN[q] + "/reused/N", N), 0, [=] { predictCase(q, N, true); }); }
  addCase("C01/updateState", 0, [] { double T = input("T", rat(1,1000), rat(5)), j = input("j", rat(-50), rat(50)); VecX x = inVec("x", 3, rat(-5), rat(5)); oracle::Axis a{x(0), x(1), x(2)}; oracle::stepJerk(a, j, T);
    VecX s = x; CJD::updateState(j, T, s); VecX e(3); e << a.p, a.v, a.a; nearVec(s, e, "state after one jerk"); });
  for (int N : {1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 30, 40}) addCase(S("C02/cop/N", N), N <= 20 ? 0 : 1, [=] { copCase(N); });
  long ps[][4] = {{1, 10, 1, 10}, {1, 1, 1, 1}, {1, 10, 1, 20}, {2, 10, 1, 50}, {1, 4, 3, 4}};
  for (int q : {POS, VEL, ACC, JERK, POS2, VEL2, COP}) for (int N : {1, 2, 3, 4, 5, 6, 8, 10, 12}) for (int k = 0; k < 5; ++k) {
    if (q == JERK && k) continue; if (q == COP && N > 5) continue;
    addCase(S(S(std::string("C02/inverse/") + QN[q] + "/N", N) + "/p", k), N <= 8 ? 0 : 1, [=] { invCase(q, N, ps[k][0], ps[k][1], ps[k][2], ps[k][3], rat(4, 5)); }); }
  for (int q : {POS, VEL, ACC}) for (int N : {1, 2, 3}) addCase(S(std::string("C02/inverse-symbolic/") + QN[q] + "/N", N), 0, [=] { invSymbolic(q, N); });
  return 0; }();
