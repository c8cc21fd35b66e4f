// Native twin of symx.h: same harness API over plain double.  Used to replay
// counterexamples and to validate the symbolic execution on concrete inputs.
#pragma once
#include <cstdio>
#include <map>
#include <string>
#include <functional>
#include <fstream>
#include <csignal>
#include <unistd.h>
namespace symx {
typedef double Sym;
struct F { bool b; F() : b(true) {} F(bool x) : b(x) {} double l = 0, r = 0; bool near = false; std::string obs; };
inline std::string obsCat(const F& a, const F& b) { return a.obs + b.obs; }
inline F operator&&(const F& a, const F& b) { F f(a.b && b.b); f.obs = obsCat(a, b); return f; }
inline F operator||(const F& a, const F& b) { F f(a.b || b.b); f.obs = obsCat(a, b); return f; }
inline F operator!(const F& a) { F f(!a.b); f.obs = a.obs; return f; }
inline F f_le(double a, double b) { return F(a <= b); } inline F f_lt(double a, double b) { return F(a < b); }
inline F f_ge(double a, double b) { return F(a >= b); } inline F f_gt(double a, double b) { return F(a > b); }
inline F f_eq(double a, double b) { return F(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b))); }
extern bool printObs;
inline F f_near(double a, double b, double tol) { F f(std::fabs(a - b) <= tol * 0.5 + 1e-11 * (std::fabs(a) + std::fabs(b))); if (printObs) { char t[96]; snprintf(t, sizeof t, "%.10g %.10g\n", a, b); f.obs = t; } return f; }
inline F f_iff(const F& a, const F& b) { F f(a.b == b.b); f.obs = obsCat(a, b); f.obs += obsCat(a, b); return f; }
inline F f_implies(const F& a, const F& b) { return !a || b; }
inline bool printObs = false; inline std::map<std::string, std::string> vals; inline bool failed = false; inline bool allObs = false;
inline double input(const std::string& n, double lo, double hi) { auto it = vals.find(n); double v = it == vals.end() ? (lo + hi) / 2 : std::atof(it->second.c_str()); if (!(v >= lo - 1e-9 && v <= hi + 1e-9)) { printf("PRECONDITION-FALSE\n"); fflush(stdout); _exit(3); } return v; }
inline int choose(const std::string& n, int k) { auto it = vals.find(n); int v = it == vals.end() ? 0 : std::atoi(it->second.c_str()); return v < 0 || v >= k ? 0 : v; }
inline void assume(const F& f) { if (!f.b) { printf("PRECONDITION-FALSE\n"); fflush(stdout); _exit(3); } }
inline void check(const F& f, const std::string& label) {
  if (printObs) { size_t i = 0; while (i < f.obs.size()) { size_t e = f.obs.find('\n', i); printf("OB %s %s\n", label.c_str(), f.obs.substr(i, e - i).c_str()); i = e + 1; } }
  if (!f.b) { failed = true; if (!allObs) { printf("NATIVE-VIOLATION %s\n", label.c_str()); fflush(stdout); _exit(1); } } }
inline bool caseSplit(const F& f, const std::string&) { return f.b; }
inline bool equivSign(double, double) { return false; } inline bool isLinear(double) { return true; }
inline void setDontCareInverse(bool) {} inline void stat(const std::string&, long = 1) {}
struct Case { std::string n; int t; std::function<void()> f; };
inline std::vector<Case>& cases() { static std::vector<Case> v; return v; }
struct CaseReg { CaseReg(const char* n, int t, std::function<void()> f) { cases().push_back({n, t, f}); } };
inline void onAbort(int) { const char m[] = "NATIVE-VIOLATION internal assertion or abort\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
inline void onSegv(int) { const char m[] = "NATIVE-VIOLATION memory fault\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
}
#ifndef SYMX_UNIT
extern "C" void* __real_malloc(size_t);
extern "C" inline __attribute__((used)) void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) memset(p, 0xFF, n); return p; }
int main(int argc, char** argv) {
  using namespace symx; signal(SIGABRT, onAbort); signal(SIGSEGV, onSegv); signal(SIGFPE, onSegv);
  if (argc < 4) return 2;
  // --replay case file | --observe case file
  printObs = allObs = std::string(argv[1]) == "--observe";
  std::ifstream in(argv[3]); std::string l; while (std::getline(in, l)) { auto e = l.find('='); if (e != std::string::npos) vals[l.substr(0, e)] = l.substr(e + 1); }
  alarm(120);
  for (auto& c : cases()) if (c.n == argv[2]) { try { c.f(); } catch (std::exception& e) { printf("NATIVE-VIOLATION exception %s\n", e.what()); return 1; } printf(failed ? "DONE-WITH-FAILURES\n" : "DONE\n"); return 0; }
  return 2; }
#endif
