// Exact rationals with a 64-bit fast path and a GMP fallback.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cmath>
#include <string>
#include <numeric>
namespace symx {
class Q {
  int64_t n_, d_;      // valid when big_==nullptr
  mpq_class* big_;
  static uint64_t uabs(int64_t x){ return x<0 ? uint64_t(0)-uint64_t(x) : uint64_t(x); }
  static __int128 gcd128(__int128 a, __int128 b){
    if(a<0)a=-a; if(b<0)b=-b;
    while(b){ if(a<=INT64_MAX && b<=INT64_MAX){ return (__int128)std::gcd((int64_t)a,(int64_t)b);} __int128 t=a%b;a=b;b=t;}
    return a; }
  static mpz_class z128(__int128 v){ bool neg=v<0; unsigned __int128 u=neg?-(unsigned __int128)v:(unsigned __int128)v;
    mpz_class hi((unsigned long)(u>>64)), lo((unsigned long)(u&~0ULL)); mpz_class r=(hi<<64)+lo; return neg?mpz_class(-r):r; }
  void set128(__int128 n, __int128 d){ // d>0
    if(n==0){n_=0;d_=1;return;}
    __int128 g=gcd128(n,d); n/=g; d/=g;
    if(n>=-INT64_MAX && n<=INT64_MAX && d<=INT64_MAX){ n_=(int64_t)n; d_=(int64_t)d; return; }
    big_=new mpq_class(z128(n), z128(d)); n_=0;d_=1; }
  void setbig(const mpq_class& v){
    if(v.get_num().fits_slong_p() && v.get_den().fits_slong_p() && v.get_num()!=LONG_MIN){
      n_=v.get_num().get_si(); d_=v.get_den().get_si(); }
    else { big_=new mpq_class(v); n_=0; d_=1; } }
public:
  Q():n_(0),d_(1),big_(nullptr){}
  Q(int v):n_(v),d_(1),big_(nullptr){}
  Q(long v):n_(v),d_(1),big_(nullptr){ if(v==LONG_MIN) {n_=0;big_=new mpq_class(v);} }
  Q(long n,long d):n_(0),d_(1),big_(nullptr){ if(d<0){n=-n;d=-d;} set128(n,d);}
  explicit Q(const mpq_class& v):big_(nullptr){ setbig(v); }
  Q(const Q& o):n_(o.n_),d_(o.d_),big_(o.big_?new mpq_class(*o.big_):nullptr){}
  Q(Q&& o) noexcept:n_(o.n_),d_(o.d_),big_(o.big_){o.big_=nullptr;}
  ~Q(){ delete big_; }
  Q& operator=(const Q& o){ if(this!=&o){ delete big_; n_=o.n_;d_=o.d_;big_=o.big_?new mpq_class(*o.big_):nullptr;} return *this; }
  Q& operator=(Q&& o) noexcept { std::swap(n_,o.n_);std::swap(d_,o.d_);std::swap(big_,o.big_); return *this; }
  mpq_class mp() const { if(big_) return *big_; return mpq_class(mpz_class((long)n_),mpz_class((long)d_)); }
  int sgn() const { if(big_) return ::sgn(*big_); return n_<0?-1:(n_>0?1:0); }
  bool isZero() const { return !big_ && n_==0; }
  bool isOne() const { return !big_ && n_==1 && d_==1; }
  friend Q operator+(const Q&a,const Q&b){ Q r; if(!a.big_&&!b.big_){
      if(a.d_==1&&b.d_==1){ r.set128((__int128)a.n_+b.n_,1);} else r.set128((__int128)a.n_*b.d_+(__int128)b.n_*a.d_,(__int128)a.d_*b.d_); }
    else r.setbig(a.mp()+b.mp()); return r; }
  friend Q operator-(const Q&a){ Q r; if(!a.big_){r.n_=-a.n_;r.d_=a.d_;} else r.setbig(-*a.big_); return r; }
  friend Q operator-(const Q&a,const Q&b){ return a+(-b); }
  friend Q operator*(const Q&a,const Q&b){ Q r; if(!a.big_&&!b.big_) r.set128((__int128)a.n_*b.n_,(__int128)a.d_*b.d_);
    else r.setbig(a.mp()*b.mp()); return r; }
  Q inv() const { Q r; if(!big_){ if(n_<0){r.n_=-d_;r.d_=-n_;} else {r.n_=d_;r.d_=n_;} } else r.setbig(1/ *big_); return r; }
  friend Q operator/(const Q&a,const Q&b){ return a*b.inv(); }
  friend bool operator==(const Q&a,const Q&b){ if(!a.big_&&!b.big_) return a.n_==b.n_&&a.d_==b.d_; if(!a.big_||!b.big_) return false; return *a.big_==*b.big_; }
  friend bool operator!=(const Q&a,const Q&b){ return !(a==b); }
  friend bool operator<(const Q&a,const Q&b){ if(!a.big_&&!b.big_) return (__int128)a.n_*b.d_<(__int128)b.n_*a.d_; return a.mp()<b.mp(); }
  friend bool operator>(const Q&a,const Q&b){ return b<a; }
  friend bool operator<=(const Q&a,const Q&b){ return !(b<a); }
  friend bool operator>=(const Q&a,const Q&b){ return !(a<b); }
  double toDouble() const {
    if(!big_) return (double)((long double)n_/(long double)d_);
    // correctly scaled conversion
    return big_->get_d(); }
  std::string str() const { if(!big_) return d_==1?std::to_string(n_):std::to_string(n_)+"/"+std::to_string(d_); return big_->get_str(); }
  std::string numStr() const { return big_? big_->get_num().get_str():std::to_string(n_); }
  std::string denStr() const { return big_? big_->get_den().get_str():std::to_string(d_); }
  bool isInt() const { return big_? big_->get_den()==1 : d_==1; }
  long floorl() const { mpq_class v=mp(); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),v.get_num_mpz_t(),v.get_den_mpz_t()); return z.get_si(); }
  size_t hash() const { if(!big_) return (size_t)n_*0x9E3779B97F4A7C15ULL ^ (size_t)d_*0xC2B2AE3D27D4EB4FULL; return std::hash<std::string>()(big_->get_str()); }
  bool small() const { return !big_; }
};
// simplest rational strictly within half an ulp of x (Stern-Brocot / continued fractions)
inline mpq_class simplestBetween(const mpq_class& lo,const mpq_class& hi){ // 0<=lo<hi
  mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(),lo.get_num_mpz_t(),lo.get_den_mpz_t());
  mpq_class f(fl);
  if(f>=lo && f<=hi) { return f; }
  if(f+1<=hi) return f+1;
  mpq_class a=1/(hi-f), b=1/(lo-f);
  return f+1/simplestBetween(a,b); }
inline Q fromFloating(double x, bool isFloat){
  if(x==0) return Q(0);
  bool neg=x<0; double a=std::fabs(x);
  if(a==std::floor(a) && a<9e15) return Q((long)x);
  double up,dn;
  if(isFloat){ float fx=(float)a; up=((double)fx+(double)std::nextafterf(fx,INFINITY))/2; dn=((double)fx+(double)std::nextafterf(fx,0))/2; }
  else { up=0;dn=0; }
  mpq_class v(a), lo, hi;
  if(isFloat){ lo=mpq_class(dn); hi=mpq_class(up); }
  else { mpq_class n(std::nextafter(a,INFINITY)), p(std::nextafter(a,0)); hi=(v+n)/2; lo=(v+p)/2; }
  mpq_class m=lo+(v-lo)/1000, M=hi-(hi-v)/1000;
  mpq_class r=simplestBetween(m,M); if(neg) r=-r; return Q(r); }
}
