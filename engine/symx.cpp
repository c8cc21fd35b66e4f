#include "symx.h"
#include <z3++.h>
#include <unordered_map>
#include <map>
#include <set>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <chrono>
#include <random>
#include <cstdlib>
#include <unistd.h>

namespace symx {
typedef double dbl;
// ------------------------------------------------------------------ tables
struct Term { int m; Q c; };
struct Poly { std::vector<Term> t; };
typedef std::vector<std::pair<int,int>> MonoV;
enum AKind { A_VAR, A_INV, A_SQRT, A_SIN, A_COS, A_PI, A_UF, A_FLOOR };
struct Atom { AKind k; std::string name; bool hasLo=false, hasHi=false; Q lo, hi; Poly arg, arg2; int other=-1; int fn=0; };
static std::vector<Atom>& atoms(){ static auto* v=new std::vector<Atom>(); return *v; }
struct MonoHash { size_t operator()(const MonoV& v) const { size_t h=1469598103934665603ULL; for(auto&p:v){ h^=p.first*31+p.second; h*=1099511628211ULL;} return h; } };
static std::vector<MonoV>& monos(){ static auto* v=new std::vector<MonoV>(1); return *v; }
static std::unordered_map<MonoV,int,MonoHash>& monoIdx(){ static auto* v=new std::unordered_map<MonoV,int,MonoHash>{{MonoV(),0}}; return *v; }
static std::unordered_map<uint64_t,int>& monoMulMemo(){ static auto* v=new std::unordered_map<uint64_t,int>(); return *v; }
static int internMono(const MonoV& v){ auto& ix=monoIdx(); auto it=ix.find(v); if(it!=ix.end()) return it->second; int id=monos().size(); monos().push_back(v); ix.emplace(v,id); return id; }
static int monoMul(int a,int b){ if(!a) return b; if(!b) return a; if(a>b) std::swap(a,b);
  uint64_t key=((uint64_t)a<<32)|(uint32_t)b; auto& memo=monoMulMemo(); auto it=memo.find(key); if(it!=memo.end()) return it->second;
  MonoV r; const MonoV x=monos()[a], y=monos()[b]; size_t i=0,j=0;
  while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first<y[j].first)) r.push_back(x[i++]);
    else if(i>=x.size()||y[j].first<x[i].first) r.push_back(y[j++]);
    else { int e=x[i].second+y[j].second; if(e) r.push_back({x[i].first,e}); ++i;++j; } }
  int id=internMono(r); memo[key]=id; return id; }
static int atomMono(int a,int e=1){ return e? internMono(MonoV{{a,e}}):0; }
// ------------------------------------------------------------------ polys
static Poly pconst(const Q& q){ Poly p; if(!q.isZero()) p.t.push_back({0,q}); return p; }
static Poly patom(int a,int e=1){ Poly p; p.t.push_back({atomMono(a,e),Q(1)}); return p; }
static Poly padd(const Poly&a,const Poly&b,int sb=1){ Poly r; r.t.reserve(a.t.size()+b.t.size()); size_t i=0,j=0;
  while(i<a.t.size()||j<b.t.size()){ if(j>=b.t.size()||(i<a.t.size()&&a.t[i].m<b.t[j].m)) r.t.push_back(a.t[i++]);
    else if(i>=a.t.size()||b.t[j].m<a.t[i].m){ r.t.push_back(b.t[j]); if(sb<0) r.t.back().c=-r.t.back().c; ++j; }
    else { Q s= sb>0? a.t[i].c+b.t[j].c : a.t[i].c-b.t[j].c; if(!s.isZero()) r.t.push_back({a.t[i].m,s}); ++i;++j; } }
  return r; }
static Poly pscale(const Poly&a,const Q&q){ Poly r; if(q.isZero()) return r; r.t.reserve(a.t.size()); for(auto&t:a.t) r.t.push_back({t.m,t.c*q}); return r; }
static Poly pnorm(std::unordered_map<int,Q>& acc){ Poly r; r.t.reserve(acc.size()); for(auto&kv:acc) if(!kv.second.isZero()) r.t.push_back({kv.first,kv.second});
  std::sort(r.t.begin(),r.t.end(),[](const Term&x,const Term&y){return x.m<y.m;}); return r; }
static Poly pmul(const Poly&a,const Poly&b){ if(a.t.empty()||b.t.empty()) return Poly();
  if(a.t.size()==1&&a.t[0].m==0) return pscale(b,a.t[0].c); if(b.t.size()==1&&b.t[0].m==0) return pscale(a,b.t[0].c);
  std::unordered_map<int,Q> acc; acc.reserve(a.t.size()*b.t.size());
  for(auto&x:a.t) for(auto&y:b.t){ int m=monoMul(x.m,y.m); auto it=acc.find(m); if(it==acc.end()) acc.emplace(m,x.c*y.c); else it->second=it->second+x.c*y.c; }
  return pnorm(acc); }
static bool pIsConst(const Poly&p){ return p.t.empty()||(p.t.size()==1&&p.t[0].m==0); }
static Q pConst(const Poly&p){ return p.t.empty()?Q(0):p.t[0].c; }
static bool peq(const Poly&a,const Poly&b){ if(a.t.size()!=b.t.size()) return false; for(size_t i=0;i<a.t.size();++i) if(a.t[i].m!=b.t[i].m||a.t[i].c!=b.t[i].c) return false; return true; }
static std::string pkey(const Poly&p){ std::string s; for(auto&t:p.t){ s+=std::to_string(t.m); s+=':'; s+=t.c.str(); s+=';'; } return s; }
static Poly ppow(const Poly&a,int n){ Poly r=pconst(Q(1)); for(int i=0;i<n;++i) r=pmul(r,a); return r; }
static std::string pstr(const Poly&p);
static std::string mstr(int m){ std::string s; for(auto&pr:monos()[m]){ if(!s.empty()) s+="*"; s+=atoms()[pr.first].name; if(pr.second!=1) s+="^"+std::to_string(pr.second); } return s; }
static std::string pstr(const Poly&p){ if(p.t.empty()) return "0"; std::string s; for(auto&t:p.t){ if(!s.empty()) s+=" + "; s+=t.c.str(); if(t.m) s+="*"+mstr(t.m); if(s.size()>600){ s+="..."; break; } } return s; }
// ------------------------------------------------------------------ nodes
static Node mkStatic(Kind k){ Node n; n.rc=1<<30; n.kind=k; n.p=nullptr; return n; }
static Node uninitNode=mkStatic(K_UNINIT), nanNode=mkStatic(K_NAN), dcNode=mkStatic(K_DONTCARE);
Node* const UNINIT_NODE=&uninitNode;
Node* mkConst(const Q&q){ Node* n=new Node{1,K_CONST,q,nullptr}; return n; }
void freeNode(Node*n){ if(n==&uninitNode||n==&nanNode||n==&dcNode){ n->rc=1<<30; return; } delete n->p; delete n; }
static Sym spec(Node*n){ ++n->rc; return Sym(Rep(n)); }
Sym nanSym(){ return spec(&nanNode);} Sym dontCare(){ return spec(&dcNode);} Sym uninitSym(){ return spec(&uninitNode);}
static Sym mk(Poly&&p){ if(pIsConst(p)) return Sym(pConst(p)); return Sym(Rep(new Node{1,K_POLY,Q(),new Poly(std::move(p))})); }
static Poly toPoly(const Sym&s){ if(s.isConst()) return pconst(s.cst()); return *s.r.n->p; }
static const Q& fromDouble(double v){ static std::unordered_map<double,Q> memo; auto it=memo.find(v); if(it==memo.end()){ if(memo.size()>100000) memo.clear(); it=memo.emplace(v,fromFloating(v,false)).first; } return it->second; }
Sym::Sym(float v): r(nullptr){ if(std::isnan(v)) *this=nanSym(); else if(v!=0) r=Rep(mkConst(fromFloating(v,true))); }
Sym::Sym(double v): r(nullptr){ if(std::isnan(v)) *this=nanSym(); else if(v!=0){ if(std::isinf(v)) v=v>0?1e300:-1e300; r=Rep(mkConst(fromDouble(v))); } }
static bool special(const Sym&a,const Sym&b,Sym&out){ Kind x=a.kind(),y=b.kind(); if(x<=K_POLY&&y<=K_POLY) return false;
  if(x==K_UNINIT||y==K_UNINIT) out=uninitSym(); else if(x==K_DONTCARE||y==K_DONTCARE) out=dontCare(); else out=nanSym(); return true; }
Sym operator+(const Sym&a,const Sym&b){ if(!a.r.n) return b; if(!b.r.n) return a; Sym o(0); if(special(a,b,o)) return o;
  if(a.isConst()&&b.isConst()) return Sym(a.cst()+b.cst()); return mk(padd(toPoly(a),toPoly(b))); }
Sym operator-(const Sym&a,const Sym&b){ if(!b.r.n) return a; Sym o(0); if(special(a,b,o)) return o;
  if(a.isConst()&&b.isConst()) return Sym(a.cst()-b.cst()); return mk(padd(toPoly(a),toPoly(b),-1)); }
Sym operator-(const Sym&a){ return Sym(0)-a; }
Sym operator*(const Sym&a,const Sym&b){ Sym o(0); if(special(a,b,o)) return o; if(!a.r.n||!b.r.n) return Sym(0);
  if(a.isConst()&&b.isConst()) return Sym(a.cst()*b.cst()); return mk(pmul(toPoly(a),toPoly(b))); }
Sym& Sym::operator+=(const Sym&o){ *this=*this+o; return *this; } Sym& Sym::operator-=(const Sym&o){ *this=*this-o; return *this; }
Sym& Sym::operator*=(const Sym&o){ *this=*this*o; return *this; } Sym& Sym::operator/=(const Sym&o){ *this=*this/o; return *this; }
// ------------------------------------------------------------------ formulas
enum FK { F_CONST, F_ATOM, F_NEAR, F_AND, F_OR, F_NOT };
// F_ATOM: sign(p) in mask ; F_NEAR: |a-b|<=tol with both polys kept
struct ZCache;
struct FNode { FK k; bool b=true; Poly p, q, tol; unsigned mask=0; FP x,y; std::shared_ptr<ZCache> zc; };
typedef std::map<int,Q> WitM; typedef std::shared_ptr<WitM> Wit;   // exact model of the path condition
enum { NEG=1, ZERO=2, POS=4 };
F::F():p(nullptr){ static FP t; if(!t){ t=std::make_shared<FNode>(); t->k=F_CONST; t->b=true; } p=t; }
F::F(bool b){ auto n=std::make_shared<FNode>(); n->k=F_CONST; n->b=b; p=n; }
F operator&&(const F&a,const F&b){ if(a.p->k==F_CONST) return a.p->b?b:a; if(b.p->k==F_CONST) return b.p->b?a:b; auto n=std::make_shared<FNode>(); n->k=F_AND;n->x=a.p;n->y=b.p; return F(FP(n)); }
F operator||(const F&a,const F&b){ if(a.p->k==F_CONST) return a.p->b?a:b; if(b.p->k==F_CONST) return b.p->b?b:a; auto n=std::make_shared<FNode>(); n->k=F_OR;n->x=a.p;n->y=b.p; return F(FP(n)); }
F operator!(const F&a){ if(a.p->k==F_CONST) return F(!a.p->b); if(a.p->k==F_NOT) return F(a.p->x); auto n=std::make_shared<FNode>(); n->k=F_NOT;n->x=a.p; return F(FP(n)); }
F f_implies(const F&a,const F&b){ return !a||b; }
F f_iff(const F&a,const F&b){ return (a&&b)||(!a&&!b); }

// ------------------------------------------------------------------ engine state
struct TrailE { int val; std::vector<int> alts; std::string name; bool forced; Wit wit, altWit; };
struct Ob { FP f; std::string label; };
struct PathState {
  std::vector<FP> pc; std::unordered_map<std::string,unsigned> mask; std::map<int,int> asign;
  std::vector<Ob> obs; std::map<std::string,int> choices; std::set<std::string> labels; Wit wit;
};
struct PathKilled {};
static std::vector<TrailE> trail; static size_t tpos; static PathState ps; static jmp_buf pathJmp; static bool inPath=false;
static std::map<std::string,int> varIds; static std::vector<int> varOrder;
static bool dcInverse=false;
static int TIMEOUT_MS=20000;
static std::map<std::string,long> stats;
static double solverMs=0; static long queries=0; static bool inconclusive=false; static std::string inconclusiveWhy;
static bool concreteMode=false; static std::map<std::string,std::string> concreteVals; static bool printObs=false;
void stat(const std::string&k,long a){ stats[k]+=a; }
void setDontCareInverse(bool b){ dcInverse=b; } bool dontCareInverse(){ return dcInverse; }
[[noreturn]] static void abandon(){ longjmp(pathJmp,2); }
static void incon(const std::string&w){ if(!inconclusive){ inconclusive=true; inconclusiveWhy=w; } }

static z3::context& Z(){ static auto* c=new z3::context(); return *c; }
static std::vector<Z3_ast>& dummy(){ static std::vector<Z3_ast> v; return v; }
static std::unordered_map<int,z3::expr>& zAtom(){ static auto* m=new std::unordered_map<int,z3::expr>(); return *m; }
static std::unordered_map<int,z3::expr>& zMono(){ static auto* m=new std::unordered_map<int,z3::expr>(); return *m; }
static z3::expr za(int a){ auto& m=zAtom(); auto it=m.find(a); if(it!=m.end()) return it->second; z3::expr e=Z().real_const(("a"+std::to_string(a)+"_"+atoms()[a].name.substr(0,40)).c_str()); m.emplace(a,e); return e; }
static z3::expr zq(const Q&q){ return Z().real_val(q.str().c_str()); }
static z3::expr zm(int m){ auto& mm=zMono(); auto it=mm.find(m); if(it!=mm.end()) return it->second; z3::expr_vector v(Z()); 
  for(auto&p:monos()[m]) for(int i=0;i<p.second;++i) v.push_back(za(p.first));
  z3::expr e = v.size()==0? Z().real_val(1) : v[0]; if(v.size()>1){ std::vector<Z3_ast> as; for(unsigned i=0;i<v.size();++i) as.push_back(v[i]); e=z3::expr(Z(),Z3_mk_mul(Z(),as.size(),as.data())); }
  mm.emplace(m,e); return e; }
static z3::expr zp(const Poly&p){ if(p.t.empty()) return Z().real_val(0); z3::expr_vector v(Z()); for(auto&t:p.t) v.push_back(t.m? (t.c.isOne()? zm(t.m): zq(t.c)*zm(t.m)) : zq(t.c)); return z3::sum(v); }

static bool atomInterval(int a,bool&hl,Q&lo,bool&hh,Q&hi){ auto&A=atoms()[a]; hl=A.hasLo;hh=A.hasHi;lo=A.lo;hi=A.hi; return true; }
static int atomSign(int a){ auto it=ps.asign.find(a); if(it!=ps.asign.end()) return it->second; auto&A=atoms()[a]; if(A.hasLo&&A.lo.sgn()>0) return 1; if(A.hasHi&&A.hi.sgn()<0) return -1; return 0; }

// reduce trig / sqrt powers, clear denominators with a positive multiplier; result has only non-negative exponents
static Poly reduceAtoms(const Poly&p0){ Poly p=p0; for(int guard=0;guard<64;++guard){ bool changed=false; std::unordered_map<int,Q> acc; std::vector<Poly> extra;
    for(auto&t:p.t){ const MonoV mv=monos()[t.m]; bool hit=false; for(auto&pr:mv){ auto k=atoms()[pr.first].k; if((k==A_SIN||k==A_SQRT)&&pr.second>=2){ MonoV rest; for(auto&q:mv){ if(q.first==pr.first){ if(q.second-2) rest.push_back({q.first,q.second-2}); } else rest.push_back(q); }
            Poly f; f.t.push_back({internMono(rest),t.c}); Poly rep= k==A_SIN? padd(pconst(Q(1)),patom(atoms()[pr.first].other,2),-1) : atoms()[pr.first].arg; extra.push_back(pmul(f,rep)); hit=true; break; } }
      if(hit) changed=true; else acc.emplace(t.m,t.c); }
    if(!changed) return p; p=pnorm(acc); for(auto&e:extra) p=padd(p,e); }
  return p; }
static Poly clearDen(const Poly&p0){ Poly p=p0; for(int guard=0;guard<200;++guard){ int inv=-1; 
    for(auto&t:p.t){ for(auto&pr:monos()[t.m]) if(atoms()[pr.first].k==A_INV){ if(inv<pr.first) inv=pr.first; } }
    if(inv<0) break; int K=0; for(auto&t:p.t) for(auto&pr:monos()[t.m]) if(pr.first==inv) K=std::max(K,pr.second);
    int sg=atomSign(inv); if(sg==0){ sg=1; if(K%2) ++K; } Poly D=atoms()[inv].arg; if(sg<0) D=pscale(D,Q(-1));
    std::map<int,Poly> byE; for(auto&t:p.t){ MonoV rest; int e=0; for(auto&q:monos()[t.m]){ if(q.first==inv) e=q.second; else rest.push_back(q);} Poly f; f.t.push_back({internMono(rest),t.c}); byE[e]=padd(byE[e],f); }
    Poly r; for(auto&kv:byE){ Poly f=pmul(kv.second,ppow(D,K-kv.first)); if(sg<0&&(kv.first%2)) f=pscale(f,Q(-1)); r=padd(r,f); } p=r; }
  // negative exponents
  std::map<int,int> mn; for(auto&t:p.t) for(auto&pr:monos()[t.m]) if(pr.second<0){ int&e=mn[pr.first]; e=std::min(e,pr.second); }
  if(!mn.empty()){ MonoV mv; Q s(1); for(auto&kv:mn){ int e=-kv.second; int sg=atomSign(kv.first); if(sg==0&&e%2) ++e; if(sg<0&&e%2) s=-s; mv.push_back({kv.first,e}); } Poly f; f.t.push_back({internMono(mv),s}); p=pmul(p,f); }
  return reduceAtoms(p); }
// canonical primitive part; returns flip sign
static Poly canon(const Poly&p0,int&flip){ Poly p=clearDen(p0); flip=1; if(p.t.empty()||pIsConst(p)) return p;
  // common monomial factor with known sign
  std::map<int,int> mn; bool first=true; for(auto&t:p.t){ std::map<int,int> cur; for(auto&pr:monos()[t.m]) cur[pr.first]=pr.second; if(first){ mn=cur; first=false; } else { for(auto it=mn.begin();it!=mn.end();){ auto f=cur.find(it->first); if(f==cur.end()) it=mn.erase(it); else { it->second=std::min(it->second,f->second); ++it; } } } }
  MonoV mv; for(auto&kv:mn){ int sg=atomSign(kv.first); if(sg==0) continue; if(sg<0&&kv.second%2) flip=-flip; mv.push_back({kv.first,-kv.second}); }
  if(!mv.empty()){ Poly f; f.t.push_back({internMono(mv),Q(1)}); p=pmul(p,f); if(pIsConst(p)){ if(flip<0) p=pscale(p,Q(-1)); flip=1; return p; } }
  Q lead=p.t.back().c; if(lead.sgn()<0) flip=-flip; Q s=lead.inv(); p=pscale(p,s); return p; }
static unsigned flipMask(unsigned m){ return (m&ZERO)|((m&NEG)?POS:0)|((m&POS)?NEG:0); }
static unsigned constMask(const Q&q){ int s=q.sgn(); return s<0?NEG:(s>0?POS:ZERO); }

// interval evaluation
struct IV { bool hl,hh; Q lo,hi; };
static IV ivMul(const IV&a,const IV&b){ IV r; if(a.hl&&a.hh&&b.hl&&b.hh){ Q v[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi}; r.hl=r.hh=true; r.lo=r.hi=v[0]; for(int i=1;i<4;++i){ if(v[i]<r.lo) r.lo=v[i]; if(v[i]>r.hi) r.hi=v[i]; } return r; }
  // only handle both >=0 lower bounded
  if(a.hl&&b.hl&&a.lo.sgn()>=0&&b.lo.sgn()>=0){ r.hl=true; r.lo=a.lo*b.lo; r.hh=false; return r; }
  r.hl=r.hh=false; return r; }
static IV ivMono(int m){ IV r{true,true,Q(1),Q(1)}; for(auto&pr:monos()[m]){ IV a; atomInterval(pr.first,a.hl,a.lo,a.hh,a.hi); int sg=atomSign(pr.first); if(sg>0&&!(a.hl&&a.lo.sgn()>0)){ a.hl=true; if(!(a.lo.sgn()>0)) a.lo=Q(0);} if(sg<0&&!(a.hh&&a.hi.sgn()<0)){ a.hh=true; a.hi=Q(0);} 
    int e=pr.second; if(e<0){ if(a.hl&&a.hh&&(a.lo.sgn()>0||a.hi.sgn()<0)){ IV b{true,true,a.hi.inv(),a.lo.inv()}; a=b; e=-e; } else return IV{false,false,Q(),Q()}; } IV x{true,true,Q(1),Q(1)};
    if(e%2==0&&a.hl&&a.hh){ Q l=a.lo.sgn()<0?-a.lo:a.lo, h=a.hi.sgn()<0?-a.hi:a.hi; Q mx=l<h?h:l, mnv=(a.lo.sgn()<=0&&a.hi.sgn()>=0)?Q(0):(l<h?l:h); Q pl(1),ph(1); for(int i=0;i<e;++i){pl=pl*mnv;ph=ph*mx;} x={true,true,pl,ph}; }
    else if(e%2==0){ x={true,false,Q(0),Q()}; }
    else for(int i=0;i<e;++i) x=ivMul(x,a);
    r=ivMul(r,x); }
  return r; }
static unsigned ivMask(const Poly&p){ IV s{true,true,Q(0),Q(0)}; bool strictLo=false; for(auto&t:p.t){ IV m=ivMono(t.m); if(t.c.sgn()<0){ std::swap(m.hl,m.hh); std::swap(m.lo,m.hi); }
    if(m.hl&&s.hl) s.lo=s.lo+m.lo*t.c; else s.hl=false; if(m.hh&&s.hh) s.hi=s.hi+m.hi*t.c; else s.hh=false; if(!s.hl&&!s.hh) return 7; }
  (void)strictLo; unsigned r=7; if(s.hl){ if(s.lo.sgn()>0) r&=POS; else if(s.lo.sgn()==0) r&=(POS|ZERO);} if(s.hh){ if(s.hi.sgn()<0) r&=NEG; else if(s.hi.sgn()==0) r&=(NEG|ZERO);} return r; }

// z3 formula of "sign(canonical p) in mask"
static z3::expr zAtomF(const Poly&p,unsigned mask){ Z3_context c=Z(); (void)c; if(mask==7) return Z().bool_val(true); if(mask==0) return Z().bool_val(false);
  if(pIsConst(p)) return Z().bool_val((constMask(pConst(p))&mask)!=0);
  z3::expr e=zp(p), z=Z().real_val(0); switch(mask){ case NEG: return e<z; case ZERO: return e==z; case POS: return e>z; case NEG|ZERO: return e<=z; case POS|ZERO: return e>=z; default: return e!=z; } }
static void polyAtoms(const Poly&p,std::set<int>&s){ for(auto&t:p.t) for(auto&pr:monos()[t.m]) s.insert(pr.first); }
struct ZB { std::set<int> at; bool nonlinear=false; void see(const Poly&p){ polyAtoms(p,at); for(auto&t:p.t){ int d=0; for(auto&pr:monos()[t.m]) d+=pr.second; if(d>1) nonlinear=true; } } };
struct ZCache { z3::expr e; ZB zb; };
static z3::expr zf0(const FP&f,ZB&zb);
static z3::expr zf(const FP&f,ZB&zb){ if(f->k==F_CONST) return Z().bool_val(f->b); if(!f->zc){ ZB b; z3::expr e=zf0(f,b); f->zc.reset(new ZCache{e,b}); } zb.at.insert(f->zc->zb.at.begin(),f->zc->zb.at.end()); zb.nonlinear|=f->zc->zb.nonlinear; return f->zc->e; }
static z3::expr zf0(const FP&f,ZB&zb){ switch(f->k){ case F_CONST: return Z().bool_val(f->b);
    case F_ATOM: { int fl; Poly p=canon(f->p,fl); unsigned m=fl<0?flipMask(f->mask):f->mask; zb.see(p); return zAtomF(p,m); }
    case F_NEAR: { Poly d=padd(f->p,f->q,-1); Poly d0=clearDen(d); if(d0.t.empty()){ Poly a=clearDen(f->p), b=clearDen(f->q); zb.see(a); zb.see(b); if(f->tol.t.empty()||true) return zp(a)==zp(a); }
        Poly u=clearDen(padd(d,f->tol,-1)), v=clearDen(padd(d,f->tol)); zb.see(u); zb.see(v); return zAtomF(u,NEG|ZERO)&&zAtomF(v,POS|ZERO); }
    case F_AND: { z3::expr a=zf(f->x,zb); return a&&zf(f->y,zb); }
    case F_OR: { z3::expr a=zf(f->x,zb); return a||zf(f->y,zb); }
    case F_NOT: return !zf(f->x,zb); }
  return Z().bool_val(true); }
static void addAxioms(ZB&zb,z3::expr_vector&out){ std::set<int> done; std::vector<int> work(zb.at.begin(),zb.at.end()); while(!work.empty()){ int a=work.back(); work.pop_back(); if(!done.insert(a).second) continue; Atom&A=atoms()[a];
    if(A.hasLo) out.push_back(za(a)>=zq(A.lo)); if(A.hasHi) out.push_back(za(a)<=zq(A.hi));
    if(A.k==A_SQRT){ Poly d=clearDen(padd(patom(a,1),Poly())); (void)d; Poly e=clearDen(A.arg); // r*r*den == num handled when arg is polynomial
      Poly lhs; lhs.t.push_back({atomMono(a,2),Q(1)}); bool poly=true; for(auto&t:A.arg.t) for(auto&pr:monos()[t.m]) if(pr.second<0||atoms()[pr.first].k==A_INV) poly=false;
      if(poly){ out.push_back(zm(atomMono(a,2))==zp(A.arg)); zb.nonlinear=true; std::set<int> s; polyAtoms(A.arg,s); for(int x:s) work.push_back(x);} }
    if(A.k==A_SIN||A.k==A_COS){ int o=A.other; out.push_back(zm(atomMono(a,2))+zm(atomMono(o,2))==1); zb.nonlinear=true; work.push_back(o); }
    if(A.k==A_FLOOR){ /* value is constrained on the path when created */ } }
  zb.at=done; }
enum R3 { UNSAT, SAT, UNKNOWN };
static R3 zcheck(z3::expr_vector&cs,ZB&zb,std::unique_ptr<z3::model>*mdl,int timeoutMs){ addAxioms(zb,cs); z3::solver s(Z(), zb.nonlinear?"QF_NRA":"QF_LRA"); z3::params p(Z()); p.set("timeout",(unsigned)timeoutMs); s.set(p);
  for(unsigned i=0;i<cs.size();++i) s.add(cs[i]); auto t0=std::chrono::steady_clock::now(); ++queries; z3::check_result r=z3::unknown; try { r=s.check(); } catch(z3::exception&e){ r=z3::unknown; }
  solverMs+=std::chrono::duration<double,std::milli>(std::chrono::steady_clock::now()-t0).count();
  if(r==z3::sat&&mdl) mdl->reset(new z3::model(s.get_model())); return r==z3::sat?SAT:(r==z3::unsat?UNSAT:UNKNOWN); }
static FP atomF(const Poly&p,unsigned mask){ auto n=std::make_shared<FNode>(); n->k=F_ATOM; n->p=p; n->mask=mask; return n; }
// exact evaluation at a rational point
static bool evQ(const Poly&p,const WitM&w,Q&out,int depth=0){ if(depth>8) return false; Q s(0); for(auto&t:p.t){ Q m=t.c; for(auto&pr:monos()[t.m]){ Q x; const Atom&A=atoms()[pr.first]; if(A.k==A_VAR){ auto it=w.find(pr.first); if(it==w.end()) return false; x=it->second; } else if(A.k==A_INV){ Poly arg=A.arg; if(!evQ(arg,w,x,depth+1)||x.isZero()) return false; x=x.inv(); } else return false; int e=pr.second; if(e<0){ if(x.isZero()) return false; x=x.inv(); e=-e; } for(int i=0;i<e;++i) m=m*x; } s=s+m; } out=s; return true; }
static int evFQ(const FP&f,const WitM&w){ switch(f->k){ case F_CONST: return f->b; case F_ATOM: { Q v; if(!evQ(f->p,w,v)) return -1; return (constMask(v)&f->mask)?1:0; } case F_NEAR: { Q a,b,t; if(!evQ(f->p,w,a)||!evQ(f->q,w,b)||!evQ(f->tol,w,t)) return -1; Q d=a-b; if(d.sgn()<0) d=-d; return d<=t; } case F_AND: { int x=evFQ(f->x,w); if(x==0) return 0; int y=evFQ(f->y,w); return y==0?0:(x<0||y<0)?-1:1; } case F_OR: { int x=evFQ(f->x,w); if(x==1) return 1; int y=evFQ(f->y,w); return y==1?1:(x<0||y<0)?-1:0; } case F_NOT: { int x=evFQ(f->x,w); return x<0?-1:!x; } } return -1; }
static Wit witOf(z3::model&m){ Wit w(new WitM); for(int id:varOrder){ z3::expr e=m.eval(za(id),true); if(!e.is_numeral()) return nullptr; mpq_class q; try { q=mpq_class(Z3_get_numeral_string(Z(),e)); } catch(std::exception&) { return nullptr; } q.canonicalize(); if(mpz_sizeinbase(q.get_den_mpz_t(),2)+mpz_sizeinbase(q.get_num_mpz_t(),2)>400) return nullptr; Q v(q); const Atom&A=atoms()[id]; if(v<A.lo||v>A.hi) v=A.lo; (*w)[id]=v; } return w; }
// is pc && extra satisfiable?  A known model of pc, the linear part of pc and the full problem are tried in turn.
static R3 satWith(const FP&extra,Wit&w){ w=nullptr; if(ps.wit){ WitM cand=*ps.wit; for(int id:varOrder) if(!cand.count(id)){ const Atom&A=atoms()[id]; cand[id]=(A.lo+A.hi)*Q(1,2); } if(evFQ(extra,cand)==1){ stat("decided_by_known_model"); w.reset(new WitM(cand)); return SAT; } }
  ZB ze; z3::expr ee=zf(extra,ze);
  bool allLin=!ze.nonlinear; for(auto&f:ps.pc){ ZB t; zf(f,t); if(t.nonlinear) allLin=false; }
  if(!allLin&&!ze.nonlinear){ z3::expr_vector cs(Z()); ZB zb=ze; cs.push_back(ee); for(auto&f:ps.pc){ ZB t; z3::expr e=zf(f,t); if(!t.nonlinear){ cs.push_back(e); zb.at.insert(t.at.begin(),t.at.end()); } } bool trig=false; for(int a:zb.at) if(atoms()[a].k!=A_VAR) trig=true; if(!trig){ std::unique_ptr<z3::model> m; R3 r=zcheck(cs,zb,&m,2000); if(r==UNSAT) return UNSAT; if(r==SAT){ Wit c=witOf(*m); if(c){ bool ok=true; for(auto&f:ps.pc) if(evFQ(f,*c)!=1){ ok=false; break; } if(ok&&evFQ(extra,*c)==1){ w=c; return SAT; } } } } }
  z3::expr_vector cs(Z()); ZB zb; for(auto&f:ps.pc) cs.push_back(zf(f,zb)); cs.push_back(zf(extra,zb)); std::unique_ptr<z3::model> m; R3 r=zcheck(cs,zb,&m,std::min(TIMEOUT_MS,5000)); if(r==SAT){ Wit c=witOf(*m); if(c){ bool ok=evFQ(extra,*c)==1; for(auto&f:ps.pc) if(ok&&evFQ(f,*c)!=1) ok=false; if(ok) w=c; } } return r; }


static bool decide(const Poly&p0,unsigned rel);
// Differences of angles (atan2 atoms, pi, 0) are compared exactly through the
// half-plane of each direction and the sign of their cross product; a constant
// offset of at most 1e-3 only breaks ties ("distinct angles differ by more than
// the tolerances of the code", see DESIGN.md).  2: not of that form.
struct Ang { bool isAtan; int cls; const Poly*y; const Poly*x; };
static int angClass(Ang&a){ if(!a.isAtan) return a.cls; if(a.cls>=0) return a.cls; if(decide(*a.y,NEG)) return a.cls=1; if(decide(*a.y,POS)) return a.cls=3; return a.cls= decide(*a.x,NEG)?4:2; }
static int angleSign(const Poly&p){ bool any=false; for(auto&t:p.t) for(auto&pr:monos()[t.m]) if(atoms()[pr.first].k==A_UF&&atoms()[pr.first].fn==9) any=true; if(!any) return 2;
  std::vector<std::pair<int,Q>> as; Q k(0); for(auto&t:p.t){ if(!t.m){ k=t.c; continue; } const MonoV&mv=monos()[t.m]; if(mv.size()!=1||mv[0].second!=1) return 2; Atom&A=atoms()[mv[0].first]; if(!(A.k==A_PI||(A.k==A_UF&&A.fn==9))) return 2; as.push_back({mv[0].first,t.c}); }
  if(as.size()>2) return 2; Q sc=as[0].second.sgn()<0? -as[0].second:as[0].second; k=k/sc; for(auto&a:as){ a.second=a.second/sc; if(!(a.second==Q(1)||a.second==Q(-1))) return 2; }
  Q ka=k.sgn()<0?-k:k; if(!(ka<=Q(1,1000))) return 2; std::vector<Poly> keep; keep.reserve(4);
  auto mkA=[&](int a)->Ang{ if(atoms()[a].k==A_PI) return Ang{false,4,nullptr,nullptr}; keep.push_back(atoms()[a].arg); const Poly*y=&keep.back(); keep.push_back(atoms()[a].arg2); return Ang{true,-1,y,&keep.back()}; };
  if(as.size()==2&&atoms()[as[0].first].k==A_PI) std::swap(as[0],as[1]);
  int flip=as[0].second.sgn(); Ang A=mkA(as[0].first), B{false,2,nullptr,nullptr};
  if(as.size()==2){ bool same=as[1].second.sgn()==flip; if(same){ if(atoms()[as[1].first].k!=A_PI) return 2; B.cls=0; } else B=mkA(as[1].first); }
  int ca=angClass(A), cb=angClass(B), s; if(ca!=cb) s=ca<cb?-1:1; else if(ca==1||ca==3){ Poly cr=padd(pmul(*B.x,*A.y),pmul(*B.y,*A.x),-1); s= decide(cr,POS)?1: decide(cr,NEG)?-1:0; } else s=0;
  stat("angle_comparisons"); return s? s*flip : k.sgn(); }
// c1*sqrt(a) - c2*sqrt(b) with c1,c2>0: compare c1^2 a and c2^2 b
static bool sqrtDiff(const Poly&p,Poly&out){ if(p.t.size()!=2) return false; int id[2]; for(int i=0;i<2;++i){ const MonoV&mv=monos()[p.t[i].m]; if(mv.size()!=1||mv[0].second!=1||atoms()[mv[0].first].k!=A_SQRT) return false; id[i]=mv[0].first; }
  if(p.t[0].c.sgn()==p.t[1].c.sgn()) return false; int pi=p.t[0].c.sgn()>0?0:1; Q a=p.t[pi].c, b=p.t[1-pi].c; out=padd(pscale(atoms()[id[pi]].arg,a*a),pscale(atoms()[id[1-pi]].arg,b*b),-1); return true; }
// decide "sign(p) in rel"
static const bool traceForks=getenv("SYMX_TRACE")!=nullptr; // developer aid
static bool decide(const Poly&p0,unsigned rel){
  { int s=angleSign(p0); if(s!=2) return (rel&(s<0?NEG:s>0?POS:ZERO))!=0; Poly sq; if(sqrtDiff(p0,sq)) return decide(sq,rel); }
  int fl; Poly p=canon(p0,fl); if(fl<0) rel=flipMask(rel);
  if(pIsConst(p)) return (constMask(pConst(p))&rel)!=0;
  std::string key=pkey(p); unsigned m=7; auto it=ps.mask.find(key); if(it!=ps.mask.end()) m=it->second; else { m=ivMask(p); ps.mask[key]=m; }
  if((m&~rel)==0) return true; if((m&rel)==0) return false;
  if(!inPath){ std::cerr<<"symx: decision outside a case\n"; abort(); }
  bool val, forced; stat("decisions");
  if(tpos<trail.size()){ val=trail[tpos].val; forced=trail[tpos].forced; if(!forced) ps.wit=trail[tpos].wit; ++tpos; }
  else {
    Wit wt,wf; R3 t=satWith(atomF(p,m&rel),wt); R3 f= t==UNSAT? SAT : satWith(atomF(p,m&~rel),wf);
    if(t==UNSAT&&f==UNSAT) abandon();
    if(t==UNKNOWN||f==UNKNOWN) stat("unknown_feasibility");
    TrailE e; e.forced=(t==UNSAT||f==UNSAT); e.val=t!=UNSAT; if(!e.forced){ e.alts.push_back(0); ps.wit=e.wit=wt; e.altWit=wf; if(traceForks) std::cerr<<"fork "<<pstr(p).substr(0,300)<<"\n"; } val=e.val; forced=e.forced; trail.push_back(e); ++tpos; }
  unsigned nm= val? (m&rel):(m&~rel); ps.mask[key]=nm; if(!forced) ps.pc.push_back(atomF(p,nm));
  return val; }
int choose(const std::string&name,int n){ int v; if(concreteMode){ auto it=concreteVals.find(name); v= it==concreteVals.end()?0:std::atoi(it->second.c_str()); if(v<0||v>=n) v=0; return v; }
  stat("decisions");
  if(tpos<trail.size()) v=trail[tpos++].val; else { TrailE e; e.val=0; e.forced=false; e.name=name; for(int i=n-1;i>=1;--i) e.alts.push_back(i); trail.push_back(e); ++tpos; v=0; }
  ps.choices[name]=v; return v; }
void cut(){ abandon(); }
static bool uninitUsed(const Sym&a,const Sym&b){ return a.kind()==K_UNINIT||b.kind()==K_UNINIT; }
static bool cmp(const Sym&a,const Sym&b,unsigned rel){ // a-b sign in rel
  if(a.isConst()&&b.isConst()){ Q d=a.cst()-b.cst(); return (constMask(d)&rel)!=0; }
  if(uninitUsed(a,b)) internalFailure("uninitialised value decides a branch","comparison","",0);
  if(a.kind()==K_DONTCARE||b.kind()==K_DONTCARE){ stat("dontcare_comparisons"); return false; }
  if(a.kind()==K_NAN||b.kind()==K_NAN) return rel==(NEG|POS);
  return decide(padd(toPoly(a),toPoly(b),-1),rel); }
bool operator<(const Sym&a,const Sym&b){ return cmp(a,b,NEG);} bool operator>(const Sym&a,const Sym&b){ return cmp(a,b,POS);} 
bool operator<=(const Sym&a,const Sym&b){ return cmp(a,b,NEG|ZERO);} bool operator>=(const Sym&a,const Sym&b){ return cmp(a,b,POS|ZERO);} 
bool operator==(const Sym&a,const Sym&b){ return cmp(a,b,ZERO);} bool operator!=(const Sym&a,const Sym&b){ return cmp(a,b,NEG|POS);} 
Sym::operator bool() const { return *this!=Sym(0); }
Sym::operator long() const { if(isConst()){ Q q=cst(); return q.sgn()>=0? q.floorl() : -((-q).floorl()); }
  if(kind()!=K_POLY) { internalFailure("conversion of a non-finite or uninitialised value to an integer","int","",0); }
  Poly p=toPoly(*this); IV s{true,true,Q(0),Q(0)}; Poly c=p; for(auto&t:c.t){ IV m=ivMono(t.m); if(!m.hl||!m.hh){ incon("int conversion of unbounded value"); abandon(); } if(t.c.sgn()<0) std::swap(m.lo,m.hi); s.lo=s.lo+m.lo*t.c; s.hi=s.hi+m.hi*t.c; }
  long lo=s.lo.floorl(), hi=s.hi.floorl(); if(hi-lo>64){ incon("int conversion range too wide"); abandon(); }
  for(long k=lo;k<hi;++k) { if(*this<Sym(k+1)) { return k>=0? k : (*this==Sym(k)?k:k+1); } } return hi>=0?hi:(*this==Sym(hi)?hi:hi+1); }
Sym::operator int() const { return (int)(long)*this; }
Sym::operator float() const { if(isConst()) return (float)cst().toDouble(); incon("conversion of a symbolic value to float"); abandon(); }
Sym floor(const Sym&a){ if(a.isConst()) return Sym(Q(a.cst().floorl())); long k=(long)a; Sym s(k); if(a<s) s=s-Sym(1); return s; }
Sym ceil(const Sym&a){ return -floor(-a); } Sym trunc(const Sym&a){ return Sym((long)a); } Sym round(const Sym&a){ return a<Sym(0)? -floor(-a+Sym(Q(1,2))) : floor(a+Sym(Q(1,2))); }
Sym fmod(const Sym&a,const Sym&b){ return a-b*trunc(a/b); }
static std::map<std::string,int>& atomKey(){ static auto*m=new std::map<std::string,int>(); return *m; }
static int internAtom(const std::string&key,const Atom&a){ auto&m=atomKey(); auto it=m.find(key); if(it!=m.end()) return it->second; int id=atoms().size(); atoms().push_back(a); m[key]=id; return id; }
Sym operator/(const Sym&a,const Sym&b){ Sym o(0); if(special(a,b,o)) return o;
  if(b.isConst()){ Q q=b.cst(); if(q.isZero()){ stat("division_by_zero"); return nanSym(); } if(a.isConst()) return Sym(a.cst()/q); return mk(pscale(toPoly(a),q.inv())); }
  Poly D=toPoly(b); if(decide(D,ZERO)){ stat("division_by_zero"); return nanSym(); }
  if(D.t.size()==1){ MonoV mv=monos()[D.t[0].m]; for(auto&pr:mv){ if(atomSign(pr.first)==0){ ps.asign[pr.first]= decide(patom(pr.first),POS)?1:-1; } pr.second=-pr.second; }
    bool hasInv=false; Poly f; Poly num=toPoly(a); MonoV keep; for(auto&pr:mv){ if(atoms()[pr.first].k==A_INV){ num=pmul(num,ppow(atoms()[pr.first].arg,-pr.second)); hasInv=true; } else keep.push_back(pr); } (void)hasInv;
    f.t.push_back({internMono(keep),D.t[0].c.inv()}); return mk(pmul(num,f)); }
  // multi-term: clear D's own denominators first: D = Dn/m with m>0 monomial and INV product
  Q lead=D.t.back().c; Poly Dn=pscale(D,lead.inv()); Poly num=toPoly(a);
  if(num.t.size()==Dn.t.size()){ Q k=num.t.back().c; if(peq(num,pscale(Dn,k))) return Sym(k/lead); }
  Atom A; A.k=A_INV; A.arg=Dn; A.name="inv("+pstr(Dn).substr(0,60)+")"; int id=internAtom("inv:"+pkey(Dn),A); ps.asign[id]= decide(Dn,POS)?1:-1;
  return mk(pmul(pscale(num,lead.inv()),patom(id))); }
Sym abs(const Sym&a){ if(a.isConst()) return a.cst().sgn()<0? Sym(-a.cst()):a; if(a.kind()!=K_POLY) return a; return a>=Sym(0)? a : -a; }
Sym powi(const Sym&a,int n){ if(n==0) return Sym(1); if(n<0) return Sym(1)/powi(a,-n); Sym r=a; for(int i=1;i<n;++i) r=r*a; return r; }
Sym pow(const Sym&a,const Sym&b){ if(b.isConst()){ Q q=b.cst(); if(q.isInt()) return powi(a,(int)q.floorl()); Q d=q+q; if(d.isInt()){ Sym s=sqrt(a); return powi(s,(int)d.floorl()); } }
  incon("pow with symbolic exponent"); abandon(); }
Sym sqrt(const Sym&a){ if(a.kind()>K_POLY) return a; if(a.isConst()){ Q q=a.cst(); if(q.sgn()<0) return nanSym(); mpq_class v=q.mp(); mpz_class n,d; if(mpz_perfect_square_p(v.get_num_mpz_t())&&mpz_perfect_square_p(v.get_den_mpz_t())){ mpz_sqrt(n.get_mpz_t(),v.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),v.get_den_mpz_t()); return Sym(Q(mpq_class(n,d))); } }
  else if(a<Sym(0)) return nanSym();
  Poly p=toPoly(a); Atom A; A.k=A_SQRT; A.arg=p; A.hasLo=true; A.lo=Q(0); A.name="sqrt("+pstr(p).substr(0,60)+")";
  if(a.isConst()){ double v=std::sqrt(a.cst().toDouble()); A.lo=Q(mpq_class(std::nextafter(v,0))); A.hasHi=true; A.hi=Q(mpq_class(std::nextafter(v,1e300))); }
  int id=internAtom("sqrt:"+pkey(p),A); return mk(patom(id)); }
static void trigAtoms(const Poly&p,int&s,int&c){ std::string k=pkey(p); Atom A; A.arg=p; A.hasLo=A.hasHi=true; A.lo=Q(-1);A.hi=Q(1); A.k=A_SIN; A.name="sin("+pstr(p).substr(0,40)+")"; 
  if(pIsConst(p)){ double v=std::sin(pConst(p).toDouble()); A.lo=Q(mpq_class(v-1e-15)); A.hi=Q(mpq_class(v+1e-15)); } s=internAtom("sin:"+k,A);
  A.lo=Q(-1);A.hi=Q(1); A.k=A_COS; A.name="cos("+pstr(p).substr(0,40)+")"; if(pIsConst(p)){ double v=std::cos(pConst(p).toDouble()); A.lo=Q(mpq_class(v-1e-15)); A.hi=Q(mpq_class(v+1e-15)); } c=internAtom("cos:"+k,A); atoms()[s].other=c; atoms()[c].other=s; }
Sym sin(const Sym&a){ if(a.kind()>K_POLY) return a; if(!a.r.n) return Sym(0); Poly p=toPoly(a); bool ng=p.t.back().c.sgn()<0; if(ng) p=pscale(p,Q(-1)); int s,c; trigAtoms(p,s,c); Sym r=mk(patom(s)); return ng?-r:r; }
Sym cos(const Sym&a){ if(a.kind()>K_POLY) return a; if(!a.r.n) return Sym(1); Poly p=toPoly(a); if(p.t.back().c.sgn()<0) p=pscale(p,Q(-1)); int s,c; trigAtoms(p,s,c); return mk(patom(c)); }
Sym tan(const Sym&a){ return sin(a)/cos(a); }
static Sym uf(const char*name,const Sym&a,int fn){ if(a.kind()>K_POLY) return a; Poly p=toPoly(a); Atom A; A.k=A_UF; A.arg=p; A.fn=fn; A.name=std::string(name)+"("+pstr(p).substr(0,40)+")";
  if(a.isConst()){ double x=a.cst().toDouble(), v=fn==0?std::acos(x):fn==1?std::asin(x):fn==2?std::exp(x):fn==3?std::log(x):fn==4?std::cosh(x):std::sinh(x); if(std::isnan(v)) return nanSym(); A.hasLo=A.hasHi=true; A.lo=Q(mpq_class(v-1e-14*(1+std::fabs(v)))); A.hi=Q(mpq_class(v+1e-14*(1+std::fabs(v)))); if(v==0) return Sym(0); if(fn==2&&x==0) return Sym(1); if(fn==4&&x==0) return Sym(1); }
  else if(fn==0){ A.hasLo=A.hasHi=true; A.lo=Q(0); A.hi=Q(315,100); } else if(fn==2||fn==4){ A.hasLo=true; A.lo=Q(0);} 
  int id=internAtom(std::string(name)+":"+pkey(p),A); return mk(patom(id)); }
Sym acos(const Sym&a){ if(a.isConst()){ if(a.cst()==Q(-1)) return piSym(); if(a.cst()==Q(1)) return Sym(0); if(a.cst().sgn()==0) return piSym()/Sym(2); } return uf("acos",a,0);} Sym asin(const Sym&a){ return uf("asin",a,1);} Sym exp(const Sym&a){ return uf("exp",a,2);} Sym log(const Sym&a){ return uf("log",a,3);} Sym cosh(const Sym&a){ return uf("cosh",a,4);} Sym sinh(const Sym&a){ return uf("sinh",a,5);} 
Sym hypot(const Sym&a,const Sym&b){ return sqrt(a*a+b*b); }
Sym atan2(const Sym&a,const Sym&b){ if(a.kind()>K_POLY) return a; if(b.kind()>K_POLY) return b; Poly p=toPoly(a),q=toPoly(b); Atom A; A.k=A_UF; A.fn=9; A.arg=p; A.arg2=q; A.name="atan2("+pstr(p).substr(0,20)+","+pstr(q).substr(0,20)+")"; A.hasLo=A.hasHi=true; A.lo=Q(-315,100); A.hi=Q(315,100); return mk(patom(internAtom("atan2:"+pkey(p)+","+pkey(q),A))); }
Sym piSym(){ Atom A; A.k=A_PI; A.name="pi"; A.hasLo=A.hasHi=true; A.lo=Q(314159265358979323L,100000000000000000L); A.hi=Q(314159265358979324L,100000000000000000L); return mk(patom(internAtom("pi",A))); }
bool isnan(const Sym&a){ if(a.kind()==K_UNINIT) internalFailure("uninitialised value decides a branch","isnan","",0); return a.kind()==K_NAN; } bool isinf(const Sym&){ return false; } bool isfinite(const Sym&a){ return !isnan(a); }
std::ostream& operator<<(std::ostream&o,const Sym&s){ switch(s.kind()){ case K_CONST: return o<<s.cst().str(); case K_POLY: return o<<pstr(*s.r.n->p); case K_NAN: return o<<"nan"; case K_UNINIT: return o<<"UNINIT"; default: return o<<"DONTCARE"; } }
std::istream& operator>>(std::istream&i,Sym&s){ double d; i>>d; s=Sym(d); return i; }

// ------------------------------------------------------------------ formulas over Sym
static F badF(const Sym&a,const Sym&b){ if(a.kind()==K_DONTCARE||b.kind()==K_DONTCARE){ incon("obligation depends on an unmodelled inverse"); } return F(false); }
static F fsign(const Sym&a,const Sym&b,unsigned m){ if(a.kind()>K_POLY||b.kind()>K_POLY) return badF(a,b); Poly d=padd(toPoly(a),toPoly(b),-1); if(pIsConst(d)) return F((constMask(pConst(d))&m)!=0); return F(atomF(d,m)); }
F f_le(const Sym&a,const Sym&b){ return fsign(a,b,NEG|ZERO);} F f_lt(const Sym&a,const Sym&b){ return fsign(a,b,NEG);} F f_eq(const Sym&a,const Sym&b){ return fsign(a,b,ZERO);} 
static double ev(const Poly&p,const std::map<int,double>&v);
F f_near(const Sym&a,const Sym&b,const Sym&tol){ 
  if(a.kind()>K_POLY||b.kind()>K_POLY) return badF(a,b); if(a.isConst()&&b.isConst()&&tol.isConst()&&!printObs){ Q d=a.cst()-b.cst(); if(d.sgn()<0) d=-d; stat("constant_obligations"); return F(d<=tol.cst()); }
  auto n=std::make_shared<FNode>(); n->k=F_NEAR; n->p=toPoly(a); n->q=toPoly(b); n->tol=toPoly(tol); return F(FP(n)); }

// ------------------------------------------------------------------ numeric evaluation (hunting, validation)
static double evAtom(int a,const std::map<int,double>&v){ Atom&A=atoms()[a]; switch(A.k){ case A_VAR: { auto it=v.find(a); return it==v.end()?0:it->second; } case A_INV: return 1/ev(A.arg,v); case A_SQRT: return std::sqrt(std::max(0.0,ev(A.arg,v))); case A_SIN: return std::sin(ev(A.arg,v)); case A_COS: return std::cos(ev(A.arg,v)); case A_PI: return M_PI;
    case A_UF: { double x=ev(A.arg,v); switch(A.fn){ case 0: return std::acos(std::max(-1.0,std::min(1.0,x))); case 1: return std::asin(x); case 2: return std::exp(x); case 3: return std::log(x); case 4: return std::cosh(x); case 5: return std::sinh(x); case 9: return std::atan2(x,ev(A.arg2,v)); } return 0; } default: return 0; } }
static double ev(const Poly&p,const std::map<int,double>&v){ double s=0; std::map<int,double> memo; for(auto&t:p.t){ double m=t.c.toDouble(); for(auto&pr:monos()[t.m]){ auto it=memo.find(pr.first); double x= it!=memo.end()?it->second:(memo[pr.first]=evAtom(pr.first,v)); m*=std::pow(x,pr.second); } s+=m; } return s; }
static bool evF(const FP&f,const std::map<int,double>&v,double eps){ switch(f->k){ case F_CONST: return f->b; case F_ATOM: { double x=ev(f->p,v); unsigned m=0; if(x<-eps) m=NEG; else if(x>eps) m=POS; else m=7; return (f->mask&m)!=0; } case F_NEAR: return std::fabs(ev(f->p,v)-ev(f->q,v))<=ev(f->tol,v); case F_AND: return evF(f->x,v,eps)&&evF(f->y,v,eps); case F_OR: return evF(f->x,v,eps)||evF(f->y,v,eps); case F_NOT: return !evF(f->x,v,-eps) ; } return true; }

// ------------------------------------------------------------------ harness API
Sym input(const std::string&name,const Sym&lo,const Sym&hi){ if(concreteMode){ auto it=concreteVals.find(name); double v= it==concreteVals.end()? (lo.cst().toDouble()+hi.cst().toDouble())/2 : std::atof(it->second.c_str()); return Sym(Q(mpq_class(v))); }
  if(lo.isConst()&&hi.isConst()&&lo.cst()==hi.cst()) return lo;
  auto it=varIds.find(name); int id; if(it==varIds.end()){ Atom A; A.k=A_VAR; A.name=name; A.hasLo=A.hasHi=true; A.lo=lo.cst(); A.hi=hi.cst(); id=atoms().size(); atoms().push_back(A); varIds[name]=id; varOrder.push_back(id); } else id=it->second; return mk(patom(id)); }
// obligations stated before an assumption are decided without it
static void flushObs();
void assume(const F&f){ if(f.p->k==F_CONST){ if(!f.p->b){ stat("assume_cut"); if(!concreteMode) flushObs(); if(concreteMode){ std::cout<<"PRECONDITION-FALSE\n"; std::cout.flush(); _exit(3);} abandon(); } return; }
  if(concreteMode){ if(!evF(f.p,{},1e-12)){ std::cout<<"PRECONDITION-FALSE\n"; std::cout.flush(); _exit(3);} return; }
  if(tpos<trail.size()){ ps.obs.clear(); ps.pc.push_back(f.p); ps.wit=trail[tpos].wit; ++tpos; return; }
  flushObs(); Wit w; R3 r=satWith(f.p,w); ps.pc.push_back(f.p); ps.wit=w; TrailE e; e.val=1; e.forced=true; e.wit=w; trail.push_back(e); ++tpos; if(r==UNSAT) abandon(); }
bool caseSplit(const F&f,const std::string&){ if(f.p->k==F_CONST) return f.p->b; if(concreteMode) return evF(f.p,{},0); bool val; if(tpos<trail.size()){ ps.wit=trail[tpos].wit; val=trail[tpos++].val; } else { Wit wt,wn;
    R3 t=satWith(f.p,wt), n= satWith((!f).p,wn); if(t==UNSAT&&n==UNSAT) abandon(); TrailE e; e.forced=t==UNSAT||n==UNSAT; e.val=t!=UNSAT; if(!e.forced) e.alts.push_back(0); e.wit=e.val?wt:wn; e.altWit=wn; ps.wit=e.wit; val=e.val; trail.push_back(e); ++tpos; }
  ps.pc.push_back(val?f.p:(!f).p); return val; }
static long obsPrinted=0;
void check(const F&f,const std::string&label){ if(printObs){ std::function<void(const FP&)> pr=[&](const FP&g){ if(g->k==F_NEAR) printf("OB %s %.10g %.10g\n",label.c_str(),ev(g->p,{}),ev(g->q,{})); else if(g->k==F_AND||g->k==F_OR){ pr(g->x); pr(g->y);} else if(g->k==F_NOT) pr(g->x); }; pr(f.p); ++obsPrinted; }
  if(f.p->k==F_CONST&&f.p->b){ stat("trivially_true_obligations"); stat("obligations"); ps.labels.insert(label); return; } ps.obs.push_back({f.p,label}); stat("obligations"); }

bool isLinear(const Sym&a){ if(a.kind()>K_POLY) return false; Poly p=toPoly(a); for(auto&t:p.t){ auto&m=monos()[t.m]; if(m.size()>1||(m.size()==1&&(m[0].second!=1||atoms()[m[0].first].k!=A_VAR))) return false; } return true; }
bool equivSign(const Sym&a,const Sym&b){ if(a.kind()>K_POLY||b.kind()>K_POLY) return false; int f=1,g=1; Poly p=canon(toPoly(a),f), q=canon(toPoly(b),g); if(pIsConst(p)||pIsConst(q)) return pIsConst(p)&&pIsConst(q)&&pConst(p).sgn()==pConst(q).sgn(); return f==g&&peq(p,q); }
// ------------------------------------------------------------------ violations
struct Candidate { std::map<std::string,std::string> vals; std::string how; };
struct Viol { std::string label; std::vector<Candidate> cands; };
static std::vector<Viol> viols;
static std::string numStr(const z3::expr&e){ std::string s; double d=0; if(e.is_numeral()){ mpq_class q; std::string t=e.get_decimal_string(40); (void)t; std::ostringstream os; os<<e; // may be (/ a b) or (- ..)
    Z3_string zs=Z3_get_numeral_string(Z(),e); q=mpq_class(zs); q.canonicalize(); d=q.get_d(); } else { Z3_ast a=e; if(Z3_is_algebraic_number(Z(),a)){ std::string t=Z3_get_numeral_decimal_string(Z(),a,30); if(!t.empty()&&t.back()=='?') t.pop_back(); d=std::atof(t.c_str()); } }
  char buf[64]; snprintf(buf,sizeof buf,"%.17g",d); return buf; }
static void freshTrig(std::map<int,double>&){ }
static Candidate fromModel(z3::model&m,const char*how){ Candidate c; c.how=how; // angle variables: recover from sin/cos atoms
  std::map<std::string,double> over; for(size_t a=0;a<atoms().size();++a) if(atoms()[a].k==A_SIN&&atoms()[a].arg.t.size()==1&&atoms()[a].arg.t[0].c.isOne()){ auto mv=monos()[atoms()[a].arg.t[0].m]; if(mv.size()==1&&mv[0].second==1&&atoms()[mv[0].first].k==A_VAR){ z3::expr s=m.eval(za(a),true), co=m.eval(za(atoms()[a].other),true); double sv=std::atof(numStr(s).c_str()), cv=std::atof(numStr(co).c_str()); over[atoms()[mv[0].first].name]=std::atan2(sv,cv); } }
  for(int id:varOrder){ auto it=over.find(atoms()[id].name); if(it!=over.end()){ char b[64]; snprintf(b,sizeof b,"%.17g",it->second); c.vals[atoms()[id].name]=b; continue; } z3::expr e=m.eval(za(id),true); std::string t=numStr(e); { Atom&A=atoms()[id]; double x=std::atof(t.c_str()), lo=A.lo.toDouble(), hi=A.hi.toDouble(); if(x<lo||x>hi){ char b[64]; snprintf(b,sizeof b,"%.17g",x<lo?lo:hi); t=b; } } c.vals[atoms()[id].name]=t; }
  for(auto&kv:ps.choices) c.vals[kv.first]=std::to_string(kv.second); return c; }
static std::mt19937 rng(12345);
static bool hunt(const std::vector<FP>&pc,const std::vector<Ob>&obs,bool any,Candidate&out,std::string&label,int tries){ for(int k=0;k<tries;++k){ std::map<int,double> v; for(int id:varOrder){ Atom&A=atoms()[id]; double lo=A.lo.toDouble(),hi=A.hi.toDouble(); double u=std::uniform_real_distribution<double>(0,1)(rng); int mode=rng()%8; double x= mode==0?lo:mode==1?hi: lo+(hi-lo)*u; x=std::round(x*1024)/1024; if(x<lo||x>hi) x=lo+(hi-lo)*u; v[id]=x; }
    bool ok=true; for(auto&f:pc) if(!evF(f,v,0)) { ok=false; break; } if(!ok) continue; bool bad=any; if(!any) for(auto&o:obs) if(!evF(o.f,v,1e-9)){ bad=true; label=o.label; break; }
    if(bad){ out.vals.clear(); for(int id:varOrder){ char b[64]; snprintf(b,sizeof b,"%.17g",v[id]); out.vals[atoms()[id].name]=b; } for(auto&kv:ps.choices) out.vals[kv.first]=std::to_string(kv.second); out.how="sampled under the path condition"; return true; } }
  return false; }
// given satisfiable constraint set cs, produce candidates (raw model, snapped model)
static void candidates(z3::expr_vector&cs,ZB&zb,std::unique_ptr<z3::model>&m,Viol&v){ v.cands.push_back(fromModel(*m,"model"));
  z3::solver s(Z(), zb.nonlinear?"QF_NRA":"QF_LRA"); z3::params p(Z()); p.set("timeout",3000u); s.set(p); for(unsigned i=0;i<cs.size();++i) s.add(cs[i]); auto t0=std::chrono::steady_clock::now(); bool any=false; std::unique_ptr<z3::model> cur(new z3::model(*m));
  for(int id:varOrder){ if(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>20) break; double x=std::atof(numStr(cur->eval(za(id),true)).c_str()); bool fixed=false; for(double g: {8.0,64.0,1024.0}){ double y=std::round(x*g)/g; Atom&A=atoms()[id]; Q qy=Q(mpq_class(y)); if(qy<A.lo||qy>A.hi) continue; s.push(); s.add(za(id)==zq(qy)); ++queries; z3::check_result r=z3::unknown; try{ r=s.check(); }catch(z3::exception&){} if(r==z3::sat){ cur.reset(new z3::model(s.get_model())); fixed=true; any=true; break; } s.pop(); } (void)fixed; }
  if(any) v.cands.insert(v.cands.begin(),fromModel(*cur,"model snapped to short binary fractions")); }
static void reportPath(const std::vector<Ob>&obs,bool pathItself,const std::string&why){ // pathItself: reaching here is the violation
  z3::expr_vector cs(Z()); ZB zb; for(auto&f:ps.pc) cs.push_back(zf(f,zb)); 
  if(!pathItself){ if(obs.empty()) return; std::vector<Z3_ast> as; z3::expr_vector keep(Z()); for(auto&o:obs){ z3::expr e=!zf(o.f,zb); keep.push_back(e); } cs.push_back(z3::mk_or(keep)); }
  std::unique_ptr<z3::model> m; R3 r=UNKNOWN;
  if(!pathItself){ z3::expr_vector ls(Z()); ZB lb; bool lin=true; std::vector<Z3_ast> as; z3::expr_vector keep(Z()); for(auto&o:obs){ ZB t; z3::expr e=!zf(o.f,t); if(t.nonlinear) lin=false; lb.at.insert(t.at.begin(),t.at.end()); keep.push_back(e); }
    if(lin&&zb.nonlinear){ ls.push_back(z3::mk_or(keep)); for(auto&f:ps.pc){ ZB t; z3::expr e=zf(f,t); if(!t.nonlinear){ ls.push_back(e); lb.at.insert(t.at.begin(),t.at.end()); } } bool plain=true; for(int a:lb.at) if(atoms()[a].k!=A_VAR) plain=false; if(plain) r=zcheck(ls,lb,nullptr,2000); if(r==SAT) r=UNKNOWN; } }
  if(r!=UNSAT) r=zcheck(cs,zb,&m,TIMEOUT_MS);
  if(r==UNSAT){ if(!pathItself) stat("discharged_batches"); return; }
  Viol v; v.label=why;
  if(r==UNKNOWN){ Candidate c; std::string lab; if(hunt(ps.pc,obs,pathItself,c,lab,4000)){ v.label=pathItself?why:lab; v.cands.push_back(c); Candidate c2; if(hunt(ps.pc,obs,pathItself,c2,lab,2000)) v.cands.push_back(c2); viols.push_back(v); }
    else if(!pathItself&&obs.size()>1){ for(auto&o:obs){ std::vector<Ob> one{o}; size_t n=viols.size(); reportPath(one,false,o.label); if(viols.size()>n) return; } }
    else incon("solver answered unknown for: "+(pathItself?why:obs[0].label)); return; }
  if(!pathItself){ for(auto&o:obs){ ZB z2; z3::expr e=zf(o.f,z2); z3::expr t=m->eval(e,true); if(t.is_false()){ v.label=o.label; break; } } }
  candidates(cs,zb,m,v); Candidate c; std::string lab; for(int i=0;i<2;++i) if(hunt(ps.pc,obs,pathItself,c,lab,600)) v.cands.push_back(c); viols.push_back(v); }
static std::set<std::string> doneLabels; static long doneWitness=0;
static bool decideObs(){ const size_t before=viols.size(); for(auto&o:ps.obs) doneLabels.insert(o.label); for(auto&l:ps.labels) doneLabels.insert(l); if(ps.obs.size()||ps.labels.size()) ++doneWitness;
  std::vector<Ob> chunk; for(size_t i=0;i<ps.obs.size();++i){ chunk.push_back(ps.obs[i]); if(chunk.size()>=400||i+1==ps.obs.size()){ reportPath(chunk,false,"obligation"); chunk.clear(); if(viols.size()>before) break; } }
  ps.obs.clear(); return viols.size()==before; }
static void flushObs(){ if(ps.obs.empty()) return; bool in=inPath; inPath=false; bool ok=decideObs(); inPath=in; if(!ok) abandon(); }
[[noreturn]] void internalFailure(const char*kind,const char*expr,const char*file,int line){ std::string w=std::string(kind)+": "+expr; if(file&&*file){ const char*b=strrchr(file,'/'); w+=std::string(" at ")+(b?b+1:file)+":"+std::to_string(line); }
  if(!inPath){ std::cerr<<"symx: "<<w<<" outside a case\n"; _exit(4); }
  if(concreteMode){ std::cout<<"INTERNAL "<<w<<"\n"; std::cout.flush(); _exit(1); }
  stat("internal_failures_examined"); reportPath({},true,w); longjmp(pathJmp,1); }

// ------------------------------------------------------------------ cases
static volatile sig_atomic_t faulted=0;
struct CaseE { std::string name; int tier; std::function<void()> f; };
static std::vector<CaseE>& cases(){ static auto*v=new std::vector<CaseE>(); return *v; }
CaseReg::CaseReg(const char*n,int tier,std::function<void()> f){ cases().push_back({n,tier,f}); }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r; }
static void onFault(int s){ if(inPath&&!faulted){ faulted=1; longjmp(pathJmp,3); } _exit(128+s); }
static void catchFaults(){ static char*stk=(char*)malloc(1<<20); stack_t st{}; st.ss_sp=stk; st.ss_size=1<<20; sigaltstack(&st,nullptr); struct sigaction a{}; a.sa_handler=onFault; a.sa_flags=SA_NODEFER|SA_ONSTACK; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGABRT}) sigaction(s,&a,nullptr); }
static int runCase(CaseE&c,long maxPaths){ size_t maxViols=1; if(const char*t=getenv("SYMX_MAX_VIOLS")) maxViols=atoi(t); catchFaults(); auto t0=std::chrono::steady_clock::now(); long paths=0, ended=0; trail.clear(); 
  while(true){ tpos=0; ps=PathState(); dcInverse=false; inPath=true; ++paths; int j=setjmp(pathJmp);
    if(j==0){ try { c.f(); ++ended; } catch(std::exception&e){ inPath=true; std::string w=std::string("exception: ")+e.what(); stat("internal_failures_examined"); reportPath({},true,w); inPath=false; goto done; }
      inPath=false;
      decideObs();
    } else if(j==3){ // a fault of the code under test; the heap may be damaged, so this run ends here
      inPath=true; stat("internal_failures_examined"); reportPath({},true,"memory fault"); inPath=false; if(viols.size()) break; incon("memory fault on a path not shown to be feasible"); }
    else { inPath=false; if(j==2) stat("paths_cut"); }
    done:
    if(viols.size()>=maxViols||inconclusive) break; if(paths>=maxPaths){ incon("path budget exhausted"); break; }
    while(!trail.empty()&&trail.back().alts.empty()) trail.pop_back(); if(trail.empty()) break; trail.back().val=trail.back().alts.back(); trail.back().alts.pop_back(); if(trail.back().altWit) { trail.back().wit=trail.back().altWit; trail.back().altWit=nullptr; } else if(trail.back().name.empty()) trail.back().wit=nullptr; }
  double wall=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); if(!viols.size()&&!inconclusive&&doneWitness==0) incon("vacuous: no obligation reached");
  std::cout<<"{\"case\":\""<<jesc(c.name)<<"\",\"status\":\""<<(viols.size()?"violation":inconclusive?"inconclusive":"ok")<<"\",\"why\":\""<<jesc(inconclusiveWhy)<<"\",\"paths\":"<<paths<<",\"paths_completed\":"<<ended<<",\"witnessed_paths\":"<<doneWitness<<",\"queries\":"<<queries<<",\"solver_ms\":"<<solverMs<<",\"wall_s\":"<<wall<<",\"inputs\":"<<varOrder.size()<<",\"labels\":"<<doneLabels.size()<<",\"sample_labels\":["; int k=0; for(auto&l:doneLabels){ if(k++) std::cout<<","; std::cout<<"\""<<jesc(l)<<"\""; if(k>=6) break; }
  std::cout<<"],\"input_names\":["; k=0; for(int id:varOrder){ if(k++) std::cout<<","; std::cout<<"[\""<<jesc(atoms()[id].name)<<"\","<<atoms()[id].lo.toDouble()<<","<<atoms()[id].hi.toDouble()<<"]"; }
  std::cout<<"],\"stats\":{"; k=0; for(auto&kv:stats){ if(k++) std::cout<<","; std::cout<<"\""<<kv.first<<"\":"<<kv.second; } std::cout<<"},\"violations\":["; k=0; for(auto&v:viols){ if(k++) std::cout<<","; std::cout<<"{\"label\":\""<<jesc(v.label)<<"\",\"candidates\":["; int q=0; for(auto&cd:v.cands){ if(q++) std::cout<<","; std::cout<<"{\"how\":\""<<cd.how<<"\",\"values\":{"; int z=0; for(auto&kv:cd.vals){ if(z++) std::cout<<","; std::cout<<"\""<<jesc(kv.first)<<"\":\""<<kv.second<<"\""; } std::cout<<"}}"; } std::cout<<"]}"; } std::cout<<"]}\n"; std::cout.flush(); return 0; }
static void onTerm(){ if(inPath){ const char m[]="INTERNAL std::terminate\n"; (void)!write(1,m,sizeof m-1);} _exit(5); }
int symxMain(int argc,char**argv){ std::set_terminate(onTerm); if(const char*t=getenv("SYMX_TIMEOUT_MS")) TIMEOUT_MS=atoi(t); if(const char*t=getenv("VERIF_SEED")) rng.seed(atoi(t)); long maxPaths=200000; if(const char*t=getenv("SYMX_MAX_PATHS")) maxPaths=atol(t);
  std::string mode=argc>1?argv[1]:"--list"; if(mode=="--list"){ int tier=argc>2?atoi(argv[2]):9; for(auto&c:cases()) if(c.tier<=tier) std::cout<<c.name<<"\n"; return 0; }
  if(argc<3) return 2; for(auto&c:cases()) if(c.name==argv[2]){ if(mode=="--concrete"){ concreteMode=true; printObs=true; std::ifstream in(argv[3]); std::string line; while(std::getline(in,line)){ auto e=line.find('='); if(e!=std::string::npos) concreteVals[line.substr(0,e)]=line.substr(e+1); } inPath=true; int j=setjmp(pathJmp); if(j==0){ c.f(); fflush(stdout); std::cout<<"DONE\n"; std::cout.flush(); _exit(0);} std::cout<<"CUT\n"; std::cout.flush(); _exit(3); }
      int r=runCase(c,maxPaths); std::cout.flush(); _exit(r); }
  std::cerr<<"no such case\n"; return 2; }
}
int main(int argc,char**argv){ return symx::symxMain(argc,argv); }
extern "C" void __wrap_abort(){ symx::internalFailure("abort","abort() called","",0); }
extern "C" void __assert_fail(const char*e,const char*f,unsigned l,const char*) noexcept { symx::internalFailure("assertion",e,f,l); }
namespace std { void __glibcxx_assert_fail(const char*f,int l,const char*,const char*e) noexcept { symx::internalFailure("container check",e?e:"range",f?f:"",l); } }
