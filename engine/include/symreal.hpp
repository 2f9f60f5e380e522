// Harness interface. Compiled twice: instrumented (symbolic values) and natively (SR_NATIVE, replay of a model).
#pragma once
#include <bertini2/mpfr_complex.hpp>
#include <bertini2/num_traits.hpp>
#include <string>
#include <complex>
#include <sstream>
#include <cstdio>
#include <cstdlib>
#include <cmath>
namespace sr {
using dbl = std::complex<double>;
using mpf = bertini::mpfr_float;
using mpc = bertini::mpfr_complex;
enum R{LT,LE,EQ,NE,GT,GE};
#ifndef SR_NATIVE
extern "C" {
double srh_real(const char*); double srh_real_range(const char*,double,double); void srh_cplx(const char*,double*,double*);
void srh_assume(double,int,double); void srh_eq(double,double,double,double,const char*); void srh_rel(double,int,double,const char*); void srh_check(int,const char*,const char*);
int srh_choose(const char*,int); void srh_prune(); void srh_explore_eq(int); void srh_scenario(const char*); int srh_identically_zero(double); void srh_vanish(double,double,const char*,int,const char*); int srh_is_symbolic(double); const char*srh_str(double);
void srh_exists(double,double,const char*); void srh_mp_get(mpfr_srcptr,double*,int*); void srh_mp_set(mpfr_ptr,double); void srh_tag_mpq(mpq_srcptr,double); double srh_mpq_dbl(mpq_srcptr);
}
constexpr bool native=false;
inline double real(const std::string&n){ return srh_real(n.c_str()); }
inline double real(const std::string&n,double lo,double hi){ return srh_real_range(n.c_str(),lo,hi); }
inline dbl cplx(const std::string&n){ double a,b; srh_cplx(n.c_str(),&a,&b); return dbl(a,b); }
inline mpf real_mp(const std::string&n){ mpf x(0); srh_mp_set(x.backend().data(),srh_real(n.c_str())); return x; }
inline mpf real_mp(const std::string&n,double lo,double hi){ mpf x(0); srh_mp_set(x.backend().data(),srh_real_range(n.c_str(),lo,hi)); return x; }
inline mpc cplx_mp(const std::string&n){ double a,b; srh_cplx(n.c_str(),&a,&b); mpf x(0),y(0); srh_mp_set(x.backend().data(),a); srh_mp_set(y.backend().data(),b); return mpc(x,y); }
inline double D(double x){return x;} inline double D(const mpf&x){ double d;int a; srh_mp_get(x.backend().data(),&d,&a); return d; }
inline int choose(const std::string&n,int k){ return srh_choose(n.c_str(),k); }
inline void prune(){ srh_prune(); abort(); }
inline void explore_eq(bool b){ srh_explore_eq(b); }
// boundaries of inequalities (measure zero) are left out as well
inline void generic(){ srh_explore_eq(-1); }
inline void scenario(const std::string&s){ srh_scenario(s.c_str()); }
template<class A,class B> void assume(const A&a,R r,const B&b){ srh_assume(D(a),r,D(b)); }
inline void eq(double a,double b,const std::string&l){ srh_eq(a,0,b,0,l.c_str()); }
inline void eq(const dbl&a,const dbl&b,const std::string&l){ srh_eq(a.real(),a.imag(),b.real(),b.imag(),l.c_str()); }
inline void eq(const mpf&a,const mpf&b,const std::string&l){ srh_eq(D(a),0,D(b),0,l.c_str()); }
inline void eq(const mpc&a,const mpc&b,const std::string&l){ mpf ar=a.real(),ai=a.imag(),br=b.real(),bi=b.imag(); srh_eq(D(ar),D(ai),D(br),D(bi),l.c_str()); }
inline void eq(const mpc&a,const dbl&b,const std::string&l){ mpf ar=a.real(),ai=a.imag(); srh_eq(D(ar),D(ai),b.real(),b.imag(),l.c_str()); }
inline void eq(const dbl&b,const mpc&a,const std::string&l){ eq(a,b,l); }
template<class A,class B> void rel(const A&a,R r,const B&b,const std::string&l){ srh_rel(D(a),r,D(b),l.c_str()); }
inline void check(bool ok,const std::string&l,const std::string&d=""){ srh_check(ok,l.c_str(),d.c_str()); }
inline int accuracy_bits(const mpf&x){ double d;int a; srh_mp_get(x.backend().data(),&d,&a); return a; }
// value carries at least `digits` decimal digits of accuracy (never went through a lower precision)
inline void accurate(const mpf&x,unsigned digits,const std::string&l){ int a=accuracy_bits(x); srh_check(a>=(int)(digits*3.3219)-4,l.c_str(),("only "+std::to_string(a)+" accurate bits").c_str()); }
inline void accurate(const mpc&z,unsigned digits,const std::string&l){ mpf a(z.real()),b(z.imag()); accurate(a,digits,l); accurate(b,digits,l); }
inline std::string str(double d){ return srh_str(d); }
// f(h) = O(h^k) as the real h tends to zero; natively the order is estimated from two values of h
template<class F> void vanishes(F f,const std::string&h,int k,const std::string&l){ dbl v=f(srh_real(h.c_str())); srh_vanish(v.real(),v.imag(),h.c_str(),k,l.c_str()); }
// the expression is not the zero function (some admissible input makes it non-zero)
inline void exists_nonzero(const dbl&a,const std::string&l){ srh_exists(a.real(),a.imag(),l.c_str()); }
inline bool is_zero(double a){ return srh_identically_zero(a); } inline bool is_zero(const dbl&a){ return is_zero(a.real())&&is_zero(a.imag()); } inline bool is_zero(const mpc&a){ mpf x=a.real(),y=a.imag(); return is_zero(D(x))&&is_zero(D(y)); }
#else
constexpr bool native=true;
struct Rp{ std::map<std::string,std::pair<std::string,std::string>> v; std::vector<std::pair<std::string,int>> ch; size_t nc=0; int fails=0; double tol=1e-6;
  Rp(){ const char*f=getenv("SR_REPLAY"); if(!f) return; FILE*p=fopen(f,"r"); if(!p) return; char k[8],n[4096],a[512],b[512]; char line[8192]; while(fgets(line,sizeof line,p)){ if(sscanf(line,"%7s",k)!=1) continue; std::string ln(line); if(!ln.empty()&&ln.back()=='\n') ln.pop_back(); std::vector<std::string> t; size_t i=0; while(true){ size_t j=ln.find('\t',i); t.push_back(ln.substr(i,j==std::string::npos?j:j-i)); if(j==std::string::npos) break; i=j+1; } if(t[0]=="v"&&t.size()>=4) v[t[1]]={t[2],t[3]}; if(t[0]=="c"&&t.size()>=3) ch.push_back({t[1],atoi(t[2].c_str())}); } fclose(p); (void)n;(void)a;(void)b; if(getenv("SR_TOL")) tol=atof(getenv("SR_TOL")); }
  void fail(const std::string&l,const std::string&d){ fails++; printf("REPLAY-FAIL label=%s %s\n",l.c_str(),d.c_str()); fflush(stdout); } };
inline Rp& rp(){ static Rp r; return r; }
inline std::pair<std::string,std::string> val(const std::string&n){ auto it=rp().v.find(n); if(it==rp().v.end()) return {"0.5","0.25"}; return it->second; }
inline double real(const std::string&n){ return atof(val(n).first.c_str()); } inline double real(const std::string&n,double,double){ return real(n); }
inline dbl cplx(const std::string&n){ auto p=val(n); return dbl(atof(p.first.c_str()),atof(p.second.c_str())); }
inline mpf real_mp(const std::string&n){ return mpf(val(n).first); } inline mpf real_mp(const std::string&n,double,double){ return real_mp(n); }
inline mpc cplx_mp(const std::string&n){ auto p=val(n); return mpc(mpf(p.first),mpf(p.second)); }
inline double D(double x){return x;} inline double D(const mpf&x){ return double(x); }
inline int choose(const std::string&n,int){ auto&r=rp(); if(r.nc<r.ch.size()){ auto c=r.ch[r.nc++]; if(c.first!=n){ printf("REPLAY-DIVERGED choice %s expected %s\n",n.c_str(),c.first.c_str()); exit(4);} return c.second; } printf("REPLAY-DIVERGED extra choice %s\n",n.c_str()); exit(4); }
inline void prune(){ printf("REPLAY-PRUNED\n"); exit(rp().fails?1:3); }
inline void explore_eq(bool){} inline void generic(){} inline void scenario(const std::string&){}
inline bool holds(double a,R r,double b,double slack=0){ switch(r){case LT:return a<b+slack;case LE:return a<=b+slack;case EQ:return fabs(a-b)<=slack;case NE:return a!=b;case GT:return a>b-slack;default:return a>=b-slack;} }
template<class A,class B> void assume(const A&a,R r,const B&b){ if(!holds(D(a),r,D(b),1e-9)) prune(); }
inline void eqn(std::complex<double> a,std::complex<double> b,const std::string&l){ double e=std::abs(a-b); if(!(e<=rp().tol*(1+std::abs(a)+std::abs(b)))){ std::ostringstream s; s.precision(17); s<<"got "<<a<<" expected "<<b; rp().fail(l,s.str()); } }
inline dbl C(double x){return x;} inline dbl C(const dbl&x){return x;} inline dbl C(const mpf&x){return double(x);} inline dbl C(const mpc&x){ return dbl(double(mpf(x.real())),double(mpf(x.imag()))); }
template<class A,class B> void eq(const A&a,const B&b,const std::string&l){ eqn(C(a),C(b),l); }
template<class A,class B> void rel(const A&a,R r,const B&b,const std::string&l){ double x=D(a),y=D(b); double sl= r==EQ? rp().tol*(1+fabs(x)+fabs(y)) : 1e-10*(1+fabs(x)+fabs(y)); if(r==LT||r==GT){ } if(!holds(x,r,y,sl)){ std::ostringstream s; s.precision(17); s<<x<<" rel"<<r<<" "<<y; rp().fail(l,s.str()); } }
inline void check(bool ok,const std::string&l,const std::string&d=""){ if(!ok) rp().fail(l,d); }
inline int accuracy_bits(const mpf&){ return 1<<30; }
inline void accurate(const mpf&,unsigned,const std::string&){ } inline void accurate(const mpc&,unsigned,const std::string&){ }
inline std::string str(double d){ return std::to_string(d); }
template<class F> void vanishes(F f,const std::string&,int k,const std::string&l){ double h= k<=2?1.0/256: k<=4?1.0/64: k<=6? 1.0/16:1.0/8; dbl a=f(h),b=f(h/2); double x=std::abs(a),y=std::abs(b); if(x<1e-14&&y<1e-14) return; double o=y>0?std::log2(x/y):99; if(!(o>k-0.4)){ std::ostringstream s; s<<"observed order "<<o<<", wanted "<<k<<" ("<<x<<", "<<y<<")"; rp().fail(l,s.str()); } }
inline void exists_nonzero(const dbl&a,const std::string&l){ if(std::abs(a)<1e-9) rp().fail(l,"zero"); }
inline bool is_zero(double a){ return fabs(a)<1e-11; } inline bool is_zero(const dbl&a){ return std::abs(a)<1e-11; } inline bool is_zero(const mpc&a){ return std::abs(C(a))<1e-11; }
#endif
}
void sr_harness();
#ifdef SR_NATIVE
#ifndef SR_NO_MAIN
#include <typeinfo>
#include <unistd.h>
int main(){ alarm(120); try{ sr_harness(); }catch(std::exception&e){ printf("REPLAY-FAIL label=__exception %s: %s\n",typeid(e).name(),e.what()); return 1; } printf("REPLAY-DONE fails=%d\n",sr::rp().fails); return sr::rp().fails?1:0; }
#endif
#endif
