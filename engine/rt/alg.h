// Exact algebra: multivariate rational functions over Q[i] in symbols (complex variables z and
// their conjugates, real variables, and atoms such as exp, log, roots) with reduction rules.
#pragma once
#include <gmpxx.h>
#include <vector>
#include <map>
#include <memory>
#include <string>
#include <complex>
#include <cstdint>
#include <functional>
namespace alg {
typedef std::complex<long double> cld;
struct GQ{ mpq_class re,im; GQ(){} GQ(const mpq_class&r):re(r){} GQ(const mpq_class&r,const mpq_class&i):re(r),im(i){} GQ(long v):re(v){}
  bool zero()const{return sgn(re)==0&&sgn(im)==0;} bool one()const{return re==1&&sgn(im)==0;} bool real()const{return sgn(im)==0;}
  GQ conj()const{return GQ(re,-im);} };
inline GQ operator+(const GQ&a,const GQ&b){return GQ(a.re+b.re,a.im+b.im);}
inline GQ operator-(const GQ&a,const GQ&b){return GQ(a.re-b.re,a.im-b.im);}
inline GQ operator-(const GQ&a){return GQ(-a.re,-a.im);}
GQ operator*(const GQ&a,const GQ&b); GQ inv(const GQ&a);
inline bool operator==(const GQ&a,const GQ&b){return a.re==b.re&&a.im==b.im;}
inline bool operator<(const GQ&a,const GQ&b){int c=cmp(a.re,b.re);if(c)return c<0;return a.im<b.im;}

typedef std::vector<std::pair<int,int>> Mono; // sorted by symbol, exponents >0 in Poly
struct Poly{ std::map<Mono,GQ> t;
  bool zero()const{return t.empty();}
  bool isconst()const{return t.empty()||(t.size()==1&&t.begin()->first.empty());}
  GQ constval()const{return t.empty()?GQ():t.begin()->second;}
  void add(const Mono&m,const GQ&c); };
bool operator<(const Poly&a,const Poly&b);
inline bool operator==(const Poly&a,const Poly&b){return a.t.size()==b.t.size()&&a.t==b.t;}
Poly pconst(const GQ&c); Poly psym(int s,int e=1);
Poly padd(const Poly&a,const Poly&b); Poly psub(const Poly&a,const Poly&b); Poly pneg(const Poly&a);
Poly pmul(const Poly&a,const Poly&b); Poly pscale(const Poly&a,const GQ&c);
std::string pstr(const Poly&p);

struct RF{ Poly num; std::map<int,int> den; // den: interned monic polynomial id -> exponent
  bool zero()const{return num.zero();}
  bool isconst()const{return den.empty()&&num.isconst();} };
typedef std::shared_ptr<const RF> RFp;
const Poly& denpoly(int id); int intern(const Poly&p);
RF rconst(const GQ&c); RF rsym(int s,int e=1);
RF radd(const RF&a,const RF&b); RF rsub(const RF&a,const RF&b); RF rneg(const RF&a); RF rmul(const RF&a,const RF&b); RF rinv(const RF&a); RF rdiv(const RF&a,const RF&b);
RF rpow(const RF&a,long n); RF rconj(const RF&a); RF rscale(const RF&a,const GQ&c);
std::string rstr(const RF&a);
inline bool operator<(const RF&a,const RF&b){ if(a.den!=b.den) return a.den<b.den; return a.num<b.num; }

struct TooBig{};
extern size_t term_limit;

enum SymKind{ S_REAL, S_CVAR, S_CCONJ, S_EXP, S_LOG, S_ROOT, S_ZETA, S_PI, S_POW, S_FUN };
struct Sym{ SymKind k; std::string name; int conj; // conj symbol id (== own id when real); ZETA: -1
  RF arg,arg2; int n=0; std::string fn; // S_ROOT: n-th root of arg; S_ZETA: n-th root of unity
  bool nonneg=false; int var=-1; };
extern std::vector<Sym> syms;
int newReal(const std::string&name); int newComplex(const std::string&name); // returns z; conj = syms[z].conj
int piSym();
RF fexp(const RF&w); RF flog(const RF&w); RF froot(const RF&w,int n,bool realPositive); RF fpow(const RF&w,const RF&e); RF ffun(const std::string&fn,const RF&w,bool entire);
RF fun2(const std::string&fn,const RF&a,const RF&b,bool real);
RF fsin(const RF&w); RF fcos(const RF&w); RF ftan(const RF&w); RF fsinh(const RF&w); RF fcosh(const RF&w);
bool isreal(const RF&a);
extern int (*signHook)(const Poly&); // sign of a real polynomial over the declared variable ranges: 1 (>=0), -1 (<=0), 0 unknown
// numeric evaluation given values for variable symbols
struct Eval{ std::function<cld(int)> var; std::map<int,cld> cache; cld sym(int s); cld poly(const Poly&p); cld rf(const RF&r); };
// substitution of symbols by constants/polynomials in existing expressions (used for equality constraints)
void collect(const RF&r,std::map<int,bool>&out); // all symbols incl. those inside atoms
}
