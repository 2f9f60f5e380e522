// Double-precision operations of the instrumented code.
#include "core.h"
#include <complex.h>
#undef I
using namespace sr;
static inline bool H(double d){ return is_handle(d); }
static inline bool smallint(double d){ return d==(double)(int)d && d<1048576.0 && d>-1048576.0; }
typedef double _Complex dc;
static dc mkc(C c){ dc r; ((double*)&r)[0]=todbl(c.re); ((double*)&r)[1]=todbl(c.im); return r; }
static double R(dc z){return ((double*)&z)[0];} static double J(dc z){return ((double*)&z)[1];}
static dc dcm(double a,double b){ dc r; ((double*)&r)[0]=a; ((double*)&r)[1]=b; return r; }
extern "C" {
double sr_fadd(double a,double b){ if(!H(a)&&!H(b)){ if(smallint(a)&&smallint(b)) return a+b; if(!std::isfinite(a)||!std::isfinite(b)) return a+b; } return todbl(add(mkdbl(a),mkdbl(b))); }
double sr_fsub(double a,double b){ if(!H(a)&&!H(b)){ if(smallint(a)&&smallint(b)) return a-b; if(!std::isfinite(a)||!std::isfinite(b)) return a-b; } return todbl(sub(mkdbl(a),mkdbl(b))); }
double sr_fmul(double a,double b){ if(!H(a)&&!H(b)){ if(smallint(a)&&smallint(b)) return a*b; if(!std::isfinite(a)||!std::isfinite(b)) return a*b; } return todbl(mul(mkdbl(a),mkdbl(b))); }
double sr_fdiv(double a,double b){ if(!H(a)&&!H(b)){ if(!std::isfinite(a)||!std::isfinite(b)||b==0) return a/b; } return todbl(sr::div(mkdbl(a),mkdbl(b))); }
double sr_fneg(double a){ if(!H(a)) return -a; return todbl(neg(mkdbl(a))); }
double sr_fma(double a,double b,double c){ return sr_fadd(sr_fmul(a,b),c); }
int sr_fcmp(int p,double a,double b){ bool nan=(!H(a)&&std::isnan(a))||(!H(b)&&std::isnan(b)); 
  if(p==0) return 0; if(p==15) return 1; if(p==7) return !nan; if(p==8) return nan; if(nan) return p>=8; int q=p&7; Rel r; switch(q){case 1:r=R_EQ;break;case 2:r=R_GT;break;case 3:r=R_GE;break;case 4:r=R_LT;break;case 5:r=R_LE;break;default:r=R_NE;}
  if(!H(a)&&!H(b)){ switch(r){case R_EQ:return a==b;case R_NE:return a!=b;case R_LT:return a<b;case R_LE:return a<=b;case R_GT:return a>b;default:return a>=b;} }
  return compare(mkdbl(a),r,mkdbl(b)); }
int64_t sr_fptosi(double a){ if(!H(a)) return (int64_t)a; return concretize(mkdbl(a),0); }
int64_t sr_fptoui(double a){ if(!H(a)) return (int64_t)(uint64_t)a; return concretize(mkdbl(a),0); }
double sr_sitofp(int64_t v){ if(v<(1LL<<53)&&v>-(1LL<<53)) return (double)v; return todbl(mkconst(mpq_class(mpz_class(std::to_string(v))))); }
double sr_uitofp(uint64_t v){ if(v<(1ULL<<53)) return (double)v; return todbl(mkconst(mpq_class(mpz_class(std::to_string(v))))); }
double sr_fabs(double a){ if(!H(a)) return fabs(a); return todbl(fn1(F_ABS,mkdbl(a))); }
double sr_floor(double a){ if(!H(a)) return floor(a); return (double)concretize(mkdbl(a),1); }
double sr_ceil(double a){ if(!H(a)) return ceil(a); return (double)concretize(mkdbl(a),2); }
double sr_round(double a){ if(!H(a)) return round(a); return (double)concretize(mkdbl(a),3); }
double sr_rint(double a){ if(!H(a)) return rint(a); return (double)concretize(mkdbl(a),3); }
double sr_nearbyint(double a){ return sr_rint(a); }
double sr_trunc(double a){ if(!H(a)) return trunc(a); return (double)concretize(mkdbl(a),0); }
long sr_lround(double a){ return (long)sr_round(a);} long long sr_llround(double a){ return (long long)sr_round(a);} long sr_lrint(double a){ return (long)sr_rint(a);} 
#define U1(n,F) double sr_##n(double a){ if(!H(a)&&!std::isfinite(a)) return n(a); return todbl(fn1(F,mkdbl(a))); }
U1(sqrt,F_SQRT) U1(exp,F_EXP) U1(log,F_LOG) U1(log10,F_LOG10) U1(sin,F_SIN) U1(cos,F_COS) U1(tan,F_TAN) U1(asin,F_ASIN) U1(acos,F_ACOS) U1(atan,F_ATAN) U1(sinh,F_SINH) U1(cosh,F_COSH) U1(tanh,F_TANH) U1(asinh,F_ASINH) U1(acosh,F_ACOSH) U1(atanh,F_ATANH)
double sr_log2(double a){ if(!H(a)){ double r=log2(a); if(!std::isfinite(r)||r==floor(r)) return r; } return todbl(sr::div(fn1(F_LOG,mkdbl(a)),fn1(F_LOG,mkint(2)))); }
double sr_exp2(double a){ return todbl(fn2(F_POW,mkint(2),mkdbl(a))); }
double sr_log1p(double a){ return sr_log(sr_fadd(1,a)); } double sr_expm1(double a){ return sr_fsub(sr_exp(a),1); }
double sr_cbrt(double a){ return todbl(fn2(F_POW,mkdbl(a),mkconst(mpq_class(1,3)))); }
double sr_powi(double a,int n){ return todbl(powi(mkdbl(a),n)); }
double sr_pow(double a,double b){ if(!H(a)&&!H(b)){ if(!std::isfinite(a)||!std::isfinite(b)) return pow(a,b); if(a==0&&b<0) return pow(a,b); if(a<0&&b!=floor(b)) return NAN; } return todbl(fn2(F_POW,mkdbl(a),mkdbl(b))); }
double sr_atan2(double a,double b){ return todbl(fn2(F_ATAN2,mkdbl(a),mkdbl(b))); }
double sr_hypot(double a,double b){ if((!H(a)&&!std::isfinite(a))||(!H(b)&&!std::isfinite(b))) return hypot(H(a)?0:a,H(b)?0:b); return todbl(fn2(F_HYPOT,mkdbl(a),mkdbl(b))); }
double sr_fmax(double a,double b){ if(!H(a)&&!H(b)) return fmax(a,b); return sr_fcmp(4,a,b)?b:a; }
double sr_fmin(double a,double b){ if(!H(a)&&!H(b)) return fmin(a,b); return sr_fcmp(4,a,b)?a:b; }
double sr_fmod(double a,double b){ if(!H(a)&&!H(b)) return fmod(a,b); double q=sr_trunc(sr_fdiv(a,b)); return sr_fsub(a,sr_fmul(q,b)); }
double sr_copysign(double a,double b){ if(!H(a)&&!H(b)) return copysign(a,b); double m=sr_fabs(a); bool n= H(b)? compare(mkdbl(b),R_LT,mkint(0)) : std::signbit(b); return n?sr_fneg(m):m; }
double sr_ldexp(double a,int e){ if(!H(a)) return ldexp(a,e); return sr_fmul(a,ldexp(1.0,e)); }
double sr_modf(double a,double*ip){ double t=sr_trunc(a); *ip=t; return sr_fsub(a,t); }
double sr_frexp(double a,int*e){ if(!H(a)) return frexp(a,e); note_unsupported("frexp"); *e=0; return a; }
void sr_sincos(double a,double*s,double*c){ *s=sr_sin(a); *c=sr_cos(a); }
int sr_isclass(double a,int mask){ if(!H(a)){ int cls; if(std::isnan(a)) cls=3; else if(std::isinf(a)) cls=a<0?4:512; else if(a==0) cls=std::signbit(a)?32:64; else cls=a<0?8:256; return (cls&mask)!=0; } 
  int nm=mask&(8|16),pm=mask&(128|256),zm=mask&(32|64); if(nm&&pm&&zm) return 1; if(!nm&&!pm&&!zm) return 0; note_unsupported("is_fpclass"); return nm||pm; }
static Id CP(dc z){ return cpair(mkdbl(R(z)),mkdbl(J(z))); }
double sr_cabs(dc z){ return sr_hypot(R(z),J(z)); } double sr_carg(dc z){ return sr_atan2(J(z),R(z)); }
#define CU(n,F) dc sr_c##n(dc z){ return mkc(parts(cfn1(F,CP(z)))); }
CU(exp,F_EXP) CU(log,F_LOG) CU(sqrt,F_SQRT) CU(sin,F_SIN) CU(cos,F_COS) CU(tan,F_TAN) CU(asin,F_ASIN) CU(acos,F_ACOS) CU(atan,F_ATAN) CU(sinh,F_SINH) CU(cosh,F_COSH) CU(tanh,F_TANH)
dc sr_cpow(dc a,dc b){ return mkc(parts(cfn2(F_POW,CP(a),CP(b)))); }
dc sr___muldc3(double a,double b,double c,double d){ return dcm(sr_fsub(sr_fmul(a,c),sr_fmul(b,d)),sr_fadd(sr_fmul(a,d),sr_fmul(b,c))); }
dc sr___divdc3(double a,double b,double c,double d){ if(!H(c)&&!H(d)&&c==0&&d==0) return dcm(NAN,NAN); return mkc(parts(cop(CDIV,cpair(mkdbl(a),mkdbl(b)),cpair(mkdbl(c),mkdbl(d))))); }
}

// Text streams: a symbolic double is written as a token that reads back as the same value.
#include <iostream>
#include <locale>
std::ostream& sr_stream_out(std::ostream*os,double d) asm("_ZNSo9_M_insertIdEERSoT_");
std::istream& sr_stream_in(std::istream*is,double&d) asm("_ZNSi10_M_extractIdEERSiRT_");
std::ostream& sr_stream_out(std::ostream*os,double d){ std::ostream::sentry se(*os); if(se){ if(H(d)){ std::string t="@"+std::to_string((int)mkdbl(d)); os->rdbuf()->sputn(t.data(),t.size()); } else { auto&np=std::use_facet<std::num_put<char>>(os->getloc()); if(np.put(*os,*os,os->fill(),d).failed()) os->setstate(std::ios::badbit); } } return *os; }
std::istream& sr_stream_in(std::istream*is,double&d){ std::istream::sentry se(*is,false); if(se){ if(is->rdbuf()->sgetc()=='@'){ is->rdbuf()->sbumpc(); long v=0; int c; bool any=false; while((c=is->rdbuf()->sgetc())>='0'&&c<='9'){ v=v*10+(c-'0'); any=true; is->rdbuf()->sbumpc(); } if(any) d=todbl((Id)v); else is->setstate(std::ios::failbit); } else { std::ios_base::iostate err=std::ios::goodbit; auto&ng=std::use_facet<std::num_get<char>>(is->getloc()); double r=0; ng.get(*is,std::istreambuf_iterator<char>(),*is,err,r); d=r; if(err) is->setstate(err); } } return *is; }
