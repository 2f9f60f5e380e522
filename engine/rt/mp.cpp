// Stand-ins for MPFR and MPC: exact symbolic reals, precision kept concretely.
#define MPFR_USE_NO_MACRO 1
#define MPFR_USE_INTMAX_T
#include <cstdint>
#include <gmp.h>
#include <mpfr.h>
#include <mpc.h>
#include "core.h"
#include <cstdlib>
#include <map>
#include <cstring>
using namespace sr;
struct Cell{ Id id; int acc; };
static const int EXACT=1<<30;
static Cell* cell(mpfr_srcptr x){ return (Cell*)x->_mpfr_d; }
static Id G(mpfr_srcptr x){ return cell(x)?cell(x)->id:(Id)NANID; }
static int A(mpfr_srcptr x){ return cell(x)?cell(x)->acc:EXACT; }
static bool dyadic(Id v,long prec){ mpq_class c; if(special(v)) return true; if(!sr::isconst(v,&c)) return false; mpz_class d=c.get_den(); if(mpz_popcount(d.get_mpz_t())!=1) return false; return (long)mpz_sizeinbase(c.get_num_mpz_t(),2)-(long)mpz_scan1(c.get_num_mpz_t(),0)<=prec || sgn(c)==0; }
static int P(mpfr_ptr x,Id v,int acc){ Cell*c=cell(x); if(!c){ c=(Cell*)malloc(sizeof(Cell)); x->_mpfr_d=(mp_limb_t*)c; } c->id=v; if(acc>=EXACT&&dyadic(v,x->_mpfr_prec)) c->acc=EXACT; else c->acc=acc<x->_mpfr_prec?acc:(int)x->_mpfr_prec; return 0; }
static int dblacc(double d,Id v){ return dyadic(v,53)?EXACT:53; (void)d; }
static inline int mn(int a,int b){return a<b?a:b;}
static mpfr_prec_t defprec=53;
extern "C" { void __real___gmpq_set_d(mpq_ptr,double); int __real___gmpq_cmp(mpq_srcptr,mpq_srcptr); int __real___gmpq_equal(mpq_srcptr,mpq_srcptr); }
struct QLess{ bool operator()(const mpq_class&a,const mpq_class&b)const{ return __real___gmpq_cmp(a.get_mpq_t(),b.get_mpq_t())<0; } };
static std::map<mpq_class,Id,QLess>& qtags(){ static std::map<mpq_class,Id,QLess> m; return m; }
static bool cmpr(Id a,Rel r,Id b){ return compare(a,r,b); }
static int cmp3(Id a,Id b){ if(cmpr(a,R_LT,b)) return -1; return cmpr(a,R_GT,b)?1:0; }
extern "C" {
#define R_ mpfr_rnd_t
void mpfr_init2(mpfr_ptr x,mpfr_prec_t p){ x->_mpfr_prec=p; x->_mpfr_sign=1; x->_mpfr_exp=1; x->_mpfr_d=nullptr; P(x,NANID,EXACT); }
void mpfr_init(mpfr_ptr x){ mpfr_init2(x,defprec); }
void mpfr_clear(mpfr_ptr x){ free(x->_mpfr_d); x->_mpfr_d=nullptr; }
mpfr_prec_t mpfr_get_prec(mpfr_srcptr x){ return x->_mpfr_prec; }
void mpfr_set_prec(mpfr_ptr x,mpfr_prec_t p){ x->_mpfr_prec=p; P(x,NANID,EXACT); }
int mpfr_prec_round(mpfr_ptr x,mpfr_prec_t p,R_){ x->_mpfr_prec=p; int a=A(x); return P(x,G(x),a); }
void mpfr_set_default_prec(mpfr_prec_t p){defprec=p;} mpfr_prec_t mpfr_get_default_prec(void){return defprec;}
void mpfr_free_cache(void){} void mpfr_free_cache2(mpfr_free_cache_t){} 
int mpfr_set4(mpfr_ptr x,mpfr_srcptr y,R_,int){ return P(x,G(y),A(y)); }
int mpfr_set(mpfr_ptr x,mpfr_srcptr y,R_){ return P(x,G(y),A(y)); }
void mpfr_swap(mpfr_ptr x,mpfr_ptr y){ __mpfr_struct t=*x; *x=*y; *y=t; }
int mpfr_set_ui(mpfr_ptr x,unsigned long v,R_){ return P(x,mkconst(mpq_class(mpz_class(v))),EXACT); }
int mpfr_set_si(mpfr_ptr x,long v,R_){ return P(x,mkint(v),EXACT); }
int mpfr_set_ui_2exp(mpfr_ptr x,unsigned long v,mpfr_exp_t e,R_){ mpq_class q=mpz_class(v); if(e>=0) mpq_mul_2exp(q.get_mpq_t(),q.get_mpq_t(),e); else mpq_div_2exp(q.get_mpq_t(),q.get_mpq_t(),-e); return P(x,mkconst(q),EXACT); }
int mpfr_set_si_2exp(mpfr_ptr x,long v,mpfr_exp_t e,R_){ mpq_class q=mpz_class(v); if(e>=0) mpq_mul_2exp(q.get_mpq_t(),q.get_mpq_t(),e); else mpq_div_2exp(q.get_mpq_t(),q.get_mpq_t(),-e); return P(x,mkconst(q),EXACT); }
int mpfr_set_uj(mpfr_ptr x,uintmax_t v,R_ r){ return mpfr_set_ui(x,v,r);} int mpfr_set_sj(mpfr_ptr x,intmax_t v,R_ r){ return mpfr_set_si(x,v,r);} 
int mpfr_set_d(mpfr_ptr x,double d,R_){ Id v=mkdbl(d); return P(x,v,dblacc(d,v)); }
int mpfr_set_ld(mpfr_ptr x,long double d,R_){ double e=(double)d; Id v=mkdbl(e); return P(x,v,dblacc(e,v)); }
int mpfr_set_flt(mpfr_ptr x,float f,R_){ Id v=mkdbl(f); return P(x,v,dblacc(f,v)); }
int mpfr_set_z(mpfr_ptr x,mpz_srcptr z,R_){ return P(x,mkconst(mpq_class(mpz_class(z))),EXACT); }
int mpfr_set_q(mpfr_ptr x,mpq_srcptr q,R_){ auto it=qtags().find(mpq_class(q)); return P(x,it!=qtags().end()?it->second:mkconst(mpq_class(q)),EXACT); }
double srh_mpq_dbl(mpq_srcptr q){ auto it=qtags().find(mpq_class(q)); return todbl(it!=qtags().end()? it->second : mkconst(mpq_class(q))); }
void srh_tag_mpq(mpq_srcptr q,double d){ qtags()[mpq_class(q)]=mkdbl(d); }
// rationals made from symbolic doubles, and comparisons of tagged rationals (linked with --wrap)
static bool intag=false; static bool tagged(mpq_srcptr q,Id&v){ if(qtags().empty()||mpz_sizeinbase(mpq_denref(q),2)<121) return false; auto it=qtags().find(mpq_class(q)); if(it==qtags().end()) return false; v=it->second; return true; }
struct InTag{ InTag(){intag=true;} ~InTag(){intag=false;} };
void __wrap___gmpq_set_d(mpq_ptr q,double d){ if(d==d||intag){ __real___gmpq_set_d(q,d); return; } InTag g; Id v=mkdbl(d); static unsigned long k=0; mpz_set_ui(mpq_numref(q),1); mpz_mul_2exp(mpq_numref(q),mpq_numref(q),130); mpz_add_ui(mpq_numref(q),mpq_numref(q),2*(++k)+1); mpz_set_ui(mpq_denref(q),1); mpz_mul_2exp(mpq_denref(q),mpq_denref(q),131); qtags()[mpq_class(q)]=v; }
int __wrap___gmpq_cmp(mpq_srcptr a,mpq_srcptr b){ if(intag) return __real___gmpq_cmp(a,b); Id x,y; bool p,q; { InTag g; p=tagged(a,x); q=tagged(b,y); if(!p&&!q) return __real___gmpq_cmp(a,b); if(!p) x=mkconst(mpq_class(a)); if(!q) y=mkconst(mpq_class(b)); } return cmp3(x,y); }
int __wrap___gmpq_equal(mpq_srcptr a,mpq_srcptr b){ if(intag) return __real___gmpq_equal(a,b); Id x,y; bool p,q; { InTag g; p=tagged(a,x); q=tagged(b,y); if(!p&&!q) return __real___gmpq_equal(a,b); if(!p) x=mkconst(mpq_class(a)); if(!q) y=mkconst(mpq_class(b)); } return cmpr(x,R_EQ,y); }
void mpfr_set_inf(mpfr_ptr x,int s){ P(x,s>=0?PINF:NINF,EXACT);} void mpfr_set_nan(mpfr_ptr x){P(x,NANID,EXACT);} void mpfr_set_zero(mpfr_ptr x,int){P(x,mkint(0),EXACT);} 
double mpfr_get_d(mpfr_srcptr x,R_){ return todbl(G(x)); } long double mpfr_get_ld(mpfr_srcptr x,R_){ return todbl(G(x)); } float mpfr_get_flt(mpfr_srcptr x,R_){ return (float)numeric(G(x),0).real(); }
static long toint(mpfr_srcptr x,R_ r){ int m= r==MPFR_RNDZ?0: r==MPFR_RNDD?1: r==MPFR_RNDU?2:3; return concretize(G(x),m); }
unsigned long mpfr_get_ui(mpfr_srcptr x,R_ r){ return toint(x,r);} long mpfr_get_si(mpfr_srcptr x,R_ r){ return toint(x,r);} 
intmax_t mpfr_get_sj(mpfr_srcptr x,R_ r){return toint(x,r);} uintmax_t mpfr_get_uj(mpfr_srcptr x,R_ r){return toint(x,r);}
int mpfr_get_z(mpz_ptr z,mpfr_srcptr x,R_ r){ mpq_class c; if(sr::isconst(G(x),&c)){ if(r==MPFR_RNDZ) mpz_tdiv_q(z,c.get_num_mpz_t(),c.get_den_mpz_t()); else if(r==MPFR_RNDD) mpz_fdiv_q(z,c.get_num_mpz_t(),c.get_den_mpz_t()); else if(r==MPFR_RNDU) mpz_cdiv_q(z,c.get_num_mpz_t(),c.get_den_mpz_t()); else mpz_set_si(z,toint(x,r)); return 0;} mpz_set_si(z,toint(x,r)); return 0; }
mpfr_exp_t mpfr_get_z_2exp(mpz_ptr z,mpfr_srcptr x){ mpq_class c; if(sr::isconst(G(x),&c)){ long k=0; mpz_class d=c.get_den(); if(mpz_popcount(d.get_mpz_t())==1){ k=mpz_scan1(d.get_mpz_t(),0); mpz_set(z,c.get_num_mpz_t()); return -k; } } note_unsupported("mpfr_get_z_2exp"); mpz_set_si(z,0); return 0; }
void mpfr_get_q(mpq_ptr q,mpfr_srcptr x){ mpq_class c; if(sr::isconst(G(x),&c)) mpq_set(q,c.get_mpq_t()); else { note_unsupported("mpfr_get_q"); mpq_set_si(q,0,1);} }
static std::map<mpq_class,std::pair<Id,int>> printed;
// symbolic numbers are printed as a token that mpfr_set_str understands
static bool parse(const char*s,int base,mpq_class&q,Id&tok){ if(base==0) base=10; while(*s==' ') s++; bool ng=false; if(*s=='+'||*s=='-'){ ng=*s=='-'; s++; }
  std::string dig; long sc=0; bool dot=false,any=false; for(;*s;s++){ if(*s>='0'&&*s<='9'){ dig+=*s; any=true; if(dot) sc++; } else if(*s=='.'&&!dot) dot=true; else break; } if(!any){ tok=-1; if(!strncasecmp(s,"nan",3)||!strncmp(s,"@NaN@",5)){tok=NANID;return true;} if(!strncasecmp(s,"inf",3)||!strncmp(s,"@Inf@",5)){tok=ng?NINF:PINF;return true;} return false; } long e=0; if(*s=='e'||*s=='E'||*s=='@'){ char*end; e=strtol(s+1,&end,10); s=end; } if(*s&&*s!=' '&&*s!='\n') return false; mpz_class n(dig,10); e-=sc; if(labs(e)>100000) e=e>0?100000:-100000; mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(),10,labs(e)); q= e>=0? mpq_class(n*p) : mpq_class(n,p); q.canonicalize(); if(ng) q=-q; tok=-1; return true; }
int mpfr_set_str(mpfr_ptr x,const char*s,int base,R_){ mpq_class q; Id t; if(!parse(s,base,q,t)){ P(x,NANID,EXACT); return -1; } if(t<0){ auto it=printed.find(q); if(it!=printed.end()) return P(x,it->second.first,it->second.second); it=printed.find(-q); if(it!=printed.end()) return P(x,neg(it->second.first),it->second.second);} P(x,t>=0?t:mkconst(q),EXACT); return 0; }
char* mpfr_get_str(char*buf,mpfr_exp_t*e,int base,size_t n,mpfr_srcptr x,R_){ (void)base; std::string out; Id v=G(x); mpq_class c; *e=0; if(v==NANID) out="@NaN@"; else if(v==PINF) out="@Inf@"; else if(v==NINF) out="-@Inf@"; else { if(!sr::isconst(v,&c)){ size_t nd=n?n:(size_t)(2+x->_mpfr_prec*0.30103); uint64_t h=0x9E3779B97F4A7C15ULL*(v+11); std::string dg; for(size_t k=0;k<nd;k++){ h^=h<<13; h^=h>>7; h^=h<<17; dg+=(char)('1'+h%9); } mpz_class z(dg,10),p; mpz_ui_pow_ui(p.get_mpz_t(),10,nd-1); c=mpq_class(z,p); c.canonicalize(); printed[c]={v,mn(A(x),(int)(nd*3.3219281))}; }
    size_t nd=n?n:(size_t)(2+x->_mpfr_prec*0.30103); if(nd<1) nd=1; bool ng=sgn(c)<0; if(ng) c=-c; if(sgn(c)==0){ out=std::string(nd,'0'); *e=0; } else { long ex=(long)mpz_sizeinbase(c.get_num_mpz_t(),10)-(long)mpz_sizeinbase(c.get_den_mpz_t(),10); auto scaled=[&](long k){ mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(),10,labs(k)); return k>=0?mpq_class(c*mpq_class(p)):mpq_class(c/mpq_class(p)); };
      // want 10^(nd-1) <= c*10^k < 10^nd
      mpz_class lo,hi; mpz_ui_pow_ui(lo.get_mpz_t(),10,nd-1); hi=lo*10; long k=(long)nd-ex; while(scaled(k)>=mpq_class(hi)) k--; while(scaled(k)<mpq_class(lo)) k++; mpq_class t=scaled(k)+mpq_class(1,2); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); if(z>=hi){ z/=10; k--; } { mpz_class pk; mpz_ui_pow_ui(pk.get_mpz_t(),10,labs(k)); mpq_class q= k>=0? mpq_class(z,pk) : mpq_class(z*pk); q.canonicalize(); if(sr::isconst(v)&&q!=c) printed[q]={ng?neg(v):v,mn(A(x),(int)(nd*3.3219281))}; } out=z.get_str(); *e=(long)nd-k; } if(ng) out="-"+out; }
  if(!buf) buf=(char*)malloc(out.size()+2>8?out.size()+2:8); strcpy(buf,out.c_str()); return buf; }
void mpfr_free_str(char*s){ free(s); }
#define B2(n,OP) int mpfr_##n(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ int ac=mn(A(a),A(b)); return P(r,OP(G(a),G(b)),ac); }
B2(add,add) B2(sub,sub) B2(mul,mul) B2(div,sr::div)
#define BU(n,OP) int mpfr_##n##_ui(mpfr_ptr r,mpfr_srcptr a,unsigned long b,R_){ return P(r,OP(G(a),mkconst(mpq_class(mpz_class(b)))),A(a)); } int mpfr_##n##_si(mpfr_ptr r,mpfr_srcptr a,long b,R_){ return P(r,OP(G(a),mkint(b)),A(a)); } int mpfr_##n##_d(mpfr_ptr r,mpfr_srcptr a,double b,R_){ Id v=mkdbl(b); return P(r,OP(G(a),v),mn(A(a),dblacc(b,v))); } int mpfr_##n##_z(mpfr_ptr r,mpfr_srcptr a,mpz_srcptr b,R_){ return P(r,OP(G(a),mkconst(mpq_class(mpz_class(b)))),A(a)); } int mpfr_##n##_q(mpfr_ptr r,mpfr_srcptr a,mpq_srcptr b,R_){ return P(r,OP(G(a),mkconst(mpq_class(b))),A(a)); }
BU(add,add) BU(sub,sub) BU(mul,mul) BU(div,sr::div)
int mpfr_ui_div(mpfr_ptr r,unsigned long a,mpfr_srcptr b,R_){ return P(r,sr::div(mkconst(mpq_class(mpz_class(a))),G(b)),A(b)); }
int mpfr_si_div(mpfr_ptr r,long a,mpfr_srcptr b,R_){ return P(r,sr::div(mkint(a),G(b)),A(b)); }
int mpfr_d_div(mpfr_ptr r,double a,mpfr_srcptr b,R_){ Id v=mkdbl(a); return P(r,sr::div(v,G(b)),mn(A(b),dblacc(a,v))); }
int mpfr_ui_sub(mpfr_ptr r,unsigned long a,mpfr_srcptr b,R_){ return P(r,sub(mkconst(mpq_class(mpz_class(a))),G(b)),A(b)); }
int mpfr_si_sub(mpfr_ptr r,long a,mpfr_srcptr b,R_){ return P(r,sub(mkint(a),G(b)),A(b)); }
int mpfr_d_sub(mpfr_ptr r,double a,mpfr_srcptr b,R_){ Id v=mkdbl(a); return P(r,sub(v,G(b)),mn(A(b),dblacc(a,v))); }
int mpfr_neg(mpfr_ptr r,mpfr_srcptr a,R_){ return P(r,neg(G(a)),A(a)); }
int mpfr_abs(mpfr_ptr r,mpfr_srcptr a,R_){ return P(r,fn1(F_ABS,G(a)),A(a)); }
int mpfr_sqr(mpfr_ptr r,mpfr_srcptr a,R_){ return P(r,mul(G(a),G(a)),A(a)); }
int mpfr_fma(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,mpfr_srcptr c,R_){ return P(r,add(mul(G(a),G(b)),G(c)),mn(mn(A(a),A(b)),A(c))); }
int mpfr_fms(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,mpfr_srcptr c,R_){ return P(r,sub(mul(G(a),G(b)),G(c)),mn(mn(A(a),A(b)),A(c))); }
int mpfr_mul_2ui(mpfr_ptr r,mpfr_srcptr a,unsigned long k,R_){ if(k>1000000) return P(r,mul(G(a),PINF),EXACT); mpz_class p=1; p<<=k; return P(r,mul(G(a),mkconst(mpq_class(p))),A(a)); }
int mpfr_div_2ui(mpfr_ptr r,mpfr_srcptr a,unsigned long k,R_){ if(k>1000000) return P(r,mkint(0),EXACT); mpz_class p=1; p<<=k; return P(r,sr::div(G(a),mkconst(mpq_class(p))),A(a)); }
int mpfr_mul_2si(mpfr_ptr r,mpfr_srcptr a,long k,R_ m){ return k>=0?mpfr_mul_2ui(r,a,k,m):mpfr_div_2ui(r,a,-k,m);} int mpfr_div_2si(mpfr_ptr r,mpfr_srcptr a,long k,R_ m){ return mpfr_mul_2si(r,a,-k,m);} 
int mpfr_mul_2exp(mpfr_ptr r,mpfr_srcptr a,unsigned long k,R_ m){ return mpfr_mul_2ui(r,a,k,m);} int mpfr_div_2exp(mpfr_ptr r,mpfr_srcptr a,unsigned long k,R_ m){ return mpfr_div_2ui(r,a,k,m);} 
int mpfr_pow_ui(mpfr_ptr r,mpfr_srcptr a,unsigned long k,R_){ return P(r,powi(G(a),k),A(a)); } int mpfr_pow_si(mpfr_ptr r,mpfr_srcptr a,long k,R_){ return P(r,powi(G(a),k),A(a)); }
int mpfr_pow_z(mpfr_ptr r,mpfr_srcptr a,mpz_srcptr k,R_){ return P(r,powi(G(a),mpz_get_si(k)),A(a)); }
int mpfr_ui_pow_ui(mpfr_ptr r,unsigned long a,unsigned long k,R_){ return P(r,powi(mkint(a),k),EXACT); } int mpfr_ui_pow(mpfr_ptr r,unsigned long a,mpfr_srcptr b,R_){ return P(r,fn2(F_POW,mkint(a),G(b)),A(b)); }
int mpfr_pow(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ return P(r,fn2(F_POW,G(a),G(b)),mn(A(a),A(b))); }
#define F1(n,F) int mpfr_##n(mpfr_ptr r,mpfr_srcptr a,R_){ return P(r,fn1(F,G(a)),A(a)); }
F1(sqrt,F_SQRT) F1(exp,F_EXP) F1(log,F_LOG) F1(log10,F_LOG10) F1(sin,F_SIN) F1(cos,F_COS) F1(tan,F_TAN) F1(asin,F_ASIN) F1(acos,F_ACOS) F1(atan,F_ATAN) F1(sinh,F_SINH) F1(cosh,F_COSH) F1(tanh,F_TANH) F1(asinh,F_ASINH) F1(acosh,F_ACOSH) F1(atanh,F_ATANH)
int mpfr_log2(mpfr_ptr r,mpfr_srcptr a,R_){ return P(r,sr::div(fn1(F_LOG,G(a)),fn1(F_LOG,mkint(2))),A(a)); }
int mpfr_sin_cos(mpfr_ptr s,mpfr_ptr c,mpfr_srcptr a,R_){ Id v=G(a); int ac=A(a); P(s,fn1(F_SIN,v),ac); return P(c,fn1(F_COS,v),ac); }
int mpfr_atan2(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ return P(r,fn2(F_ATAN2,G(a),G(b)),mn(A(a),A(b))); }
int mpfr_hypot(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ return P(r,fn2(F_HYPOT,G(a),G(b)),mn(A(a),A(b))); }
int mpfr_sqrt_ui(mpfr_ptr r,unsigned long a,R_){ return P(r,fn1(F_SQRT,mkint(a)),EXACT); }
int mpfr_const_pi(mpfr_ptr r,R_){ return P(r,pi(),EXACT);} int mpfr_const_log2(mpfr_ptr r,R_){ return P(r,fn1(F_LOG,mkint(2)),EXACT);} 
int mpfr_rint(mpfr_ptr r,mpfr_srcptr a,R_ m){ return P(r,mkint(toint(a,m)),EXACT);} int mpfr_floor(mpfr_ptr r,mpfr_srcptr a){ return P(r,mkint(concretize(G(a),1)),EXACT);} int mpfr_ceil(mpfr_ptr r,mpfr_srcptr a){ return P(r,mkint(concretize(G(a),2)),EXACT);} int mpfr_round(mpfr_ptr r,mpfr_srcptr a){ return P(r,mkint(concretize(G(a),3)),EXACT);} int mpfr_trunc(mpfr_ptr r,mpfr_srcptr a){ return P(r,mkint(concretize(G(a),0)),EXACT);} 
int mpfr_rint_round(mpfr_ptr r,mpfr_srcptr a,R_){return mpfr_round(r,a);} int mpfr_rint_trunc(mpfr_ptr r,mpfr_srcptr a,R_){return mpfr_trunc(r,a);} 
int mpfr_less_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_LT,G(b)); } int mpfr_lessequal_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_LE,G(b)); } int mpfr_greater_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_GT,G(b)); } int mpfr_greaterequal_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_GE,G(b)); } int mpfr_equal_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_EQ,G(b)); } int mpfr_lessgreater_p(mpfr_srcptr a,mpfr_srcptr b){ return cmpr(G(a),R_NE,G(b)); } int mpfr_unordered_p(mpfr_srcptr a,mpfr_srcptr b){ return G(a)==NANID||G(b)==NANID; }
int mpfr_cmp3(mpfr_srcptr a,mpfr_srcptr b,int s){ int c=cmp3(G(a),G(b)); return s>=0?c:-c; } int mpfr_cmp(mpfr_srcptr a,mpfr_srcptr b){ return cmp3(G(a),G(b)); } int mpfr_cmpabs(mpfr_srcptr a,mpfr_srcptr b){ return cmp3(fn1(F_ABS,G(a)),fn1(F_ABS,G(b))); }
int mpfr_cmp_d(mpfr_srcptr a,double d){ return cmp3(G(a),mkdbl(d)); } int mpfr_cmp_ld(mpfr_srcptr a,long double d){ return cmp3(G(a),mkdbl((double)d)); } int mpfr_cmp_ui(mpfr_srcptr a,unsigned long v){ return cmp3(G(a),mkconst(mpq_class(mpz_class(v)))); } int mpfr_cmp_si(mpfr_srcptr a,long v){ return cmp3(G(a),mkint(v)); }
int mpfr_cmp_si_2exp(mpfr_srcptr a,long v,mpfr_exp_t e){ mpq_class q=mpz_class(v); if(e>=0) mpq_mul_2exp(q.get_mpq_t(),q.get_mpq_t(),e); else mpq_div_2exp(q.get_mpq_t(),q.get_mpq_t(),-e); return cmp3(G(a),mkconst(q)); } int mpfr_cmp_ui_2exp(mpfr_srcptr a,unsigned long v,mpfr_exp_t e){ mpq_class q=mpz_class(v); if(e>=0) mpq_mul_2exp(q.get_mpq_t(),q.get_mpq_t(),e); else mpq_div_2exp(q.get_mpq_t(),q.get_mpq_t(),-e); return cmp3(G(a),mkconst(q)); }
int mpfr_cmp_z(mpfr_srcptr a,mpz_srcptr z){ return cmp3(G(a),mkconst(mpq_class(mpz_class(z)))); } int mpfr_cmp_q(mpfr_srcptr a,mpq_srcptr q){ Id v; bool t; { InTag g; t=tagged(q,v); } return cmp3(G(a),t?v:mkconst(mpq_class(q))); }
int mpfr_sgn(mpfr_srcptr a){ return cmp3(G(a),mkint(0)); } int mpfr_zero_p(mpfr_srcptr a){ return cmpr(G(a),R_EQ,mkint(0)); } int mpfr_nan_p(mpfr_srcptr a){ return G(a)==NANID; } int mpfr_inf_p(mpfr_srcptr a){ return G(a)==PINF||G(a)==NINF; } int mpfr_number_p(mpfr_srcptr a){ return !special(G(a)); } int mpfr_regular_p(mpfr_srcptr a){ return !special(G(a))&&!mpfr_zero_p(a); } int mpfr_signbit(mpfr_srcptr a){ return cmpr(G(a),R_LT,mkint(0)); } int mpfr_integer_p(mpfr_srcptr a){ mpq_class c; if(sr::isconst(G(a),&c)) return c.get_den()==1; return 0; }
int mpfr_fits_ulong_p(mpfr_srcptr a,R_){ return !special(G(a))&&cmpr(G(a),R_GE,mkint(0)); } int mpfr_fits_slong_p(mpfr_srcptr a,R_){ return !special(G(a)); } int mpfr_fits_sint_p(mpfr_srcptr a,R_){ return !special(G(a)); } int mpfr_fits_uint_p(mpfr_srcptr a,R_){ return !special(G(a))&&cmpr(G(a),R_GE,mkint(0)); }
int mpfr_fits_intmax_p(mpfr_srcptr a,R_){ return !special(G(a)); } int mpfr_fits_uintmax_p(mpfr_srcptr a,R_){ return !special(G(a))&&cmpr(G(a),R_GE,mkint(0)); } int __gmpfr_fits_intmax_p(mpfr_srcptr a,R_){ return !special(G(a)); }
int mpfr_max(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ return P(r,cmpr(G(a),R_LT,G(b))?G(b):G(a),mn(A(a),A(b))); } int mpfr_min(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ return P(r,cmpr(G(a),R_LT,G(b))?G(a):G(b),mn(A(a),A(b))); }
int mpfr_setsign(mpfr_ptr r,mpfr_srcptr a,int s,R_){ Id v=fn1(F_ABS,G(a)); return P(r,s?neg(v):v,A(a)); } int mpfr_copysign(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ Id v=fn1(F_ABS,G(a)); return P(r,mpfr_signbit(b)?neg(v):v,A(a)); }
mpfr_exp_t mpfr_get_exp(mpfr_srcptr a){ mpq_class c; if(sr::isconst(G(a),&c)&&sgn(c)!=0){ long e; double d=mpf_get_d_2exp(&e,mpf_class(abs(c),64).get_mpf_t()); (void)d; return e; } note_unsupported("mpfr_get_exp"); return 1; } int mpfr_set_exp(mpfr_ptr,mpfr_exp_t){ note_unsupported("mpfr_set_exp"); return 0; }
mpfr_exp_t mpfr_get_emax(void){ return (1L<<62)-1; } mpfr_exp_t mpfr_get_emin(void){ return 1-(1L<<62); } int mpfr_set_emax(mpfr_exp_t){return 0;} int mpfr_set_emin(mpfr_exp_t){return 0;}
void mpfr_set_erangeflag(void){} void mpfr_clear_flags(void){} void mpfr_clear_erangeflag(void){} int mpfr_erangeflag_p(void){return 0;} int mpfr_inexflag_p(void){return 1;} void mpfr_clear_inexflag(void){}
int mpfr_modf(mpfr_ptr ip,mpfr_ptr fp,mpfr_srcptr a,R_){ Id v=G(a); Id t=mkint(concretize(v,0)); int ac=A(a); P(ip,t,EXACT); return P(fp,sub(v,t),ac); }
int mpfr_fmod(mpfr_ptr r,mpfr_srcptr a,mpfr_srcptr b,R_){ Id q=mkint(concretize(sr::div(G(a),G(b)),0)); return P(r,sub(G(a),mul(q,G(b))),mn(A(a),A(b))); } int mpfr_remquo(mpfr_ptr r,long*q,mpfr_srcptr a,mpfr_srcptr b,R_){ long k=concretize(sr::div(G(a),G(b)),3); *q=k; return P(r,sub(G(a),mul(mkint(k),G(b))),mn(A(a),A(b))); }
const char* mpfr_get_version(void){ return "4.2.1"; }
// ------------------------------------------------------------------ MPC
#define C_ mpc_rnd_t
static Id CG(mpc_srcptr z){ return cpair(G(z->re),G(z->im)); }
static int CA(mpc_srcptr z){ return mn(A(z->re),A(z->im)); }
static int CPUT(mpc_ptr z,Id c,int acc){ C p=parts(c); P(z->re,p.re,acc); P(z->im,p.im,acc); return 0; }
void mpc_init2(mpc_ptr z,mpfr_prec_t p){ mpfr_init2(z->re,p); mpfr_init2(z->im,p);} void mpc_init3(mpc_ptr z,mpfr_prec_t p,mpfr_prec_t q){ mpfr_init2(z->re,p); mpfr_init2(z->im,q);} void mpc_clear(mpc_ptr z){ mpfr_clear(z->re); mpfr_clear(z->im);} 
mpfr_prec_t mpc_get_prec(mpc_srcptr z){ return z->re->_mpfr_prec==z->im->_mpfr_prec?z->re->_mpfr_prec:0; } void mpc_get_prec2(mpfr_prec_t*a,mpfr_prec_t*b,mpc_srcptr z){*a=z->re->_mpfr_prec;*b=z->im->_mpfr_prec;} void mpc_set_prec(mpc_ptr z,mpfr_prec_t p){ mpfr_set_prec(z->re,p); mpfr_set_prec(z->im,p);} 
void mpc_swap(mpc_ptr a,mpc_ptr b){ mpfr_swap(a->re,b->re); mpfr_swap(a->im,b->im);} 
int mpc_set(mpc_ptr a,mpc_srcptr b,C_){ int x=A(b->re),y=A(b->im); Id r=G(b->re),i=G(b->im); P(a->re,r,x); return P(a->im,i,y);} 
int mpc_set_ui(mpc_ptr a,unsigned long v,C_){ mpfr_set_ui(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_si(mpc_ptr a,long v,C_){ mpfr_set_si(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_ui_ui(mpc_ptr a,unsigned long v,unsigned long w,C_){ mpfr_set_ui(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,w,MPFR_RNDN);} int mpc_set_si_si(mpc_ptr a,long v,long w,C_){ mpfr_set_si(a->re,v,MPFR_RNDN); return mpfr_set_si(a->im,w,MPFR_RNDN);} int mpc_set_sj(mpc_ptr a,intmax_t v,C_ r){return mpc_set_si(a,v,r);} int mpc_set_uj(mpc_ptr a,uintmax_t v,C_ r){return mpc_set_ui(a,v,r);} 
int mpc_set_d(mpc_ptr a,double v,C_){ mpfr_set_d(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_d_d(mpc_ptr a,double v,double w,C_){ mpfr_set_d(a->re,v,MPFR_RNDN); return mpfr_set_d(a->im,w,MPFR_RNDN);} int mpc_set_ld(mpc_ptr a,long double v,C_){ mpfr_set_ld(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_ld_ld(mpc_ptr a,long double v,long double w,C_){ mpfr_set_ld(a->re,v,MPFR_RNDN); return mpfr_set_ld(a->im,w,MPFR_RNDN);} 
int mpc_set_fr(mpc_ptr a,mpfr_srcptr v,C_){ mpfr_set(a->re,v,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_fr_fr(mpc_ptr a,mpfr_srcptr v,mpfr_srcptr w,C_){ Id x=G(v),y=G(w); int p=A(v),q=A(w); P(a->re,x,p); return P(a->im,y,q);} int mpc_set_z(mpc_ptr a,mpz_srcptr z,C_){ mpfr_set_z(a->re,z,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_z_z(mpc_ptr a,mpz_srcptr z,mpz_srcptr w,C_){ mpfr_set_z(a->re,z,MPFR_RNDN); return mpfr_set_z(a->im,w,MPFR_RNDN);} int mpc_set_q(mpc_ptr a,mpq_srcptr q,C_){ mpfr_set_q(a->re,q,MPFR_RNDN); return mpfr_set_ui(a->im,0,MPFR_RNDN);} int mpc_set_q_q(mpc_ptr a,mpq_srcptr q,mpq_srcptr w,C_){ mpfr_set_q(a->re,q,MPFR_RNDN); return mpfr_set_q(a->im,w,MPFR_RNDN);} void mpc_set_nan(mpc_ptr z){ mpfr_set_nan(z->re); mpfr_set_nan(z->im);} 
int mpc_real(mpfr_ptr r,mpc_srcptr z,R_){ return P(r,G(z->re),A(z->re)); } int mpc_imag(mpfr_ptr r,mpc_srcptr z,R_){ return P(r,G(z->im),A(z->im)); }
#define CB(n,OP) int mpc_##n(mpc_ptr r,mpc_srcptr a,mpc_srcptr b,C_){ int ac=mn(CA(a),CA(b)); return CPUT(r,cop(OP,CG(a),CG(b)),ac); }
CB(add,CADD) CB(sub,CSUB) CB(mul,CMUL) CB(div,CDIV)
static Id CR(Id x){ return cpair(x,mkint(0)); }
int mpc_sqr(mpc_ptr r,mpc_srcptr a,C_){ Id c=CG(a); return CPUT(r,cop(CMUL,c,c),CA(a)); } int mpc_neg(mpc_ptr r,mpc_srcptr a,C_){ return CPUT(r,cneg(CG(a)),CA(a)); } int mpc_conj(mpc_ptr r,mpc_srcptr a,C_){ return CPUT(r,conjg(CG(a)),CA(a)); }
int mpc_fma(mpc_ptr r,mpc_srcptr a,mpc_srcptr b,mpc_srcptr c,C_){ return CPUT(r,cop(CADD,cop(CMUL,CG(a),CG(b)),CG(c)),mn(mn(CA(a),CA(b)),CA(c))); }
int mpc_add_fr(mpc_ptr r,mpc_srcptr a,mpfr_srcptr b,C_){ Id x=add(G(a->re),G(b)),y=G(a->im); int ac=mn(CA(a),A(b)); P(r->re,x,ac); return P(r->im,y,ac);} int mpc_sub_fr(mpc_ptr r,mpc_srcptr a,mpfr_srcptr b,C_){ Id x=sub(G(a->re),G(b)),y=G(a->im); int ac=mn(CA(a),A(b)); P(r->re,x,ac); return P(r->im,y,ac);} int mpc_fr_sub(mpc_ptr r,mpfr_srcptr b,mpc_srcptr a,C_){ Id x=sub(G(b),G(a->re)),y=neg(G(a->im)); int ac=mn(CA(a),A(b)); P(r->re,x,ac); return P(r->im,y,ac);} int mpc_mul_fr(mpc_ptr r,mpc_srcptr a,mpfr_srcptr b,C_){ return CPUT(r,cop(CMUL,CG(a),CR(G(b))),mn(CA(a),A(b))); } int mpc_div_fr(mpc_ptr r,mpc_srcptr a,mpfr_srcptr b,C_){ return CPUT(r,cop(CDIV,CG(a),CR(G(b))),mn(CA(a),A(b))); } int mpc_fr_div(mpc_ptr r,mpfr_srcptr b,mpc_srcptr a,C_){ return CPUT(r,cop(CDIV,CR(G(b)),CG(a)),mn(CA(a),A(b))); }
int mpc_add_ui(mpc_ptr r,mpc_srcptr a,unsigned long b,C_){ Id x=add(G(a->re),mkint(b)),y=G(a->im); int ac=CA(a); P(r->re,x,ac); return P(r->im,y,ac);} int mpc_add_si(mpc_ptr r,mpc_srcptr a,long b,C_){ Id x=add(G(a->re),mkint(b)),y=G(a->im); int ac=CA(a); P(r->re,x,ac); return P(r->im,y,ac);} int mpc_sub_ui(mpc_ptr r,mpc_srcptr a,unsigned long b,C_){ Id x=sub(G(a->re),mkint(b)),y=G(a->im); int ac=CA(a); P(r->re,x,ac); return P(r->im,y,ac);}
int mpc_mul_ui(mpc_ptr r,mpc_srcptr a,unsigned long b,C_){ return CPUT(r,cop(CMUL,CG(a),CR(mkint(b))),CA(a)); } int mpc_mul_si(mpc_ptr r,mpc_srcptr a,long b,C_){ return CPUT(r,cop(CMUL,CG(a),CR(mkint(b))),CA(a)); } int mpc_div_ui(mpc_ptr r,mpc_srcptr a,unsigned long b,C_){ return CPUT(r,cop(CDIV,CG(a),CR(mkint(b))),CA(a)); } int mpc_ui_div(mpc_ptr r,unsigned long b,mpc_srcptr a,C_){ return CPUT(r,cop(CDIV,CR(mkint(b)),CG(a)),CA(a)); } int mpc_mul_i(mpc_ptr r,mpc_srcptr a,int s,C_){ return CPUT(r,cop(CMUL,CG(a),cpair(mkint(0),mkint(s>=0?1:-1))),CA(a)); }
int mpc_abs(mpfr_ptr r,mpc_srcptr a,R_){ return P(r,fn2(F_HYPOT,G(a->re),G(a->im)),CA(a)); } int mpc_norm(mpfr_ptr r,mpc_srcptr a,R_){ return P(r,add(mul(G(a->re),G(a->re)),mul(G(a->im),G(a->im))),CA(a)); } int mpc_arg(mpfr_ptr r,mpc_srcptr a,R_){ return P(r,fn2(F_ATAN2,G(a->im),G(a->re)),CA(a)); } int mpc_proj(mpc_ptr r,mpc_srcptr a,C_ m){ return mpc_set(r,a,m); }
int mpc_cmp(mpc_srcptr a,mpc_srcptr b){ int x=cmpr(G(a->re),R_EQ,G(b->re))?0:1; int y=cmpr(G(a->im),R_EQ,G(b->im))?0:1; if(x==0&&y==0) return 0; int rx= x?1:0,ry=y?1:0; return rx|(ry<<2); } int mpc_cmp_si_si(mpc_srcptr a,long b,long c){ int x=cmpr(G(a->re),R_EQ,mkint(b))?0:1,y=cmpr(G(a->im),R_EQ,mkint(c))?0:1; return x|(y<<2); } int mpc_cmp_abs(mpc_srcptr a,mpc_srcptr b){ return cmp3(fn2(F_HYPOT,G(a->re),G(a->im)),fn2(F_HYPOT,G(b->re),G(b->im))); }
#define CF(n,F) int mpc_##n(mpc_ptr r,mpc_srcptr a,C_){ return CPUT(r,cfn1(F,CG(a)),CA(a)); }
CF(sqrt,F_SQRT) CF(exp,F_EXP) CF(log,F_LOG) CF(sin,F_SIN) CF(cos,F_COS) CF(tan,F_TAN) CF(asin,F_ASIN) CF(acos,F_ACOS) CF(atan,F_ATAN) CF(sinh,F_SINH) CF(cosh,F_COSH) CF(tanh,F_TANH) CF(asinh,F_ASINH) CF(acosh,F_ACOSH) CF(atanh,F_ATANH)
int mpc_log10(mpc_ptr r,mpc_srcptr a,C_){ return CPUT(r,cop(CDIV,cfn1(F_LOG,CG(a)),CR(fn1(F_LOG,mkint(10)))),CA(a)); }
int mpc_pow(mpc_ptr r,mpc_srcptr a,mpc_srcptr b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CG(b)),mn(CA(a),CA(b))); } int mpc_pow_fr(mpc_ptr r,mpc_srcptr a,mpfr_srcptr b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CR(G(b))),mn(CA(a),A(b))); } int mpc_pow_si(mpc_ptr r,mpc_srcptr a,long b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CR(mkint(b))),CA(a)); } int mpc_pow_ui(mpc_ptr r,mpc_srcptr a,unsigned long b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CR(mkint(b))),CA(a)); } int mpc_pow_d(mpc_ptr r,mpc_srcptr a,double b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CR(mkdbl(b))),CA(a)); } int mpc_pow_z(mpc_ptr r,mpc_srcptr a,mpz_srcptr b,C_){ return CPUT(r,cfn2(F_POW,CG(a),CR(mkint(mpz_get_si(b)))),CA(a)); } int mpc_mul_2ui(mpc_ptr r,mpc_srcptr a,unsigned long k,C_){ mpz_class p=1;p<<=k; return CPUT(r,cop(CMUL,CG(a),CR(mkconst(mpq_class(p)))),CA(a)); } int mpc_div_2ui(mpc_ptr r,mpc_srcptr a,unsigned long k,C_){ mpz_class p=1;p<<=k; return CPUT(r,cop(CDIV,CG(a),CR(mkconst(mpq_class(p)))),CA(a)); }
int mpc_set_str(mpc_ptr z,const char*s,int base,C_){ const char*p=s; while(*p==' ')p++; if(*p=='('){ std::string t(p+1); size_t sp=t.find(' '); size_t e=t.find(')'); mpfr_set_str(z->re,t.substr(0,sp).c_str(),base,MPFR_RNDN); return mpfr_set_str(z->im,t.substr(sp+1,e-sp-1).c_str(),base,MPFR_RNDN);} mpfr_set_ui(z->im,0,MPFR_RNDN); return mpfr_set_str(z->re,s,base,MPFR_RNDN); }
// harness access
void srh_mp_get(mpfr_srcptr x,double*d,int*acc){ *d=todbl(G(x)); *acc=A(x); }
void srh_mp_set(mpfr_ptr x,double d){ P(x,mkdbl(d),EXACT); }
}
