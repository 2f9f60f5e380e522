#include <execinfo.h>
#include "core.h"
#include <unordered_map>
#include <map>
#include <set>
#include <random>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <time.h>
#include <atomic>
#include <array>
#include <z3++.h>
#include <cxxabi.h>
#include <typeinfo>
using namespace alg;
namespace sr {
std::vector<Node> nodes;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
// ---------------------------------------------------------------- shared state
struct Shared{ std::atomic<int> active; std::atomic<long> paths,forks,pruned,queries,unsat,sat,unknown,eq_proved,eq_z3,eq_unproved,ineq_proved,checks,cands,skipped_eq,truncated,crashed,toobig,unsupported,maxdepth,conf_q,conf_unsat,conf_other,conf_pairs,conf_us; std::atomic<long> z3us; std::atomic<int> stop; };
static Shared*S; static int logfd=-1; static std::string outdir; static double deadline=1e300; static int maxpar=8; static long maxcand=12; static double ztimeout=4.0;
static std::vector<std::pair<std::string,int>> choices; static int depth=0; static pid_t rootpid;
static std::vector<pid_t> kids;
static bool cfg_explore_eq=true,cfg_generic=false; static bool maybeInfeasible=false; static double pathlimit=120;
static void logline(const std::string&s){ std::string t=s+"\n"; ssize_t r=write(logfd,t.data(),t.size()); (void)r; }
static std::string jesc(const std::string&s){ std::string r; for(char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c;} return r; }
// ---------------------------------------------------------------- nodes
struct Key{ Op op;Fn fn;int a,b; bool operator==(const Key&o)const{return op==o.op&&fn==o.fn&&a==o.a&&b==o.b;} };
struct KH{ size_t operator()(const Key&k)const{ return ((size_t)k.op*131+k.fn)*1000003u ^ (size_t)k.a*2654435761u ^ ((size_t)k.b*40503u<<7);} };
static std::unordered_map<Key,Id,KH> cons; static std::map<mpq_class,Id> consts;
static void initNodes(){ if(nodes.empty()){ for(int i=0;i<3;i++){ Node n; n.op=SPECIAL;n.fn=F_NONE;n.a=n.b=0; nodes.push_back(n);} } }
static Id mk(Op op,Fn fn,int a,int b){ initNodes(); Key k{op,fn,a,b}; auto it=cons.find(k); if(it!=cons.end()) return it->second; Node n; n.op=op;n.fn=fn;n.a=a;n.b=b; nodes.push_back(n); Id id=nodes.size()-1; cons[k]=id; return id; }
Id mkconst(const mpq_class&q){ initNodes(); auto it=consts.find(q); if(it!=consts.end()) return it->second; Node n; n.op=CONST;n.fn=F_NONE;n.a=n.b=0;n.c=q; nodes.push_back(n); Id id=nodes.size()-1; consts[q]=id; return id; }
Id mkint(long v){ return mkconst(mpq_class(v)); }
bool isconst(Id x,mpq_class*v){ if(nodes[x].op!=CONST) return false; if(v)*v=nodes[x].c; return true; }
static const uint64_t TAG=0x7FFAULL<<48;
bool is_handle(double d){ uint64_t b; memcpy(&b,&d,8); return (b>>48)==0x7FFA; }
static mpq_class simplest(double d){ // simplest rational that rounds to d
  mpq_class ex(d); if(ex.get_den()<=1024||fabs(d)>1e15) return ex; 
  mpz_class n=ex.get_num(),m=ex.get_den(); mpz_class p0=0,q0=1,p1=1,q1=0; 
  for(int k=0;k<40;k++){ mpz_class a; mpz_fdiv_q(a.get_mpz_t(),n.get_mpz_t(),m.get_mpz_t()); mpz_class p2=a*p1+p0,q2=a*q1+q0; if(q2>1000000) break; mpq_class c(p2,q2); c.canonicalize(); 
    // nearest double of c
    mpq_class df=c-ex; if(df<0) df=-df; double ulp=nextafter(fabs(d),INFINITY)-fabs(d); if(df<=mpq_class(ulp)/2) return c;
    p0=p1;q0=q1;p1=p2;q1=q2; mpz_class r=n-a*m; if(r==0) break; n=m; m=r; }
  return ex; }
static Id PI=-1;
Id pi(){ if(PI<0){ initNodes(); PI=mk(VREAL,F_NONE,piSym(),0);} return PI; }
Id mkdbl(double d){ initNodes(); if(is_handle(d)){ uint64_t b; memcpy(&b,&d,8); return (Id)(b&0xFFFFFFFFFFFFULL); } if(std::isnan(d)) return NANID; if(std::isinf(d)) return d>0?PINF:NINF; 
  static std::unordered_map<uint64_t,Id> memo; uint64_t b; memcpy(&b,&d,8); auto it=memo.find(b); if(it!=memo.end()) return it->second; 
  Id r; double ad=fabs(d); 
  if(ad==M_PI||ad==2*M_PI||ad==M_PI/2||ad==M_PI/4){ r=mul(mkconst(mpq_class(d/M_PI)),pi()); }
  else if(ad==M_E){ r=fn1(F_EXP,mkint(d>0?1:1)); if(d<0) r=neg(r);} else r=mkconst(simplest(d)); memo[b]=r; return r; }
static double nearest(const mpq_class&q){ double d=mpq_get_d(q.get_mpq_t()); if(!std::isfinite(d)) return d; double best=d; mpq_class bd=abs(q-mpq_class(d)); for(double e:{nextafter(d,INFINITY),nextafter(d,-INFINITY)}){ if(!std::isfinite(e)) continue; mpq_class dd=abs(q-mpq_class(e)); if(dd<bd){bd=dd;best=e;} } return best; }
double todbl(Id x){ if(x==NANID) return NAN; if(x==PINF) return INFINITY; if(x==NINF) return -INFINITY; if(nodes[x].op==CONST){ double d=nearest(nodes[x].c); if(std::isfinite(d)&&mkdbl(d)==x) return d; } uint64_t b=TAG|(uint64_t)x; double d; memcpy(&d,&b,8); return d; }
static int csgn(Id x){ return sgn(nodes[x].c); }
Id add(Id a,Id b){ if(special(a)||special(b)){ if(a==NANID||b==NANID) return NANID; if(special(a)&&special(b)) return a==b?a:NANID; return special(a)?a:b; }
  if(nodes[a].op==CONST&&nodes[b].op==CONST) return mkconst(nodes[a].c+nodes[b].c); if(nodes[a].op==CONST&&csgn(a)==0) return b; if(nodes[b].op==CONST&&csgn(b)==0) return a; if(a>b) std::swap(a,b); return mk(ADD,F_NONE,a,b); }
Id neg(Id a){ if(a==PINF) return NINF; if(a==NINF) return PINF; if(a==NANID) return a; if(nodes[a].op==CONST) return mkconst(-nodes[a].c); if(nodes[a].op==NEG) return nodes[a].a; return mk(NEG,F_NONE,a,0); }
Id sub(Id a,Id b){ if(special(a)||special(b)) return add(a,neg(b)); if(a==b) return mkint(0); if(nodes[a].op==CONST&&nodes[b].op==CONST) return mkconst(nodes[a].c-nodes[b].c); if(nodes[b].op==CONST&&csgn(b)==0) return a; if(nodes[a].op==CONST&&csgn(a)==0) return neg(b); return mk(SUB,F_NONE,a,b); }
static Id specsign(Id inf,Id x,bool negzero){ (void)negzero; // inf * x
  if(special(x)){ if(x==NANID) return NANID; return inf==x?PINF:NINF; } if(nodes[x].op==CONST){ int s=csgn(x); if(s==0) return NANID; return s>0?inf:neg(inf);} if(branch(x,R_GT)) return inf; return neg(inf); }
Id mul(Id a,Id b){ if(a==NANID||b==NANID) return NANID; if(special(a)) return specsign(a,b,0); if(special(b)) return specsign(b,a,0);
  bool ca=nodes[a].op==CONST,cb=nodes[b].op==CONST; if(ca&&cb) return mkconst(nodes[a].c*nodes[b].c); if(cb){std::swap(a,b);std::swap(ca,cb);} if(ca){ if(csgn(a)==0) return a; if(nodes[a].c==1) return b; if(nodes[a].c==-1) return neg(b);} else if(a>b) std::swap(a,b); return mk(MUL,F_NONE,a,b); }
Id div(Id a,Id b){ if(a==NANID||b==NANID) return NANID; if(special(b)){ if(special(a)) return NANID; return mkint(0);} if(special(a)) return specsign(a,b,0);
  if(nodes[b].op==CONST){ if(csgn(b)==0){ if(nodes[a].op==CONST){ int s=csgn(a); return s==0?NANID:s>0?PINF:NINF; } return branch(a,R_GT)?PINF:NINF; } if(nodes[a].op==CONST) return mkconst(nodes[a].c/nodes[b].c); if(nodes[b].c==1) return a; return mul(mkconst(1/nodes[b].c),a); }
  if(nodes[a].op==CONST&&csgn(a)==0) return a; if(a==b) return mkint(1); return mk(DIV,F_NONE,a,b); }
Id powi(Id x,long n){ if(n<0) return div(mkint(1),powi(x,-n)); Id r=mkint(1),b=x; while(n){ if(n&1) r=mul(r,b); n>>=1; if(n) b=mul(b,b);} return r; }
static std::vector<Id> logNodes; // every logarithm built so far
Id fn1(Fn f,Id a){ if(special(a)){ if(f==F_SQRT&&a==PINF) return PINF; if(f==F_EXP) return a==PINF?PINF:a==NINF?mkint(0):NANID; if((f==F_LOG||f==F_LOG10)&&a==PINF) return PINF; if(f==F_ABS) return a==NANID?NANID:PINF; return NANID; }
  bool c=nodes[a].op==CONST; const mpq_class cv=nodes[a].c;
  switch(f){ case F_ABS: if(c) return mkconst(abs(cv)); return branch(a,R_GE)?a:neg(a);
    case F_SQRT: if(c){ if(sgn(cv)<0) return NANID; if(mpz_perfect_square_p(cv.get_num_mpz_t())&&mpz_perfect_square_p(cv.get_den_mpz_t())){ mpz_class n=sqrt(cv.get_num()),d=sqrt(cv.get_den()); return mkconst(mpq_class(n,d)); } } else if(!branch(a,R_GE)) return NANID; break;
    case F_EXP: if(c&&sgn(cv)==0) return mkint(1); break;
    case F_LOG: case F_LOG10: if(c){ int s=sgn(cv); if(s<0) return NANID; if(s==0) return NINF; if(cv==1) return mkint(0); } else if(!branch(a,R_GT)) return NANID;
       if(f==F_LOG10){ if(c){ mpz_class p=1; for(int k=0;k<400;k++){ if(cv==mpq_class(p)) return mkint(k); if(cv==mpq_class(1)/mpq_class(p)) return mkint(-k); p*=10; if(cv.get_num()<p&&cv.get_den()<p) break; } } return div(fn1(F_LOG,a),fn1(F_LOG,mkint(10))); } break;
    case F_SIN: case F_TAN: case F_ASIN: case F_ATAN: case F_SINH: case F_TANH: case F_ASINH: case F_ATANH: if(c&&sgn(cv)==0) return mkint(0); 
       if(f==F_ATAN&&c&&abs(cv)==1) return mul(mkconst(cv/4),pi()); if(f==F_ASIN&&c&&abs(cv)==1) return mul(mkconst(cv/2),pi()); break;
    case F_COS: case F_COSH: if(c&&sgn(cv)==0) return mkint(1); break;
    case F_ACOS: if(c&&cv==-1) return pi(); if(c&&cv==1) return mkint(0); if(c&&sgn(cv)==0) return mul(mkconst(mpq_class(1,2)),pi()); break; default:; }
  Id y=mk(RFN1,f,a,0); if(f==F_LOG&&(logNodes.empty()||logNodes.back()!=y)) logNodes.push_back(y); return y; }
Id fn2(Fn f,Id a,Id b){ if(special(a)||special(b)) return NANID; mpq_class cb,ca; bool kb=isconst(b,&cb),ka=isconst(a,&ca);
  if(f==F_POW){ if(kb&&cb.get_den()==1&&cb.get_num().fits_slong_p()&&abs(cb.get_num())<2000) return powi(a,cb.get_num().get_si()); if(kb&&cb==mpq_class(1,2)) return fn1(F_SQRT,a); if(ka&&ca==1) return a; if(ka&&sgn(ca)==0) return a; if(ka&&ca==10){ /* 10^x */ return mk(RFN2,F_POW,a,b);} if(!ka&&!branch(a,R_GT)) return NANID; return mk(RFN2,F_POW,a,b); }
  if(f==F_HYPOT){ if(kb&&sgn(cb)==0) return fn1(F_ABS,a); if(ka&&sgn(ca)==0) return fn1(F_ABS,b); Id s=add(mul(a,a),mul(b,b)); mpq_class q; if(isconst(s,&q)) return fn1(F_SQRT,s); return mk(RFN1,F_SQRT,s,0); }
  if(f==F_ATAN2){ if(ka&&sgn(ca)==0&&kb){ return sgn(cb)>=0?mkint(0):pi(); } if(kb&&sgn(cb)==0&&ka) return mul(mkconst(mpq_class(sgn(ca),2)),pi()); if(ka&&kb&&abs(ca)==abs(cb)){ mpq_class k(sgn(cb)>0?1:3,4); return mul(mkconst(k*sgn(ca)),pi()); } if(ka&&sgn(ca)==0) return branch(b,R_GE)?mkint(0):pi(); return mk(RFN2,f,a,b); }
  return mk(RFN2,f,a,b); }
// complex
Id cpair(Id re,Id im){ if(special(re)||special(im)) return mk(CPAIR,F_NONE,re,im); if(nodes[re].op==RE&&nodes[im].op==IM&&nodes[re].a==nodes[im].a) return nodes[re].a; return mk(CPAIR,F_NONE,re,im); }
C parts(Id c){ if(nodes[c].op==CPAIR) return C{nodes[c].a,nodes[c].b}; return C{mk(RE,F_NONE,c,0),mk(IM,F_NONE,c,0)}; }
static bool cc(Id c,mpq_class*r,mpq_class*i){ return nodes[c].op==CPAIR&&!special(nodes[c].a)&&!special(nodes[c].b)&&isconst(nodes[c].a,r)&&isconst(nodes[c].b,i); }
static bool cspecial(Id c){ return nodes[c].op==CPAIR&&(special(nodes[c].a)||special(nodes[c].b)); }
Id cop(Op op,Id a,Id b){ if(cspecial(a)||cspecial(b)){ C x=parts(a),y=parts(b); if(op==CADD) return cpair(add(x.re,y.re),add(x.im,y.im)); if(op==CSUB) return cpair(sub(x.re,y.re),sub(x.im,y.im)); if(op==CMUL) return cpair(sub(mul(x.re,y.re),mul(x.im,y.im)),add(mul(x.re,y.im),mul(x.im,y.re))); return cpair(NANID,NANID); }
  mpq_class ar,ai,br,bi; bool ka=cc(a,&ar,&ai),kb=cc(b,&br,&bi);
  auto K=[](const mpq_class&r,const mpq_class&i){ return cpair(mkconst(r),mkconst(i)); };
  if(ka&&kb){ switch(op){ case CADD: return K(ar+br,ai+bi); case CSUB: return K(ar-br,ai-bi); case CMUL: return K(ar*br-ai*bi,ar*bi+ai*br); default:{ mpq_class d=br*br+bi*bi; if(sgn(d)==0) return cpair(NANID,NANID); return K((ar*br+ai*bi)/d,(ai*br-ar*bi)/d);} } }
  if(op==CADD){ if(ka&&sgn(ar)==0&&sgn(ai)==0) return b; if(kb&&sgn(br)==0&&sgn(bi)==0) return a; }
  if(op==CSUB){ if(kb&&sgn(br)==0&&sgn(bi)==0) return a; if(a==b) return K(0,0); }
  if(op==CMUL){ if(ka&&sgn(ai)==0&&ar==1) return b; if(kb&&sgn(bi)==0&&br==1) return a; if((ka&&sgn(ar)==0&&sgn(ai)==0)||(kb&&sgn(br)==0&&sgn(bi)==0)) return K(0,0); }
  if(op==CDIV){ if(kb&&sgn(bi)==0&&br==1) return a; if(kb&&sgn(br)==0&&sgn(bi)==0) return cpair(NANID,NANID); if(ka&&sgn(ar)==0&&sgn(ai)==0) return a; if(a==b) return K(1,0); }
  if((op==CADD||op==CMUL)&&a>b) std::swap(a,b);
  return mk(op,F_NONE,a,b); }
Id cneg(Id a){ if(nodes[a].op==CPAIR) return cpair(neg(nodes[a].a),neg(nodes[a].b)); if(nodes[a].op==CNEG) return nodes[a].a; return mk(CNEG,F_NONE,a,0); }
Id conjg(Id a){ C p=parts(a); return cpair(p.re,neg(p.im)); }
Id cfn1(Fn f,Id a){ if(cspecial(a)) return cpair(NANID,NANID); mpq_class r,i; if(cc(a,&r,&i)){ bool z=sgn(r)==0&&sgn(i)==0; auto K=[](long v){return cpair(mkint(v),mkint(0));}; if(z) switch(f){ case F_EXP: case F_COS: case F_COSH: return K(1); case F_SIN: case F_TAN: case F_SINH: case F_TANH: case F_ASIN: case F_ATAN: case F_SQRT: case F_ASINH: case F_ATANH: return K(0); case F_LOG: return cpair(NINF,mkint(0)); default:; }
    if(sgn(i)==0){ if(f==F_SQRT&&sgn(r)>0) return cpair(fn1(F_SQRT,mkconst(r)),mkint(0)); if(f==F_SQRT) return cpair(mkint(0),fn1(F_SQRT,mkconst(-r))); if(f==F_EXP||f==F_SIN||f==F_COS||f==F_TAN||f==F_SINH||f==F_COSH||f==F_TANH||f==F_ATAN) return cpair(fn1(f,mkconst(r)),mkint(0)); if(f==F_LOG){ if(sgn(r)>0) return cpair(fn1(F_LOG,mkconst(r)),mkint(0)); return cpair(fn1(F_LOG,mkconst(-r)),pi()); } if((f==F_ACOS||f==F_ASIN)&&abs(r)<=1) return cpair(fn1(f,mkconst(r)),mkint(0)); } }
  return mk(CFN1,f,a,0); }
static Id cpowi(Id x,long n){ Id one=cpair(mkint(1),mkint(0)); if(n<0) return cop(CDIV,one,cpowi(x,-n)); Id r=one,b=x; while(n){ if(n&1) r=cop(CMUL,r,b); n>>=1; if(n) b=cop(CMUL,b,b);} return r; }
Id cfn2(Fn f,Id a,Id b){ if(cspecial(a)||cspecial(b)) return cpair(NANID,NANID); mpq_class r,i,ar,ai; if(f==F_POW&&cc(b,&r,&i)&&sgn(i)==0&&r.get_den()==1&&r.get_num().fits_slong_p()&&abs(r.get_num())<500) return cpowi(a,r.get_num().get_si()); if(f==F_POW&&cc(a,&ar,&ai)&&sgn(ai)==0){ if(ar==1) return a; if(sgn(ar)==0) return a; if(sgn(ar)>0&&cc(b,&r,&i)&&sgn(i)==0) return cpair(fn2(F_POW,mkconst(ar),mkconst(r)),mkint(0)); } return mk(CFN2,f,a,b); }
// ---------------------------------------------------------------- substitution (from equality branches)
static std::map<int,RF> subst; // real symbol -> RF ; complex var -> pair of fresh reals
static std::map<int,std::pair<int,int>> split; // complex var -> (re sym, im sym)
static RF symRF(int s){ auto it=subst.find(s); if(it!=subst.end()) return it->second; if(syms[s].k==S_CVAR){ auto jt=split.find(s); if(jt!=split.end()) return radd(symRF(jt->second.first),rscale(symRF(jt->second.second),GQ(0,1))); } return rsym(s); }
static RF half(const RF&a,const RF&b,bool im){ // (a+b)/2 or (a-b)/(2i)
  return im? rscale(rsub(a,b),GQ(0,mpq_class(-1,2))) : rscale(radd(a,b),GQ(mpq_class(1,2))); }
const RF& rf(Id x){ if(nodes[x].rf) return *nodes[x].rf; 
  // iterative over topologically smaller ids to bound recursion
  std::vector<Id> st{x}; while(!st.empty()){ Id y=st.back(); if(nodes[y].rf){st.pop_back();continue;} Node n=nodes[y]; bool ready=true; auto need=[&](Id k){ if(!nodes[k].rf){ if(special(k)) throw TooBig(); st.push_back(k); ready=false; } };
    switch(n.op){ case CONST: case VREAL: case CVAR: break; case SPECIAL: throw TooBig(); case NEG: case RFN1: case CNEG: case CFN1: case RE: case IM: need(n.a); break; default: need(n.a); need(n.b); }
    if(!ready) continue; RF r; 
    auto A=[&]()->const RF&{return *nodes[n.a].rf;}; auto B=[&]()->const RF&{return *nodes[n.b].rf;};
    switch(n.op){ case CONST: r=rconst(GQ(n.c)); break; case VREAL: case CVAR: r=symRF(n.a); break;
      case ADD: case CADD: r=radd(A(),B());break; case SUB: case CSUB: r=rsub(A(),B());break; case MUL: case CMUL: r=rmul(A(),B());break; case DIV: case CDIV: if(B().zero()) throw TooBig(); r=rdiv(A(),B());break; case NEG: case CNEG: r=rneg(A());break;
      case CPAIR: r=radd(A(),rscale(B(),GQ(0,1)));break; case RE: r=half(A(),rconj(A()),false);break; case IM: r=half(A(),rconj(A()),true);break;
      case RFN1: switch(n.fn){ case F_SQRT: r=froot(A(),2,true);break; case F_EXP: r=fexp(A());break; case F_LOG: r=ffun("rlog",A(),true);break; case F_SIN: r=fsin(A());break; case F_COS: r=fcos(A());break; case F_TAN: r=ftan(A());break; case F_SINH: r=fsinh(A());break; case F_COSH: r=fcosh(A());break; case F_TANH: r=rdiv(fsinh(A()),fcosh(A()));break; case F_ASIN: r=ffun("rasin",A(),true);break; case F_ACOS: r=ffun("racos",A(),true);break; case F_ATAN: r=ffun("ratan",A(),true);break; default: throw TooBig(); } break;
      case RFN2: if(n.fn==F_POW){ if(B().isconst()&&B().num.constval().re.get_den()<64) { mpq_class c=B().num.constval().re; r=rpow(froot(A(),c.get_den().get_si(),true),c.get_num().get_si()); } else r=fun2("rpow",A(),B(),true);} else r=fun2("atan2",A(),B(),true); break;
      case CFN1: switch(n.fn){ case F_SQRT: r=froot(A(),2,false);break; case F_EXP: r=fexp(A());break; case F_LOG: r=flog(A());break; case F_SIN: r=fsin(A());break; case F_COS: r=fcos(A());break; case F_TAN: r=ftan(A());break; case F_SINH: r=fsinh(A());break; case F_COSH: r=fcosh(A());break; case F_TANH: r=rdiv(fsinh(A()),fcosh(A()));break; case F_ASIN: r=ffun("asin",A(),false);break; case F_ACOS: r=ffun("acos",A(),false);break; case F_ATAN: r=ffun("atan",A(),false);break; case F_ASINH: r=ffun("asinh",A(),false);break; case F_ACOSH: r=ffun("acosh",A(),false);break; case F_ATANH: r=ffun("atanh",A(),false);break; default: throw TooBig(); } break;
      case CFN2: r=fpow(A(),B()); break; default: throw TooBig(); }
    nodes[y].rf=std::make_shared<const RF>(std::move(r)); st.pop_back(); }
  return *nodes[x].rf; }
// ---------------------------------------------------------------- variables and witnesses
struct Var{ std::string name; int sym; bool cplx; Id id; double lo,hi; };
static std::vector<Var> vars; static std::map<std::string,int> varIx;
struct Wit{ std::vector<cld> v; std::vector<cld> memo; bool weak=false; }; // weak: solver model whose uninterpreted functions may not take their true values
static std::vector<Wit> wits; static std::mt19937_64 rng(1);
static const int NW=20;
static cld rnd(const Var&v){ auto u=[&](){ return (long double)((long)(rng()%4097)-2048)/1024.0L; }; if(v.cplx) { return cld(u(),u()); } if(v.lo>-1e300&&v.hi<1e300){ if(v.lo==0&&rng()%3==0) return v.hi*ldexpl((long double)(rng()%1023+1)/1024.0L,-(int)(rng()%64)); long double t=(long double)(rng()%1025)/1024.0L; t=(t*1022+1)/1024; return v.lo+(v.hi-v.lo)*t; } if(v.lo>-1e300) return v.lo+fabsl(u())+0.0078125L; if(v.hi<1e300) return v.hi-fabsl(u())-0.0078125L; return u(); }
// interval evaluation over declared ranges
static int rangeSign(const Poly&p){ mpq_class lo=0,hi=0; for(auto&x:p.t){ if(!x.second.real()) return 0; mpq_class a=1,b=1; bool inf=false; /* upper end infinite */ for(auto&f:x.first){ const Sym&y=syms[f.first]; if(y.conj!=f.first) return 0; mpq_class l,h; bool hinf=false; const Var*v=nullptr; for(auto&q:vars) if(!q.cplx&&q.sym==f.first) v=&q; if(v){ if(v->lo>-1e300) l=mpq_class(v->lo); else if(f.second%2==0) l=0; else return 0; if(v->hi<1e300) h=mpq_class(v->hi); else hinf=true; if(sgn(l)<0){ if(f.second%2) return 0; mpq_class al=-l; if(!hinf&&al>h) h=al; if(v->lo>-1e300){} else hinf=true; l=0; } } else if(y.nonneg||(y.k==S_EXP)){ l=0; hinf=true; } else if(f.second%2==0){ l=0; hinf=true; } else return 0; for(int k=0;k<f.second;k++){ a*=l; if(hinf) inf=true; else b*=h; } }
    int s=sgn(x.second.re); if(s>0){ lo+=x.second.re*a; if(inf) hi+=mpq_class("1000000000000000000000000000000000000000000"); else hi+=x.second.re*b; } else { hi+=x.second.re*a; if(inf) lo-=mpq_class("1000000000000000000000000000000000000000000"); else lo+=x.second.re*b; } }
  return sgn(lo)>=0?1:sgn(hi)<=0?-1:0; }
static struct HookInit{ HookInit(){ signHook=rangeSign; } } hookInit;
static cld symval(const Wit&w,int s){ for(size_t i=0;i<vars.size();i++) if(vars[i].sym==s) return w.v[i]; for(auto&p:split){ if(p.second.first==s) return symval(w,p.first).real(); if(p.second.second==s) return symval(w,p.first).imag(); } if(syms[s].k==S_PI) return acosl(-1.0L); return NAN; }
static int newVar(const std::string&name,bool cplx,double lo,double hi){ auto it=varIx.find(name); if(it!=varIx.end()) return it->second; Var v; v.name=name;v.cplx=cplx;v.lo=lo;v.hi=hi; v.sym=cplx?newComplex(name):newReal(name); initNodes(); v.id=mk(cplx?CVAR:VREAL,F_NONE,v.sym,0); int ix=vars.size(); vars.push_back(v); varIx[name]=ix; if(wits.empty()) wits.resize(NW); for(auto&w:wits) w.v.push_back(rnd(v)); return ix; }
Id real_var(const std::string&n){ return vars[newVar(n,false,-1e301,1e301)].id; }
C complex_var(const std::string&n){ return parts(vars[newVar(n,true,0,0)].id); }
static const cld NANC(NAN,NAN);
static cld numw(Id x,Wit&w){ if(w.memo.size()<nodes.size()) w.memo.resize(nodes.size(),NANC); 
  std::vector<Id> st{x}; auto done=[&](Id k){ return special(k)||!(std::isnan(w.memo[k].real())); };
  static std::vector<char> vis; 
  while(!st.empty()){ Id y=st.back(); if(special(y)||!std::isnan(w.memo[y].real())){st.pop_back();continue;} Node&n=nodes[y]; bool ready=true; auto need=[&](Id k){ if(!done(k)){ st.push_back(k); ready=false; } };
    switch(n.op){ case CONST: case VREAL: case CVAR: case SPECIAL: break; case NEG: case RFN1: case CNEG: case CFN1: case RE: case IM: need(n.a);break; default: need(n.a);need(n.b);} if(!ready) continue;
    auto val=[&](Id k){ return k==NANID?NANC:k==PINF?cld(INFINITY):k==NINF?cld(-INFINITY):w.memo[k]; }; cld a,b; if(n.op!=CONST&&n.op!=VREAL&&n.op!=CVAR){ a=val(n.a); b=val(n.b);} cld r;
    switch(n.op){ case CONST:{ mpf_class f(n.c,128); double hi=f.get_d(); mpf_class lo=f-hi; r=(long double)hi+(long double)lo.get_d(); break;} case VREAL: case CVAR: r=symval(w,n.a);break;
      case ADD: case CADD: r=a+b;break; case SUB: case CSUB: r=a-b;break; case MUL: r=a.real()*b.real();break; case CMUL: r=cld(a.real()*b.real()-a.imag()*b.imag(),a.real()*b.imag()+a.imag()*b.real());break; case DIV: r=a.real()/b.real();break; case CDIV: r=a/b;break; case NEG: case CNEG: r=-a;break; case CPAIR: r=cld(a.real(),b.real());break; case RE: r=a.real();break; case IM: r=a.imag();break;
      case RFN1:{ long double t=a.real(); switch(n.fn){ case F_SQRT: r=sqrtl(t<0?0:t);break; case F_EXP: r=expl(t);break; case F_LOG: r=logl(t);break; case F_SIN: r=sinl(t);break; case F_COS: r=cosl(t);break; case F_TAN: r=tanl(t);break; case F_SINH: r=sinhl(t);break; case F_COSH: r=coshl(t);break; case F_TANH: r=tanhl(t);break; case F_ASIN: r=asinl(t);break; case F_ACOS: r=acosl(t);break; case F_ATAN: r=atanl(t);break; case F_ASINH: r=asinhl(t);break; case F_ACOSH: r=acoshl(t);break; case F_ATANH: r=atanhl(t);break; default: r=NANC; } break; }
      case RFN2: r= n.fn==F_POW? powl(a.real(),b.real()) : n.fn==F_ATAN2? atan2l(a.real(),b.real()) : NAN; break;
      case CFN1: switch(n.fn){ case F_SQRT: r=std::sqrt(a);break; case F_EXP: r=std::exp(a);break; case F_LOG: r=std::log(a);break; case F_SIN: r=std::sin(a);break; case F_COS: r=std::cos(a);break; case F_TAN: r=std::tan(a);break; case F_SINH: r=std::sinh(a);break; case F_COSH: r=std::cosh(a);break; case F_TANH: r=std::tanh(a);break; case F_ASIN: r=std::asin(a);break; case F_ACOS: r=std::acos(a);break; case F_ATAN: r=std::atan(a);break; case F_ASINH: r=std::asinh(a);break; case F_ACOSH: r=std::acosh(a);break; case F_ATANH: r=std::atanh(a);break; default: r=NANC; } break;
      case CFN2: r=std::pow(a,b);break; default: r=NANC; }
    if(std::isnan(r.real())) r=cld(1e4000L*0+INFINITY,INFINITY); // mark as computed but unusable
    w.memo[y]=r; st.pop_back(); }
  return special(x)?(x==PINF?cld(INFINITY):x==NINF?cld(-INFINITY):NANC):w.memo[x]; }
cld numeric(Id x,int w){ return numw(x,wits[w]); }
// ---------------------------------------------------------------- path condition
struct Con{ Id d; Rel r; };
static std::vector<Con> pc; static std::map<std::pair<Id,int>,bool> known;
static Rel negate(Rel r){ switch(r){case R_LT:return R_GE;case R_LE:return R_GT;case R_EQ:return R_NE;case R_NE:return R_EQ;case R_GT:return R_LE;default:return R_LT;} }
static const char* relname(Rel r){ static const char*n[]={"<","<=","==","!=",">",">="}; return n[r]; }
// 1 true, 0 false, -1 cannot tell
static int holdsNum(const Con&c,Wit&w,long double tol=1e-13L){ cld v=numw(c.d,w); long double x=v.real(); if(!std::isfinite(x)) return -1; if(fabsl(x)<=tol) { if(c.r==R_EQ) return -1; if(c.r==R_NE) return -1; return -1; } switch(c.r){case R_LT:case R_LE:return x<0;case R_GT:case R_GE:return x>0;case R_EQ:return 0;case R_NE:return 1;} return -1; }
static bool admissible(Wit&w){ for(auto&c:pc){ if(c.r==R_EQ) continue; int h=holdsNum(c,w); if(h!=1) { if(h==-1&&(c.r==R_LE||c.r==R_GE)&&fabsl(numw(c.d,w).real())<=1e-13L) continue; return false;} } return true; }
static void applySubstToWit(Wit&w);
static void resample(int want){ int tries=0; size_t have=wits.size(); while((int)have<want&&tries<3000){ tries++; Wit w; // mutate an existing witness or draw anew
    if(!wits.empty()&&(rng()&1)){ w.v=wits[rng()%wits.size()].v; for(size_t i=0;i<vars.size();i++) if(rng()%3==0){ cld d=rnd(vars[i]); w.v[i]= vars[i].cplx||vars[i].lo<-1e300? (w.v[i]*3.0L+d)/4.0L : d; } }
    else for(auto&v:vars) w.v.push_back(rnd(v)); applySubstToWit(w); if(admissible(w)){ wits.push_back(w); have++; } } }
// ---------------------------------------------------------------- z3
struct Model{ bool ok=false; std::vector<cld> v; };
struct Z{ z3::context&c; std::map<int,std::pair<z3::expr,z3::expr>> m; z3::expr_vector side; std::vector<std::pair<z3::expr,z3::expr>> logs; std::vector<z3::expr> l10; Z(z3::context&x):c(x),side(x){} 
  typedef std::pair<z3::expr,z3::expr> P; z3::expr q(const mpq_class&v){ return c.real_val(v.get_str().c_str()); }
  P mulp(const P&a,const P&b){ return P(a.first*b.first-a.second*b.second,a.first*b.second+a.second*b.first); }
  P sym(int s){ auto it=m.find(s); if(it!=m.end()) return it->second; Sym y=syms[s]; std::string nm="s"+std::to_string(s); z3::expr zero=c.real_val(0);
    if(y.k==S_CCONJ){ P p=sym(y.conj); P r(p.first,-p.second); m.emplace(s,r); return r; }
    bool real= y.conj==s; P r(c.real_const(nm.c_str()),real?zero:c.real_const((nm+"i").c_str())); m.emplace(s,r);
    switch(y.k){ case S_PI: side.push_back(r.first>c.real_val("3141592653/1000000000")); side.push_back(r.first<c.real_val("3141592654/1000000000")); break;
      case S_EXP: if(real) side.push_back(r.first>0); else side.push_back(r.first!=0||r.second!=0); break;
      case S_ROOT: { P p=r; for(int k=1;k<y.n;k++) p=mulp(p,r); P n=poly(y.arg.num); for(auto&d:y.arg.den){ P dd=poly(denpoly(d.first)); for(int k=0;k<d.second;k++) p=mulp(p,dd); side.push_back(dd.first!=0||dd.second!=0);} side.push_back(p.first==n.first); if(!real||true) side.push_back(p.second==n.second); if(y.nonneg) side.push_back(r.first>=0); else if(y.n>=2) side.push_back(r.first>=0); break; }
      case S_ZETA: { double a=2*M_PI/y.n; char b[64]; auto bnd=[&](z3::expr e,double v){ snprintf(b,64,"%.12f",v-1e-9); side.push_back(e>=c.real_val(b)); snprintf(b,64,"%.12f",v+1e-9); side.push_back(e<=c.real_val(b)); }; bnd(r.first,cos(a)); bnd(r.second,sin(a)); side.push_back(r.first*r.first+r.second*r.second==1); break; }
      case S_FUN: if(y.fn=="rlog"){ z3::expr a=c.real_val(0); { P n=poly(y.arg.num); if(y.arg.den.empty()) a=n.first; else { a=c.real_const((nm+"a").c_str()); P dd(c.real_val(1),zero); for(auto&d:y.arg.den){ P q=poly(denpoly(d.first)); for(int k=0;k<d.second;k++) dd=mulp(dd,q); side.push_back(q.first!=0||q.second!=0); } side.push_back(a*dd.first==n.first); side.push_back(a*dd.second==n.second); } } side.push_back(z3::implies(a>1,r.first>0)); side.push_back(z3::implies(a<1,r.first<0)); side.push_back(z3::implies(a==1,r.first==0)); for(auto&o:logs){ side.push_back((a<o.first)==(r.first<o.second)); } logs.push_back({a,r.first}); if(y.arg.isconst()&&y.arg.num.constval().real()&&y.arg.num.constval().re==10){ l10.push_back(r.first); for(auto&o:logs){ if(z3::eq(o.first,a)) continue; tens(o.first,o.second); } side.push_back(r.first>q(mpq_class("2302585/1000000"))); side.push_back(r.first<q(mpq_class("2302586/1000000"))); } else if(!l10.empty()) tens(a,r.first); 
          if(y.arg.isconst()){ char b[64]; double v=log(y.arg.num.constval().re.get_d()); snprintf(b,64,"%.12f",v-1e-9); side.push_back(r.first>=c.real_val(b)); snprintf(b,64,"%.12f",v+1e-9); side.push_back(r.first<=c.real_val(b)); } } break;
      default:; }
    if(y.conj>=0&&y.conj!=s&&!m.count(y.conj)&&(y.k!=S_CVAR)&&syms[y.conj].k!=S_ROOT) m.emplace(y.conj,P(r.first,-r.second));
    return m.at(s); }
  // log a against multiples of log 10
  void tens(const z3::expr&a,const z3::expr&r){ mpq_class t=1; for(int k=1;k<=16;k++){ t*=10; z3::expr L=l10[0]; side.push_back((a<q(t))==(r<L*k)); side.push_back((a<q(mpq_class(1/t)))==(r<L*(-k))); } }
  P poly(const Poly&p){ z3::expr re=c.real_val(0),im=c.real_val(0); bool any=false; for(auto&x:p.t){ P t(q(x.second.re),q(x.second.im)); for(auto&f:x.first){ P v=sym(f.first); for(int k=0;k<f.second;k++) t=mulp(t,v);} if(!any){re=t.first;im=t.second;any=true;} else {re=re+t.first;im=im+t.second;} } return P(re.simplify(),im.simplify()); }
  z3::expr con(const RF&r,Rel rel){ P n=poly(r.num); for(auto&d:r.den){ P dd=poly(denpoly(d.first)); side.push_back(dd.first!=0||dd.second!=0); if(d.second%2){ P cj(dd.first,-dd.second); n=mulp(n,cj);} else { /* D^2k: D^k conj(D)^k positive only if real */ P cj(dd.first,-dd.second); for(int k=0;k<d.second;k++) n=mulp(n,cj);} }
    z3::expr e=n.first; switch(rel){case R_LT:return e<0;case R_LE:return e<=0;case R_EQ:return e==0;case R_NE:return e!=0;case R_GT:return e>0;default:return e>=0;} }
};
// returns 1 sat, 0 unsat, -1 unknown. runs in a forked child, killed on timeout.
static int solve(const std::vector<Con>&extra,const std::vector<const RF*>&nonzero,Model*mo,double tmo,const std::pair<RF,Rel>*more=nullptr){
  double t0=now(); S->queries++; 
  std::vector<std::pair<RF,Rel>> cs; try{ for(auto&c:pc) cs.push_back({rf(c.d),c.r}); for(auto&c:extra) cs.push_back({rf(c.d),c.r}); if(more) cs.push_back(*more); }catch(TooBig&){ S->unknown++; S->toobig++; return -1; }
  int fd[2]; if(pipe(fd)) return -1; pid_t p=fork(); if(p==0){ close(fd[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); 
    std::string out; try{ z3::context c; Z z(c); z3::solver s(c,"QF_NRA"); 
      for(auto&v:vars){ if(subst.count(v.sym)||split.count(v.sym)) continue; if(!v.cplx){ if(v.lo>-1e300) s.add(z.sym(v.sym).first>=z.q(mpq_class(v.lo))); if(v.hi<1e300) s.add(z.sym(v.sym).first<=z.q(mpq_class(v.hi))); } }
      for(auto&x:cs) s.add(z.con(x.first,x.second)); for(auto*r:nonzero){ auto n=z.poly(r->num); s.add(n.first!=0||n.second!=0); for(auto&d:r->den){auto dd=z.poly(denpoly(d.first)); s.add(dd.first!=0||dd.second!=0);} }
      for(unsigned i=0;i<z.side.size();i++) s.add(z.side[i]);
      if(getenv("SR_DUMPQ")) fprintf(stderr,"%s\n",s.to_smt2().c_str());
      z3::check_result r=s.check(); out= r==z3::sat?"1":r==z3::unsat?"0":"-1"; 
      if(r==z3::sat){ z3::model m=s.get_model(); auto val=[&](const z3::expr&e){ z3::expr v=m.eval(e,true); std::string d; if(v.is_numeral()) d=v.get_decimal_string(25); else if(v.is_algebraic()) d=v.get_decimal_string(25); else d="0"; if(!d.empty()&&d.back()=='?') d.pop_back(); return d; };
        for(size_t i=0;i<vars.size();i++){ int sy=vars[i].sym; if(split.count(sy)){ auto pr=split[sy]; out+=" "+(subst.count(pr.first)?std::string("0"):val(z.sym(pr.first).first))+" "+(subst.count(pr.second)?std::string("0"):val(z.sym(pr.second).first)); } else if(subst.count(sy)) out+=" 0 0"; else { auto e=z.sym(sy); out+=" "+val(e.first)+" "+val(e.second);} } } }
    catch(z3::exception&e){ out="-1"; } catch(...){ out="-1"; }
    ssize_t w=write(fd[1],out.data(),out.size()); (void)w; _exit(0); }
  close(fd[1]); std::string out; double end=t0+tmo; char buf[4096]; while(true){ double rem=end-now(); if(rem<0) rem=0; pollfd pf{fd[0],POLLIN,0}; int k=poll(&pf,1,(int)(rem*1000)+1); if(k<=0) break; ssize_t n=read(fd[0],buf,4096); if(n<=0) break; out.append(buf,n); }
  close(fd[0]); kill(p,SIGKILL); int st; waitpid(p,&st,0); S->z3us+=(long)((now()-t0)*1e6);
  int res=-1; if(!out.empty()){ char*e=&out[0]; res=strtol(e,&e,10); if(res==1&&mo){ mo->ok=true; for(size_t i=0;i<vars.size();i++){ long double a=strtold(e,&e),b=strtold(e,&e); mo->v.push_back(cld(a,b)); } } }
  if(res==1) S->sat++; else if(res==0) S->unsat++; else S->unknown++; return res; }
// sign of a real polynomial from the declared ranges or, failing that, from the path condition
static int pathSign(const Poly&p){ int r=rangeSign(p); static int nest=0; if(r||pc.empty()||nest||p.t.size()>12) return r; for(auto&x:p.t){ if(!x.second.real()) return 0; for(auto&f:x.first) if(syms[f.first].k!=S_REAL) return 0; }
  int pos=0,neg=0; for(auto&w:wits){ if(w.weak) continue; Eval ev; ev.var=[&](int q){ return symval(w,q); }; long double v=ev.poly(p).real(); if(v>1e-12L) pos++; else if(v<-1e-12L) neg++; } if(pos&&neg) return 0;
  nest++; RF q; q.num=p; int out=0; if(!neg){ std::pair<RF,Rel> m(q,R_LT); if(solve({},{},nullptr,1.0,&m)==0) out=1; } if(!out&&!pos){ std::pair<RF,Rel> m(q,R_GT); if(solve({},{},nullptr,1.0,&m)==0) out=-1; } nest--; return out; }
static struct HookInit2{ HookInit2(){ signHook=pathSign; } } hookInit2;
static bool addModel(Model&m){ Wit w; w.v=m.v; applySubstToWit(w); w.weak=!admissible(w); wits.push_back(w); return true; }
static void applySubstToWit(Wit&w){ if(subst.empty()) return; for(int it=0;it<3;it++) for(auto&s:subst){ Eval ev; ev.var=[&](int q){ return symval(w,q); }; cld v=ev.rf(s.second); for(size_t i=0;i<vars.size();i++){ if(vars[i].sym==s.first) w.v[i]=v.real(); auto jt=split.find(vars[i].sym); if(jt!=split.end()){ if(jt->second.first==s.first) w.v[i]=cld(v.real(),w.v[i].imag()); if(jt->second.second==s.first) w.v[i]=cld(w.v[i].real(),v.real()); } } } w.memo.clear(); }
// ---------------------------------------------------------------- process management
static void waitKids(){ int st; for(pid_t k:kids){ while(waitpid(k,&st,0)<0&&errno==EINTR){} } kids.clear(); }
static void curChoices(std::string&s){ for(auto&c:choices){ if(!s.empty()) s+=","; s+="[\""+jesc(c.first)+"\","+std::to_string(c.second)+"]"; } }
static std::string scn;
static void fork_child_setup(){ kids.clear(); prctl(PR_SET_PDEATHSIG,SIGKILL); depth++; alarm((unsigned)pathlimit); }
// returns true in the child
static bool spawn(){ if(S->stop||now()>deadline){ S->truncated++; return false; } S->forks++; long dd=depth+1; long md=S->maxdepth; if(dd>md) S->maxdepth=dd; fflush(stdout); fflush(stderr); bool par=S->active.load()<maxpar; 
  pid_t p=fork(); if(p<0){ S->truncated++; return false; } if(p==0){ fork_child_setup(); if(par) S->active++; return true; }
  if(par){ kids.push_back(p); } else { alarm(0); int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} S->active++; alarm((unsigned)pathlimit);} return false; }
static bool g_par_counted=false;
static std::string valstr(long double x){ char b[64]; snprintf(b,64,"%.21Lg",x); return b; }
static std::string describe(const Wit&w){ std::string s="{"; for(size_t i=0;i<vars.size();i++){ if(i) s+=","; s+="\""+jesc(vars[i].name)+"\":[\""+valstr(w.v[i].real())+"\",\""+valstr(w.v[i].imag())+"\"]"; } return s+"}"; }
static std::map<std::string,int> candPer;
static void candidate(const std::string&label,const std::string&why,const Wit*w){ if(++candPer[label]>2) return; long n=++S->cands; if(n>maxcand*40) return; std::string ch; curChoices(ch); logline("{\"t\":\"cand\",\"label\":\""+jesc(label)+"\",\"why\":\""+jesc((scn.empty()?why:"["+scn+"] "+why).substr(0,1500))+"\",\"choices\":["+ch+"],\"vals\":"+(w?describe(*w):std::string("{}"))+"}"); }
static std::map<std::string,long> labelCount;
// ---- independent solver verdict on the equalities of a path: the un-normalised expression graphs are handed to z3 as
// fractions of polynomials over the inputs (transcendental functions uninterpreted, roots by their defining equations)
static std::vector<std::array<Id,4>> confQ; static double confBudget=60;
struct ZD{ z3::context&c; z3::expr_vector side; struct Q{ z3::expr n,i,d; }; std::map<Id,Q> m; std::map<std::string,z3::func_decl> fd; int fresh=0; ZD(z3::context&x):c(x),side(x){}
  z3::expr k(const mpq_class&v){ return c.real_val(v.get_str().c_str()); } z3::expr one(){return c.real_val(1);} z3::expr zero(){return c.real_val(0);} 
  static bool isone(const z3::expr&e){ return e.is_numeral()&&e.get_decimal_string(2)=="1"; } static bool iszero(const z3::expr&e){ return e.is_numeral()&&e.get_decimal_string(2)=="0"; }
  z3::expr M(const z3::expr&a,const z3::expr&b){ if(isone(a)) return b; if(isone(b)) return a; if(iszero(a)) return a; if(iszero(b)) return b; return a*b; } z3::expr A(const z3::expr&a,const z3::expr&b){ if(iszero(a)) return b; if(iszero(b)) return a; return a+b; } z3::expr B(const z3::expr&a,const z3::expr&b){ if(iszero(b)) return a; if(iszero(a)) return -b; return a-b; }
  z3::expr uf(const std::string&nm,const std::vector<z3::expr>&a){ auto it=fd.find(nm); if(it==fd.end()){ z3::sort_vector sv(c); for(size_t i=0;i<a.size();i++) sv.push_back(c.real_sort()); it=fd.emplace(nm,c.function(nm.c_str(),sv,c.real_sort())).first; } z3::expr_vector av(c); for(auto&e:a) av.push_back(e); return it->second(av); }
  z3::expr fr(const char*p){ return c.real_const((std::string(p)+std::to_string(fresh++)).c_str()); }
  Q add(const Q&a,const Q&b,bool sub){ if(z3::eq(a.d,b.d)) return Q{sub?B(a.n,b.n):A(a.n,b.n),sub?B(a.i,b.i):A(a.i,b.i),a.d}; auto f=[&](const z3::expr&x,const z3::expr&y){ return sub?B(M(x,b.d),M(y,a.d)):A(M(x,b.d),M(y,a.d)); }; return Q{f(a.n,b.n),f(a.i,b.i),M(a.d,b.d)}; }
  Q mul(const Q&a,const Q&b){ return Q{B(M(a.n,b.n),M(a.i,b.i)),A(M(a.n,b.i),M(a.i,b.n)),M(a.d,b.d)}; }
  Q div(const Q&a,const Q&b){ z3::expr nn=A(M(b.n,b.n),M(b.i,b.i)); if(iszero(b.i)){ side.push_back(b.n!=0); return Q{M(a.n,b.d),M(a.i,b.d),M(a.d,b.n)}; } side.push_back(nn!=0); Q cj{b.n,-b.i,one()}; Q t=mul(Q{a.n,a.i,one()},cj); return Q{M(t.n,b.d),M(t.i,b.d),M(a.d,nn)}; }
  const Q& get(Id x){ auto it=m.find(x); if(it!=m.end()) return it->second; std::vector<Id> st{x}; while(!st.empty()){ Id y=st.back(); if(m.count(y)){ st.pop_back(); continue; } Node nd=nodes[y]; bool leaf=nd.op==CONST||nd.op==VREAL||nd.op==CVAR; bool un=nd.op==NEG||nd.op==RFN1||nd.op==CNEG||nd.op==CFN1||nd.op==RE||nd.op==IM; if(special(y)) throw TooBig(); bool ready=true; if(!leaf&&!m.count(nd.a)){ st.push_back(nd.a); ready=false; } if(!leaf&&!un&&!m.count(nd.b)){ st.push_back(nd.b); ready=false; } if(!ready) continue;
      auto put=[&](const Q&q){ m.emplace(y,q); }; auto a=[&]()->const Q&{return m.at(nd.a);}; auto b=[&]()->const Q&{return m.at(nd.b);}; std::string id=std::to_string(y);
      switch(nd.op){ case CONST: put(Q{k(nd.c),zero(),one()}); break; case VREAL: put(Q{c.real_const(("r"+id).c_str()),zero(),one()}); break; case CVAR: put(Q{c.real_const(("x"+id).c_str()),c.real_const(("y"+id).c_str()),one()}); break;
        case ADD: case CADD: put(add(a(),b(),false)); break; case SUB: case CSUB: put(add(a(),b(),true)); break; case MUL: case CMUL: put(mul(a(),b())); break; case DIV: case CDIV: put(div(a(),b())); break; case NEG: case CNEG: put(Q{-a().n,-a().i,a().d}); break;
        case RE: put(Q{a().n,zero(),a().d}); break; case IM: put(Q{a().i,zero(),a().d}); break; case CPAIR:{ Q p=a(),q=b(); if(z3::eq(p.d,q.d)) put(Q{p.n,q.n,p.d}); else put(Q{M(p.n,q.d),M(q.n,p.d),M(p.d,q.d)}); break; }
        case RFN1: if(nd.fn==F_SQRT){ z3::expr s=fr("s"); side.push_back(s>=0); side.push_back(s*s*a().d==a().n); put(Q{s,zero(),one()}); } else put(Q{uf("f"+std::to_string(nd.fn),{a().n.simplify(),a().d.simplify()}),zero(),one()}); break;
        case CFN1: if(nd.fn==F_SQRT){ z3::expr u=fr("u"),v=fr("v"); side.push_back(u>=0); side.push_back((u*u-v*v)*a().d==a().n); side.push_back(2*u*v*a().d==a().i); put(Q{u,v,one()}); } else { std::vector<z3::expr> ar{a().n.simplify(),a().i.simplify(),a().d.simplify()}; put(Q{uf("g"+std::to_string(nd.fn),ar),uf("h"+std::to_string(nd.fn),ar),one()}); } break;
        case RFN2: put(Q{uf("p"+std::to_string(nd.fn),{a().n.simplify(),a().d.simplify(),b().n.simplify(),b().d.simplify()}),zero(),one()}); break;
        case CFN2:{ std::vector<z3::expr> ar{a().n.simplify(),a().i.simplify(),a().d.simplify(),b().n.simplify(),b().i.simplify(),b().d.simplify()}; put(Q{uf("q"+std::to_string(nd.fn),ar),uf("w"+std::to_string(nd.fn),ar),one()}); break; }
        default: throw TooBig(); }
      st.pop_back(); }
    return m.at(x); } };
static void confirm(){ if(confQ.empty()||S->conf_us.load()*1e-6>confBudget||now()>deadline) return; double t0=now(); double tmo=1.0; S->conf_q++; S->queries++;
  int fdp[2]; if(pipe(fdp)) return; pid_t p=fork(); if(p==0){ close(fdp[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); for(int sg:{SIGSEGV,SIGABRT,SIGFPE,SIGALRM,SIGBUS,SIGILL}) signal(sg,SIG_DFL); alarm(5); char out='-'; try{ z3::context c; ZD z(c); z3::params sp(c); sp.set("som",true); z3::expr_vector dis(c); for(auto&q:confQ){ for(int w=0;w<2;w++){ if(q[w]==q[w+2]){ dis.push_back(c.bool_val(false)); continue; } auto l=z.get(q[w]),r=z.get(q[w+2]); z3::expr d=z.B(z.M(l.n,r.d),z.M(r.n,l.d)); dis.push_back(d.simplify(sp)!=0); } }
      z3::solver s(c); s.add(z3::mk_or(dis).simplify()); for(unsigned i=0;i<z.side.size();i++) s.add(z.side[i]); z3::check_result r=s.check(); out= r==z3::unsat?'0':r==z3::sat?'1':'-'; }catch(...){ out='-'; } ssize_t w=write(fdp[1],&out,1); (void)w; _exit(0); }
  close(fdp[1]); char o='-'; pollfd pf{fdp[0],POLLIN,0}; if(poll(&pf,1,(int)(tmo*1000))>0){ if(read(fdp[0],&o,1)!=1) o='-'; } close(fdp[0]); kill(p,SIGKILL); int st; waitpid(p,&st,0); long us=(long)((now()-t0)*1e6); S->conf_us+=us; S->z3us+=us; if(o=='0'){ S->conf_unsat++; S->unsat++; S->conf_pairs+=confQ.size(); } else { S->conf_other++; S->unknown++; } } static std::map<std::string,long> unprovedCount;
[[noreturn]] static void endpath(int kind){ if(kind==0) confirm(); alarm(0); if(kind==0) S->paths++; else if(kind==1) S->pruned++; std::string ch; curChoices(ch); std::string l; for(auto&x:labelCount){ if(!l.empty()) l+=","; l+="\""+jesc(x.first)+"\":"+std::to_string(x.second); } std::string u; for(auto&x:unprovedCount){ if(!u.empty()) u+=","; u+="\""+jesc(x.first)+"\":"+std::to_string(x.second); } logline("{\"t\":\"path\",\"k\":"+std::to_string(kind)+",\"pc\":"+std::to_string(pc.size())+",\"mi\":"+(maybeInfeasible?"1":"0")+",\"choices\":["+ch+"],\"labels\":{"+l+"},\"unproved\":{"+u+"}}"); waitKids(); S->active--; fflush(stdout); fflush(stderr); _exit(0); }
void prune(const char*why){ (void)why; endpath(1); }
void note_unsupported(const char*what){ S->unsupported++; logline(std::string("{\"t\":\"unsupported\",\"what\":\"")+jesc(what)+"\"}"); }
static const Wit* goodWit(){ for(auto&w:wits) if(admissible(w)) return &w; if(!wits.empty()){ size_t n=wits.size(); resample(n+1); if(wits.size()>n) return &wits[n]; } if(wits.empty()&&!vars.empty()){ resample(1); if(!wits.empty()) return &wits[0]; } static Wit dummy; if(vars.empty()) return &dummy; return wits.empty()?nullptr:&wits[0]; }
static void crashHandler(int sig){ signal(sig,SIG_DFL); const char*why= sig==SIGALRM?"hang (path time limit)":sig==SIGSEGV?"SIGSEGV":sig==SIGABRT?"SIGABRT":sig==SIGFPE?"SIGFPE":"signal"; S->crashed++; candidate(sig==SIGALRM?"__hang":"__crash",why,goodWit()); endpath(2); }
// ---------------------------------------------------------------- branching
static int quickSign(const RF&r){ // 1: >=0 surely, -1: <=0 surely, 0 unknown; +2 / -2 strictly
  if(r.isconst()){ GQ c=r.num.constval(); int s=sgn(c.re); return s>0?2:s<0?-2:9; }
  auto monoSign=[&](const Mono&m)->bool{ std::map<int,int> e; for(auto&f:m) e[f.first]=f.second; for(auto&f:m){ const Sym&y=syms[f.first]; if(y.nonneg) continue; if(y.k==S_EXP&&y.conj==f.first) continue; if(y.conj==f.first){ if(f.second%2==0) continue; return false; } auto it=e.find(y.conj); if(it==e.end()||it->second!=f.second) return false; } return true; };
  auto polySign=[&](const Poly&p)->int{ int s=0; bool strict=false; for(auto&x:p.t){ if(!x.second.real()||!monoSign(x.first)) return 0; int t=sgn(x.second.re); if(s&&t!=s) return 0; s=t; if(x.first.empty()) strict=true; } return strict?2*s:s; };
  int s=polySign(r.num); if(!s) return 0; int sg=s>0?1:-1; bool strict=abs(s)==2; for(auto&d:r.den){ if(d.second%2==0){ if(!isreal([&]{RF q;q.num=denpoly(d.first);return q;}())) return 0; continue;} int t=polySign(denpoly(d.first)); if(!t) return 0; if(t<0) sg=-sg; }
  return strict?2*sg:sg; }
static void take(Con c){ pc.push_back(c); std::vector<Wit> keep; for(auto&w:wits){ int h=holdsNum(c,w); if(c.r==R_EQ||h==1) keep.push_back(w); } wits.swap(keep); }
static bool solveLinear(const RF&r,int&s,RF&val){ // numerator linear in a real symbol with constant-free coefficient
  std::map<int,bool> cs; collect(r,cs); bool did=false; for(auto&x:cs){ if(syms[x.first].k==S_CVAR&&!split.count(x.first)){ did=true; int a=newReal(syms[x.first].name+".re"),b=newReal(syms[x.first].name+".im"); split[x.first]={a,b}; } } if(did) return false; // caller recomputes
  std::set<int> inAtoms; for(auto&x:cs){ const Sym&y=syms[x.first]; if(y.k!=S_REAL){ std::map<int,bool> t; collect(y.arg,t); collect(y.arg2,t); for(auto&q:t) inAtoms.insert(q.first);} }
  for(auto&x:cs){ if(syms[x.first].k!=S_REAL||inAtoms.count(x.first)) continue; Poly A,B; bool ok=true; for(auto&t:r.num.t){ int e=0; Mono rest; for(auto&f:t.first) if(f.first==x.first) e=f.second; else rest.push_back(f); if(e>1){ok=false;break;} if(e) A.add(rest,t.second); else B.add(rest,t.second);} if(!ok||A.zero()||!A.isconst()) continue; RF n;n.num=pneg(B); s=x.first; val=rscale(n,inv(A.constval())); return true; }
  return false; }
static std::map<std::pair<std::string,int>,bool> knownForm;
static void clearRF(){ for(auto&n:nodes) n.rf.reset(); for(auto&w:wits) w.memo.clear(); known.clear(); knownForm.clear(); }
static bool branchEq(Id d,Rel r){ bool isNE= r==R_NE; // returns truth of (d r 0)
  const RF* q; try{ q=&rf(d);}catch(TooBig&){ S->toobig++; S->skipped_eq++; return isNE; }
  if(q->zero()) return !isNE; if(q->isconst()) return isNE; if(abs(quickSign(*q))==2) return isNE;
  // any witness showing inequality? generic points are unequal since q is not the zero function
  bool eqPossible=false; int s; RF val; RF cur=*q;
  if(cfg_explore_eq){ bool solved=solveLinear(cur,s,val); if(!solved){ bool had=!split.empty(); if(had){ clearRF(); try{ cur=rf(d); solved=solveLinear(cur,s,val);}catch(TooBig&){} } }
    if(solved){ Con e{d,R_EQ}; int z=solve({e},{},nullptr,ztimeout); eqPossible= z==1; if(z==-1){ S->skipped_eq++; } 
      // inequality side feasible?
      } else { Con e{d,R_EQ}; int z=solve({e},{},nullptr,ztimeout/2); if(z!=0) S->skipped_eq++; } } else S->skipped_eq++;
  if(!eqPossible){ known[{d,R_EQ}]=false; return isNE; }
  if(spawn()){ // equality side
    subst[s]=val; clearRF(); for(auto&w:wits) applySubstToWit(w); std::vector<Wit> keep; for(auto&w:wits) if(admissible(w)) keep.push_back(w); wits.swap(keep); if(wits.size()<4) resample(6); if(wits.empty()){ Model m; if(solve({},{},&m,ztimeout)==1) addModel(m); } return !isNE; }
  take(Con{d,R_NE}); known[{d,R_EQ}]=false; return isNE; }
// sign of a node from its structure alone: 2 >0, 1 >=0, -1 <=0, -2 <0, 0 unknown
static std::unordered_map<Id,int> ssMemo;
static int structSign(Id x,int depth=0){ if(special(x)||depth>400) return 0; auto it=ssMemo.find(x); if(it!=ssMemo.end()) return it->second; Node n=nodes[x]; int r=0; auto S=[&](Id y){ return structSign(y,depth+1); };
  switch(n.op){ case CONST: r=sgn(n.c)>0?2:sgn(n.c)<0?-2:1; break; case VREAL: for(auto&v:vars) if(!v.cplx&&v.sym==n.a){ if(v.lo>0) r=2; else if(v.lo>=0) r=1; break; } break;
   case ADD:{ int a=S(n.a); if(a){ int b=S(n.b); if(a>0&&b>0) r=std::max(a,b); else if(a<0&&b<0) r=std::min(a,b); } break; }
   case SUB:{ int a=S(n.a); if(a){ int b=-S(n.b); if(a>0&&b>0) r=std::max(a,b); else if(a<0&&b<0) r=std::min(a,b); } break; }
   case MUL: case DIV:{ int a=S(n.a); if(n.a==n.b){ r= std::abs(a)==2||n.op==DIV?2:1; break; } if(a){ int b=S(n.b); if(b){ bool st=std::abs(a)==2&&std::abs(b)==2; if(n.op==DIV&&std::abs(a)==2) st=true; r=((a>0)==(b>0)?1:-1)*(st?2:1); } } break; }
   case NEG: r=-S(n.a); break; case RFN1: if(n.fn==F_SQRT) r=S(n.a)==2?2:1; else if(n.fn==F_EXP||n.fn==F_COSH) r=2; else if(n.fn==F_ABS) r=std::abs(S(n.a))==2?2:1; break; case RFN2: if(n.fn==F_POW&&S(n.a)==2) r=2; if(n.fn==F_HYPOT) r=1; break; default:; }
  ssMemo[x]=r; return r; }
// an expression with the sign of d, when d is a rational combination of logarithms (of positive arguments) and log 10 times a rational; d itself otherwise
static Id delog(Id d){ if(logNodes.empty()||special(d)) return d; try{ const RF q=rf(d); bool has=false; for(auto&t:q.num.t) for(auto&f:t.first) if(syms[f.first].k==S_FUN&&syms[f.first].fn=="rlog") has=true; if(!has||q.num.t.size()>8) return d;
  int L=-1; std::map<int,Id> arg; for(Id y:logNodes){ const RF&l=rf(y); if(!l.den.empty()||l.num.t.size()!=1) continue; auto&t=*l.num.t.begin(); if(t.first.size()!=1||t.first[0].second!=1||!(t.second.real()&&t.second.re==1)) continue; arg[t.first[0].first]=nodes[y].a; mpq_class c; if(isconst(nodes[y].a,&c)&&c==10) L=t.first[0].first; }
  for(auto&x:q.den){ const Poly&p=denpoly(x.first); if(p.isconst()) continue; if(p.t.size()!=1||L<0) return d; auto&t=*p.t.begin(); if(t.first.size()!=1||t.first[0].first!=L||!(t.second.real()&&sgn(t.second.re)>0)) return d; }
  int total=-1; std::map<int,mpq_class> al; mpq_class be=0; for(auto&t:q.num.t){ if(!t.second.real()) return d; int deg=0,other=-1; for(auto&f:t.first){ deg+=f.second; if(f.first==L) continue; if(!arg.count(f.first)||other>=0||f.second!=1) return d; other=f.first; } if(total<0) total=deg; if(total!=deg||deg==0) return d; if(other>=0) al[other]=t.second.re; else be=t.second.re; }
  mpz_class den=1; for(auto&a:al) den=lcm(den,a.second.get_den()); mpq_class m=be*den; if(m.get_den()!=1||abs(m)>400) return d; Id up=mkint(1),dn=mkint(1); long sum=0; for(auto&a:al){ mpq_class n=a.second*den; if(abs(n)>8) return d; long k=n.get_num().get_si(); sum+=std::labs(k); if(k>0) up=mul(up,powi(arg[a.first],k)); else dn=mul(dn,powi(arg[a.first],-k)); } if(sum>8) return d;
  long k=m.get_num().get_si(); mpz_class t=1; for(int i=0;i<std::labs(k);i++) t*=10; if(k>0) up=mul(up,mkconst(mpq_class(t))); else if(k<0) dn=mul(dn,mkconst(mpq_class(t))); return sub(up,dn); }catch(TooBig&){ return d; } }
bool branch(Id d,Rel r){ if(special(d)){ if(d==NANID) return r==R_NE; bool pos=d==PINF; switch(r){case R_LT:case R_LE:return !pos;case R_GT:case R_GE:return pos;case R_EQ:return false;default:return true;} }
  mpq_class c; if(isconst(d,&c)){ int s=sgn(c); switch(r){case R_LT:return s<0;case R_LE:return s<=0;case R_EQ:return s==0;case R_NE:return s!=0;case R_GT:return s>0;default:return s>=0;} }
  { Rel k=r; bool n=false; if(r==R_NE){k=R_EQ;n=true;} if(r==R_GE){k=R_LT;n=true;} if(r==R_GT){k=R_LE;n=true;} auto it=known.find({d,k}); if(it!=known.end()) return n?!it->second:it->second; }
  { int q=structSign(d); if(q==2||q==-2){ bool pos=q>0; switch(r){case R_LT:case R_LE:return !pos;case R_GT:case R_GE:return pos;case R_EQ:return false;default:return true;} } if(q==1&&(r==R_GE||r==R_LT)) return r==R_GE; if(q==-1&&(r==R_LE||r==R_GT)) return r==R_LE; if(q&&!cfg_explore_eq&&(r==R_GT||r==R_LE||r==R_LT||r==R_GE)){ bool z=true; try{ z=rf(d).zero(); }catch(TooBig&){ z=false; } if(z) return r==R_LE||r==R_GE; S->skipped_eq++; return q==1? r==R_GT : r==R_LT; } }
  { Id e=delog(d); if(e!=d) return branch(e,r); }
  // comparisons already decided on this path for an expression with the same normal form
  std::string kkey; bool kneg=false; { try{ const RF&q=rf(d); if(q.zero()) return r==R_LE||r==R_GE||r==R_EQ; if(q.num.t.size()<=60&&q.den.size()<=4&&r!=R_EQ&&r!=R_NE){ GQ lc=q.num.t.begin()->second; RF n=q; if(lc.real()&&sgn(lc.re)!=0){ kneg=sgn(lc.re)<0; n=rscale(q,GQ(mpq_class(1/lc.re))); } kkey=rstr(n); } }catch(TooBig&){} }
  // the key is stored for "normal form < 0" and "normal form <= 0"
  auto form=[&](Rel q,bool&neg)->Rel{ neg=false; if(kneg){ static const Rel fl[]={R_GT,R_GE,R_EQ,R_NE,R_LT,R_LE}; q=fl[q]; } if(q==R_GE){ neg=true; return R_LT; } if(q==R_GT){ neg=true; return R_LE; } return q; };
  if(!kkey.empty()){ bool neg; Rel q=form(r,neg); auto it=knownForm.find({kkey,q}); if(it!=knownForm.end()) return neg?!it->second:it->second; }
  if(r==R_EQ||r==R_NE) return branchEq(d,r);
  auto strict=[&](Rel q){ return !cfg_generic?q: q==R_LE?R_LT: q==R_GE?R_GT:q; };
  Con T{d,strict(r)},F{d,strict(negate(r))}; int nt=0,nf=0; for(auto&w:wits){ if(w.weak) continue; int h=holdsNum(T,w); if(h==1)nt++; else if(h==0)nf++; }
  auto remember=[&](bool v){ Rel k=r; bool n=false; if(r==R_GE){k=R_LT;n=true;} if(r==R_GT){k=R_LE;n=true;} known[{d,k}]=n?!v:v; if(cfg_generic) known[{d,k==R_LT?R_LE:R_LT}]=n?!v:v; if(!kkey.empty()){ bool neg; Rel q=form(r,neg); bool w=neg?!v:v; knownForm[{kkey,q}]=w; if(cfg_generic) knownForm[{kkey,q==R_LT?R_LE:R_LT}]=w; else if(q==R_LT&&w) knownForm[{kkey,R_LE}]=true; else if(q==R_LE&&!w) knownForm[{kkey,R_LT}]=false; } };
  int ft=nt>0?1:-2,ff=nf>0?1:-2;
  if(ft<0||ff<0){ try{ const RF&q=rf(d); int qs=quickSign(q); if(qs){ bool res; int sv= qs==9?0:qs; bool known_=true; switch(r){ case R_LT: if(sv<=-2) res=true; else if(sv>=0&&sv!=9) res=false; else known_=false; break; case R_LE: if(sv<=0) res=true; else if(sv>=2) res=false; else known_=false; break; case R_GT: if(sv>=2) res=true; else if(sv<=0) res=false; else known_=false; break; default: if(sv>=0) res=true; else if(sv<=-2) res=false; else known_=false; } if(known_){ remember(res); return res; } } }catch(TooBig&){ S->toobig++; } }
  if(ft==-2){ Model m; ft=solve({T},{},&m,ztimeout); if(ft==1) addModel(m); }
  if(ff==-2){ Model m; ff=solve({F},{},&m,ztimeout); if(ff==1) addModel(m); }
  if(ft==0&&ff==0){ if(cfg_generic&&!maybeInfeasible) return r==R_LE||r==R_GE; prune("infeasible"); }
  if(ft==0){ remember(false); return false; } if(ff==0){ remember(true); return true; }
  if(ft==-1||ff==-1){ // undecided side: follow the side known feasible unless both unknown
    if(ft==1&&nt>0&&ff==-1){ S->truncated+=0; logline("{\"t\":\"undecided\",\"what\":\"branch side not shown infeasible\"}"); if(getenv("SR_ABORT_UNDECIDED")){ void*b[60]; int n=backtrace(b,60); backtrace_symbols_fd(b,n,2); abort(); } }
    maybeInfeasible=true; }
  if(getenv("SR_TRACE_FORK")){ fprintf(stderr,"FORK %s\n",rstr(rf(d)).substr(0,300).c_str()); void*b[60]; int n=backtrace(b,60); backtrace_symbols_fd(b,n,2); }
  if(spawn()){ if(ff==-1) maybeInfeasible=true; take(F); remember(false); if(wits.size()<4) resample(8); return false; }
  take(T); remember(true); if(wits.size()<4) resample(8); return true; }
bool compare(Id a,Rel r,Id b){ if(a==NANID||b==NANID) return r==R_NE; if(special(a)||special(b)){ auto rank=[](Id x){return x==PINF?1:x==NINF?-1:0;}; int x=rank(a),y=rank(b); if(x==y) { switch(r){case R_LE:case R_GE:case R_EQ:return true;default:return false;} } switch(r){case R_LT:case R_LE:return x<y;case R_GT:case R_GE:return x>y;case R_EQ:return false;default:return true;} }
  // sqrt(A) rel sqrt(B)  <=>  A rel B ; sqrt(A) rel c
  auto isSq=[&](Id x){ return nodes[x].op==RFN1&&nodes[x].fn==F_SQRT; }; mpq_class c;
  if(isSq(a)&&isSq(b)) return branch(sub(nodes[a].a,nodes[b].a),r);
  if(isSq(a)&&isconst(b,&c)){ if(sgn(c)<0) return r==R_GT||r==R_GE||r==R_NE; return branch(sub(nodes[a].a,mkconst(c*c)),r); }
  if(isSq(b)&&isconst(a,&c)){ if(sgn(c)<0) return r==R_LT||r==R_LE||r==R_NE; return branch(sub(mkconst(c*c),nodes[b].a),r); }
  if(a>b){ static const Rel flip[]={R_GT,R_GE,R_EQ,R_NE,R_LT,R_LE}; return branch(sub(b,a),flip[r]); }
  return branch(sub(a,b),r); }
long concretize(Id x,int mode){ mpq_class c; if(special(x)) return 0; auto fl=[](const mpq_class&q){ mpz_class r; mpz_fdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return r; };
  if(isconst(x,&c)){ mpz_class r; if(mode==0) mpz_tdiv_q(r.get_mpz_t(),c.get_num_mpz_t(),c.get_den_mpz_t()); else if(mode==1) r=fl(c); else if(mode==2) r=-fl(-c); else r= sgn(c)>=0? fl(c+mpq_class(1,2)) : -fl(-c+mpq_class(1,2)); return r.get_si(); }
  try{ const RF&q=rf(x); if(q.isconst()&&q.num.constval().real()){ return concretize(mkconst(q.num.constval().re),mode);} }catch(TooBig&){}
  for(int it=0;it<80;it++){ long k; if(wits.empty()) resample(4); if(wits.empty()){ Model m; if(solve({},{},&m,ztimeout)==1) addModel(m); else prune("no model"); } size_t wi=0; while(wi<wits.size()&&wits[wi].weak) wi++; if(wi>=wits.size()){ size_t n=wits.size(); resample(n+2); wi= wits.size()>n? n : it%n; } long double v=numw(x,wits[wi]).real(); if(it) v+=((it%3)-1)*1e-7L*(1+fabsl(v)); // a value next to an integer: try the neighbours too
    if(mode==0) k=(long)truncl(v); else if(mode==1) k=(long)floorl(v); else if(mode==2) k=(long)ceill(v); else k=(long)roundl(v);
    auto K=[&](long a,long b){ return mkconst(mpq_class(a)/mpq_class(b)); }; bool in;
    if(mode==1||(mode==0&&k>0)) in= branch(sub(x,K(k,1)),R_GE)&&branch(sub(x,K(k+1,1)),R_LT);
    else if(mode==2||(mode==0&&k<0)) in= branch(sub(x,K(k,1)),R_LE)&&branch(sub(x,K(k-1,1)),R_GT);
    else if(mode==0) in= branch(sub(x,K(-1,1)),R_GT)&&branch(sub(x,K(1,1)),R_LT);
    else in= branch(sub(x,K(2*k-1,2)),k>0?R_GE:R_GT)&&branch(sub(x,K(2*k+1,2)),k<0?R_LE:R_LT);
    if(in) return k; }
  if(getenv("SR_TRACE_FORK")){ fprintf(stderr,"TRUNC %s wits %zu\n",rstr(rf(x)).substr(0,300).c_str(),wits.size()); for(auto&w:wits) fprintf(stderr," weak %d v %Lf\n",(int)w.weak,numw(x,w).real()); for(auto&c:pc) fprintf(stderr," pc %s %d\n",rstr(rf(c.d)).substr(0,100).c_str(),(int)c.r); }
  S->truncated++; prune("too many integer values"); }
void assume(Id d,Rel r){ mpq_class c; if(isconst(d,&c)||special(d)){ if(!branch(d,r)) prune("assume"); return; }
  // range of a plain variable?
  take(Con{d,r}); if(wits.size()<6) resample(12); if(wits.empty()){ Model m; int z=solve({},{},&m,ztimeout*2); if(z==0) prune("assume unsat"); if(z==1) addModel(m); } }
// ---------------------------------------------------------------- assertions

static void assertEq(Id cre,Id cim,Id dre,Id dim,const std::string&label){ labelCount[label]++; S->checks++;
  if(cre==dre&&cim==dim&&!special(cre)&&!special(cim)){ S->eq_proved++; confQ.push_back({cre,cim,dre,dim}); return; }
  if(special(cre)||special(cim)||special(dre)||special(dim)){ if(cre==dre&&cim==dim&&cre!=NANID) { S->eq_proved++; return; } candidate(label,"non-finite value",goodWit()); return; }
  RF diff; bool have=false; try{ RF a=radd(rf(cre),rscale(rf(cim),GQ(0,1))),b=radd(rf(dre),rscale(rf(dim),GQ(0,1))); diff=rsub(a,b); have=true; }catch(TooBig&){ S->toobig++; }
  if(have&&diff.zero()){ S->eq_proved++; confQ.push_back({cre,cim,dre,dim}); return; }
  if(have&&cim==dim){ Id d=sub(cre,dre),e=delog(d); if(e!=d){ try{ if(rf(e).zero()){ S->eq_proved++; return; } diff=rf(e); }catch(TooBig&){} } }
  // look for a witness
  if(wits.empty()) resample(6); std::string why= have? "difference = "+rstr(diff).substr(0,600):"difference too large to normalise"; bool any=false; double worst=0;
  if(vars.empty()){ Wit w; cld a(numw(cre,w).real(),numw(cim,w).real()),b(numw(dre,w).real(),numw(dim,w).real()); long double e=std::abs(a-b); worst=(double)e; if(!std::isfinite(e)||e>1e-9L*(1+std::abs(a)+std::abs(b))){ candidate(label,why,&w); return; } }
  for(auto&w:wits){ cld a(numw(cre,w).real(),numw(cim,w).real()),b(numw(dre,w).real(),numw(dim,w).real()); long double e=std::abs(a-b); if(!std::isfinite(e)) continue; any=true; if(e>worst) worst=e; if(e>1e-7L*(1+std::abs(a)+std::abs(b))){ candidate(label,why,&w); return; } }
  (void)any; if(have){ Model m; int z=solve({},{&diff},&m,ztimeout); if(z==0){ S->eq_proved++; S->eq_z3++; return; } if(z==1){ Wit w; w.v=m.v; applySubstToWit(w); cld a(numw(cre,w).real(),numw(cim,w).real()),b(numw(dre,w).real(),numw(dim,w).real()); if(std::abs(a-b)>1e-9L*(1+std::abs(a)+std::abs(b))){ candidate(label,why,&w); return; } } }
  S->eq_unproved++; unprovedCount[label]++; logline("{\"t\":\"unproved\",\"label\":\""+jesc(label)+"\",\"why\":\""+jesc(why)+"\",\"worst\":"+std::to_string(worst)+"}"); }
static void assertRel(Id d,Rel r,const std::string&label){ d=delog(d); labelCount[label]++; S->checks++; if(special(d)){ if(!branch(d,r)) candidate(label,"non-finite",goodWit()); else S->ineq_proved++; return; } mpq_class c; if(isconst(d,&c)){ if(branch(d,r)) S->ineq_proved++; else candidate(label,"constant "+c.get_str()+" not "+relname(r)+" 0",goodWit()); return; }
  if(r==R_EQ){ assertEq(d,mkint(0),mkint(0),mkint(0),label); return; }
  Con N{d,negate(r)}; try{ const RF&q=rf(d); int qs=quickSign(q); int sv=qs==9?0:qs; if(qs){ bool ok=false; if(r==R_GE&&sv>=0) ok=true; if(r==R_GT&&sv==2) ok=true; if(r==R_LE&&sv<=0) ok=true; if(r==R_LT&&sv==-2) ok=true; if(r==R_NE&&abs(sv)==2) ok=true; if(ok){S->ineq_proved++;return;} } }catch(TooBig&){S->toobig++;}
  for(auto&w:wits) if(r!=R_NE&&holdsNum(N,w,1e-9L)==1){ candidate(label,std::string("violates ")+relname(r)+" 0 with value "+valstr(numw(d,w).real()),&w); return; }
  Model m; int z=solve({N},{},&m,ztimeout*3); if(z==0){ S->ineq_proved++; return; } if(z==1){ Wit w; w.v=m.v; applySubstToWit(w); candidate(label,std::string("solver model violates ")+relname(r)+" 0",&w); return; }
  S->eq_unproved++; unprovedCount[label]++; logline("{\"t\":\"unproved\",\"label\":\""+jesc(label)+"\",\"why\":\"relation undecided by the solver\"}"); }
}
// ---------------------------------------------------------------- C interface used by the harness header
using namespace sr;
extern "C" {
double srh_real(const char*n){ return todbl(real_var(n)); }
double srh_real_range(const char*n,double lo,double hi){ bool fresh=!varIx.count(n); int ix=newVar(n,false,lo,hi); if(fresh){ Id x=vars[ix].id; if(lo>-1e300) pc.push_back(Con{sub(x,mkdbl(lo)),R_GE}); if(hi<1e300) pc.push_back(Con{sub(x,mkdbl(hi)),R_LE}); } return todbl(vars[ix].id); }
void srh_cplx(const char*n,double*re,double*im){ C c=complex_var(n); *re=todbl(c.re); *im=todbl(c.im); }
void srh_assume(double a,int r,double b){ assume(sub(mkdbl(a),mkdbl(b)),(Rel)r); }
void srh_eq(double a,double ai,double b,double bi,const char*label){ assertEq(mkdbl(a),mkdbl(ai),mkdbl(b),mkdbl(bi),label); }
void srh_rel(double a,int r,double b,const char*label){ Id x=mkdbl(a),y=mkdbl(b); if(special(x)||special(y)){ labelCount[label]++; S->checks++; if(compare(x,(Rel)r,y)) S->ineq_proved++; else candidate(label,"non-finite",goodWit()); return; } assertRel(sub(x,y),(Rel)r,label); }
void srh_exists(double a,double ai,const char*label){ labelCount[label]++; S->checks++; Id x=mkdbl(a),y=mkdbl(ai); if(special(x)||special(y)){ S->ineq_proved++; return; } bool z=false; try{ z=rf(x).zero()&&rf(y).zero(); }catch(TooBig&){ S->toobig++; }
  if(z){ candidate(label,"identically zero",goodWit()); return; } if(wits.empty()) resample(6); if(vars.empty()){ S->ineq_proved++; return; } for(auto&w:wits){ cld v(numw(x,w).real(),numw(y,w).real()); if(std::isfinite(std::abs(v))&&std::abs(v)>1e-9L){ S->ineq_proved++; return; } }
  try{ RF d=radd(rf(x),rscale(rf(y),GQ(0,1))); Model m; int r=solve({},{&d},&m,ztimeout); if(r==1){ S->ineq_proved++; return; } if(r==0){ candidate(label,"zero on the whole path",goodWit()); return; } }catch(TooBig&){} S->eq_unproved++; unprovedCount[label]++; }
void srh_check(int ok,const char*label,const char*detail){ labelCount[label]++; S->checks++; if(ok) return; candidate(label,detail?detail:"",goodWit()); }
int srh_choose(const char*name,int n){ static const char*only=getenv("SR_ONLY"); if(only&&*only){ char*e; long k=strtol(only,&e,10); only= *e==','?e+1:e; choices.push_back({name,int(k)}); return int(k); } for(int k=0;k<n-1;k++){ if(spawn()){ choices.push_back({name,k}); return k; } } choices.push_back({name,n-1}); return n-1; }
void srh_prune(){ prune("harness"); }
void srh_explore_eq(int on){ cfg_explore_eq=on>0; cfg_generic=on<0; }
void srh_scenario(const char*s){ scn=s; }
// expr = O(name^k) as the real symbol `name` tends to zero
void srh_vanish(double a,double ai,const char*name,int k,const char*label){ Id x=mkdbl(a),y=mkdbl(ai); if(special(x)||special(y)){ labelCount[label]++; S->checks++; candidate(label,"non-finite value",goodWit()); return; }
  bool ok=false; std::string why="order unknown"; try{ RF d=radd(rf(x),rscale(rf(y),GQ(0,1))); int h=-1; for(size_t i=0;i<syms.size();i++) if(syms[i].k==S_REAL&&syms[i].name==name) h=i; auto deg=[&](const Mono&m){ for(auto&f:m) if(f.first==h) return f.second; return 0; }; auto low=[&](const Poly&p){ int l=1<<20; for(auto&t:p.t) l=std::min(l,deg(t.first)); return l; };
    for(auto&t:d.num.t) for(auto&f:t.first) if(f.first!=h){ std::map<int,bool> in; collect(syms[f.first].arg,in); collect(syms[f.first].arg2,in); if(in.count(h)){ labelCount[label]++; S->checks++; S->eq_unproved++; unprovedCount[label]++; return; } }
    if(d.zero()) ok=true; else { int l=low(d.num); for(auto&q:d.den) l-=q.second*low(denpoly(q.first)); ok= l>=k; why="only of order "+std::to_string(l)+" in "+name+", wanted "+std::to_string(k); } }catch(TooBig&){ S->toobig++; labelCount[label]++; S->checks++; S->eq_unproved++; unprovedCount[label]++; return; }
  labelCount[label]++; S->checks++; if(ok){ S->eq_proved++; return; } candidate(label,why,goodWit()); }
int srh_identically_zero(double a){ Id x=mkdbl(a); if(special(x)) return 0; try{ return rf(x).zero(); }catch(TooBig&){ return 0; } }
int srh_is_symbolic(double a){ mpq_class c; Id x=mkdbl(a); return !special(x)&&!sr::isconst(x,&c); }
const char* srh_str(double a){ static std::string s; Id x=mkdbl(a); if(special(x)) return x==NANID?"nan":"inf"; try{ s=rstr(rf(x)).substr(0,400);}catch(TooBig&){s="<big>";} return s.c_str(); }
}
void sr_harness();
int main(int argc,char**argv){ (void)argc;(void)argv; rootpid=getpid(); S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(S) Shared(); S->active=1;
  const char*o=getenv("SR_LOG"); logfd=o?open(o,O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644):open("/dev/null",O_WRONLY); const char*e; if((e=getenv("SR_DEADLINE"))) deadline=now()+atof(e); if((e=getenv("SR_PAR"))) maxpar=atoi(e); if((e=getenv("SR_ZTMO"))) ztimeout=atof(e); if((e=getenv("VERIF_SEED"))) rng.seed(atol(e)*7919+1); if((e=getenv("SR_CONFIRM"))) confBudget=atof(e); if((e=getenv("SR_PATHLIMIT"))) pathlimit=atof(e);
  pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); for(int s:{SIGSEGV,SIGABRT,SIGFPE,SIGALRM,SIGBUS,SIGILL}) { struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=crashHandler; sa.sa_flags=SA_ONSTACK|SA_NODEFER; sigaction(s,&sa,nullptr); } stack_t ss; ss.ss_size=1<<20; ss.ss_sp=malloc(ss.ss_size); ss.ss_flags=0; sigaltstack(&ss,nullptr); alarm((unsigned)pathlimit);
    try{ sr_harness(); }catch(std::exception&x){ int st; char*dm=abi::__cxa_demangle(typeid(x).name(),nullptr,nullptr,&st); candidate("__exception",std::string(dm?dm:"")+": "+x.what(),goodWit()); endpath(2); }catch(...){ candidate("__exception","unknown exception",goodWit()); endpath(2);} endpath(0); }
  int st; while(waitpid(p,&st,0)<0&&errno==EINTR){}
  char b[2048]; snprintf(b,sizeof b,"{\"t\":\"stats\",\"paths\":%ld,\"forks\":%ld,\"pruned\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"eq_proved\":%ld,\"eq_z3\":%ld,\"ineq_proved\":%ld,\"unproved\":%ld,\"checks\":%ld,\"cands\":%ld,\"skipped_eq\":%ld,\"truncated\":%ld,\"crashed\":%ld,\"toobig\":%ld,\"unsupported\":%ld,\"maxdepth\":%ld,\"conf_q\":%ld,\"conf_unsat\":%ld,\"conf_other\":%ld,\"conf_pairs\":%ld,\"z3_s\":%.3f,\"rootstatus\":%d}",S->paths.load(),S->forks.load(),S->pruned.load(),S->queries.load(),S->unsat.load(),S->sat.load(),S->unknown.load(),S->eq_proved.load(),S->eq_z3.load(),S->ineq_proved.load(),S->eq_unproved.load(),S->checks.load(),S->cands.load(),S->skipped_eq.load(),S->truncated.load(),S->crashed.load(),S->toobig.load(),S->unsupported.load(),S->maxdepth.load(),S->conf_q.load(),S->conf_unsat.load(),S->conf_other.load(),S->conf_pairs.load(),S->z3us.load()*1e-6,st);
  logline(b); puts(b); return 0; }
