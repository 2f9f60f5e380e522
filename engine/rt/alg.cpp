#include "alg.h"
#include <set>
#include <cstring>
#include <algorithm>
namespace alg {
size_t term_limit=200000;
std::vector<Sym> syms;
GQ operator*(const GQ&a,const GQ&b){ if(sgn(a.im)==0&&sgn(b.im)==0) return GQ(a.re*b.re); return GQ(a.re*b.re-a.im*b.im,a.re*b.im+a.im*b.re); }
GQ inv(const GQ&a){ if(sgn(a.im)==0) return GQ(1/a.re); mpq_class d=a.re*a.re+a.im*a.im; return GQ(a.re/d,-a.im/d); }
void Poly::add(const Mono&m,const GQ&c){ if(c.zero())return; auto it=t.find(m); if(it==t.end()) t.emplace(m,c); else { it->second=it->second+c; if(it->second.zero()) t.erase(it);} }
bool operator<(const Poly&a,const Poly&b){ if(a.t.size()!=b.t.size()) return a.t.size()<b.t.size(); auto i=a.t.begin(),j=b.t.begin(); for(;i!=a.t.end();++i,++j){ if(i->first!=j->first) return i->first<j->first; if(!(i->second==j->second)) return i->second<j->second;} return false; }
Poly pconst(const GQ&c){Poly p;p.add({},c);return p;} Poly psym(int s,int e){Poly p;if(e==0)return pconst(1);p.add({{s,e}},1);return p;}
Poly padd(const Poly&a,const Poly&b){ if(a.t.size()<b.t.size()) return padd(b,a); Poly r=a; for(auto&x:b.t) r.add(x.first,x.second); return r;}
Poly psub(const Poly&a,const Poly&b){ Poly r=a; for(auto&x:b.t) r.add(x.first,-x.second); return r;}
Poly pneg(const Poly&a){Poly r;for(auto&x:a.t) r.t.emplace(x.first,-x.second);return r;}
Poly pscale(const Poly&a,const GQ&c){Poly r; if(c.zero())return r; for(auto&x:a.t) r.t.emplace(x.first,x.second*c);return r;}
static Mono mmul(const Mono&a,const Mono&b){ Mono r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while(i<a.size()||j<b.size()){ if(j>=b.size()||(i<a.size()&&a[i].first<b[j].first)) r.push_back(a[i++]); else if(i>=a.size()||b[j].first<a[i].first) r.push_back(b[j++]); else { int e=a[i].second+b[j].second; if(e) r.push_back({a[i].first,e}); i++;j++; } } return r; }
Poly pmul(const Poly&a,const Poly&b){ Poly r; if(a.isconst()) return pscale(b,a.constval()); if(b.isconst()) return pscale(a,b.constval()); for(auto&x:a.t) { for(auto&y:b.t) r.add(mmul(x.first,y.first),x.second*y.second); if(r.t.size()>term_limit) throw TooBig(); } return r; }
std::string pstr(const Poly&p){ if(p.zero())return "0"; std::string s; for(auto&x:p.t){ if(!s.empty()) s+=" + "; std::string c; if(x.second.real()) c=x.second.re.get_str(); else c="("+x.second.re.get_str()+"+"+x.second.im.get_str()+"i)"; s+=c; for(auto&f:x.first){ s+="*"+syms[f.first].name; if(f.second!=1) s+="^"+std::to_string(f.second);} } return s; }
static std::vector<Poly> dens; static std::map<Poly,int> denIx;
const Poly& denpoly(int id){return dens[id];}
int intern(const Poly&p){ auto it=denIx.find(p); if(it!=denIx.end()) return it->second; int id=dens.size(); dens.push_back(p); denIx[p]=id; return id; }
RF rconst(const GQ&c){RF r;r.num=pconst(c);return r;}
RF rsym(int s,int e){RF r; if(e>=0) r.num=psym(s,e); else { r.num=pconst(1); r.den[intern(psym(s))]=-e;} return r;}
static bool hasRule(int s){ return syms[s].k==S_ROOT||syms[s].k==S_ZETA; }
static RF zetaPow(int s,long e); 
// ---- reduction of root/zeta symbols
static int zdeg(int n){ // n prime power; degree over Q(i) of zeta_n
  if((n&(n-1))==0) return n/4; int p=2; while(n%p) p++; return n/p*(p-1); }
static Poly zetaReduce(int s,long e){ int n=syms[s].n; e%=n; if(e<0)e+=n;
  if((n&(n-1))==0){ int d=n/4; int q=e/d; GQ c(1); for(int k=0;k<q;k++) c=c*GQ(0,1); return pscale(psym(s,e%d),c); }
  int p=2; while(n%p) p++; int m=n/p; int d=m*(p-1); if(e<d) return psym(s,e); // zeta^e, e>=d: zeta^(d+r) = -sum_{j<p-1} zeta^(jm+r)
  Poly r; int rr=e-d; for(int j=0;j<p-1;j++) r=padd(r,zetaReduce(s,(long)j*m+rr)); return pneg(r); }
static RF ratio(const Poly&p){RF r;r.num=p;return r;}
static bool polyDivExact(const Poly&a,const Poly&b,Poly&q);
static void cancel(RF&r){ for(auto it=r.den.begin();it!=r.den.end();){ const Poly d=dens[it->first];
    if(r.num.zero()){ r.den.clear(); return; }
    while(it->second>0){ Poly q; if(r.num.t.size()*d.t.size()>20000) break; if(!polyDivExact(r.num,d,q)) break; r.num=std::move(q); it->second--; }
    if(it->second==0) it=r.den.erase(it); else ++it; } }
static bool mdiv(const Mono&a,const Mono&b,Mono&q){ q.clear(); size_t i=0; for(auto&f:b){ while(i<a.size()&&a[i].first<f.first) q.push_back(a[i++]); if(i>=a.size()||a[i].first!=f.first||a[i].second<f.second) return false; if(a[i].second>f.second) q.push_back({f.first,a[i].second-f.second}); i++; } while(i<a.size()) q.push_back(a[i++]); return true; }
static Mono ladd(const Mono&m){return m;}
// lexicographic (by dense exponent vectors) leading monomial comparison
static bool lexless(const Mono&a,const Mono&b){ size_t i=0,j=0; while(i<a.size()&&j<b.size()){ if(a[i].first!=b[j].first) return a[i].first>b[j].first; if(a[i].second!=b[j].second) return a[i].second<b[j].second; i++;j++; } return i>=a.size()&&j<b.size(); }
static std::map<Mono,GQ>::const_iterator lead(const Poly&p){ auto best=p.t.begin(); for(auto it=p.t.begin();it!=p.t.end();++it) if(lexless(best->first,it->first)) best=it; return best; }
static bool polyDivExact(const Poly&a,const Poly&b,Poly&q){ q=Poly(); if(b.zero()) return false; auto lb=lead(b); GQ ic=inv(lb->second); Poly r=a; size_t steps=0;
  // a cheap necessary test: variables of b must occur in a
  if(b.t.size()>1&&a.t.size()<2) return false;
  while(!r.zero()){ if(++steps>4000) return false; auto lr=lead(r); Mono m; if(!mdiv(lr->first,lb->first,m)) return false; GQ c=lr->second*ic; q.add(m,c); Poly s; for(auto&x:b.t) s.t.emplace(mmul(x.first,m),x.second*c); r=psub(r,s); }
  (void)ladd; return true; }
static RF reduceNum(const Poly&p); 
static RF mk(const Poly&num,const std::map<int,int>&den){ RF r=reduceNum(num); for(auto&d:den) r.den[d.first]+=d.second; cancel(r); return r; }
static RF addDen(const RF&a,const RF&b,bool sub){ if(a.zero()) return sub?rneg(b):b; if(b.zero()) return a;
  std::map<int,int> L=a.den; for(auto&d:b.den){ int&x=L[d.first]; x=std::max(x,d.second);} 
  auto lift=[&](const RF&r){ Poly p=r.num; for(auto&d:L){ auto it=r.den.find(d.first); int e=d.second-(it==r.den.end()?0:it->second); for(int k=0;k<e;k++) p=pmul(p,dens[d.first]); } return p; };
  if(L.empty()){ RF r; r.num=sub?psub(a.num,b.num):padd(a.num,b.num); return r; }
  Poly n=sub?psub(lift(a),lift(b)):padd(lift(a),lift(b)); return mk(n,L); }
RF radd(const RF&a,const RF&b){return addDen(a,b,false);} RF rsub(const RF&a,const RF&b){return addDen(a,b,true);}
RF rneg(const RF&a){RF r=a;r.num=pneg(a.num);return r;} RF rscale(const RF&a,const GQ&c){RF r=a;r.num=pscale(a.num,c);if(r.num.zero())r.den.clear();return r;}
static bool needReduce(const Poly&p){ for(auto&x:p.t) for(auto&f:x.first) if(hasRule(f.first)){ auto&s=syms[f.first]; if(s.k==S_ROOT? f.second>=s.n : f.second>=zdeg(s.n)) return true; } return false; }
static RF reduceNum(const Poly&p){ if(!needReduce(p)){RF r;r.num=p;return r;} 
  // pick terms needing it
  RF acc; Poly clean; for(auto&x:p.t){ bool need=false; for(auto&f:x.first) if(hasRule(f.first)){auto&s=syms[f.first]; if(s.k==S_ROOT? f.second>=s.n : f.second>=zdeg(s.n)) need=true;}
    if(!need){clean.add(x.first,x.second);continue;}
    RF t=rconst(x.second); for(auto&f:x.first){ Sym s=syms[f.first]; if(s.k==S_ROOT&&f.second>=s.n){ int k=f.second/s.n,e=f.second%s.n; t=rmul(t,rpow(s.arg,k)); if(e) t=rmul(t,rsym(f.first,e)); } else if(s.k==S_ZETA&&f.second>=zdeg(s.n)){ t=rmul(t,ratio(zetaReduce(f.first,f.second))); } else t=rmul(t,rsym(f.first,f.second)); }
    acc=radd(acc,t); }
  return radd(ratio(clean),acc); }
RF rmul(const RF&a,const RF&b){ if(a.zero()||b.zero()) return RF(); if(a.isconst()) return rscale(b,a.num.constval()); if(b.isconst()) return rscale(a,b.num.constval());
  RF x=a,y=b; // cross-cancel before multiplying
  if(!x.den.empty()||!y.den.empty()){ RF u; u.num=x.num; u.den=y.den; cancel(u); RF v; v.num=y.num; v.den=x.den; cancel(v); std::map<int,int> d=u.den; for(auto&e:v.den) d[e.first]+=e.second; return mk(pmul(u.num,v.num),d); }
  return reduceNum(pmul(x.num,y.num)); }
RF rinv(const RF&a){ if(a.zero()) throw TooBig(); RF r; Poly n=a.num; 
  // rationalise: single root/zeta symbol powers as monomials are handled as polynomial factors
  r.num=pconst(1); for(auto&d:a.den) for(int k=0;k<d.second;k++) r.num=pmul(r.num,dens[d.first]);
  // split monomial content
  Mono g=n.t.begin()->first; for(auto&x:n.t){ Mono h; size_t i=0,j=0; while(i<g.size()&&j<x.first.size()){ if(g[i].first<x.first[j].first)i++; else if(g[i].first>x.first[j].first)j++; else {h.push_back({g[i].first,std::min(g[i].second,x.first[j].second)});i++;j++;} } g=h; if(g.empty())break; }
  if(!g.empty()){ Poly q; for(auto&x:n.t){Mono m; mdiv(x.first,g,m); q.t.emplace(m,x.second);} n=q; }
  RF res; res.num=r.num; 
  GQ lc=lead(n)->second; res.num=pscale(res.num,inv(lc)); n=pscale(n,inv(lc)); if(!n.isconst()) res.den[intern(n)]+=1;
  RF extra=rconst(1);
  for(auto&f:g){ const Sym s=syms[f.first]; if(s.k==S_ZETA){ extra=rmul(extra,ratio(zetaReduce(f.first,-(long)f.second))); }
    else if(s.k==S_ROOT){ int e=f.second; // 1/s^e = s^(n-e)/arg
        int k=(e+s.n-1)/s.n; int up=k*s.n-e; if(up) extra=rmul(extra,rsym(f.first,up)); extra=rmul(extra,rpow(rinv(s.arg),k)); }
    else res.den[intern(psym(f.first))]+=f.second; }
  res=mk(res.num,res.den); return rmul(res,extra); }
RF rdiv(const RF&a,const RF&b){ return rmul(a,rinv(b)); }
RF rpow(const RF&a,long n){ if(n<0) return rpow(rinv(a),-n); RF r=rconst(1),b=a; while(n){ if(n&1) r=rmul(r,b); n>>=1; if(n) b=rmul(b,b);} return r; }
static RF conjPoly(const Poly&p){ bool zeta=false; for(auto&x:p.t) for(auto&f:x.first) if(syms[f.first].k==S_ZETA) zeta=true;
  if(!zeta){ Poly r; for(auto&x:p.t){ Mono m; for(auto&f:x.first) m.push_back({syms[f.first].conj,f.second}); std::sort(m.begin(),m.end()); r.add(m,x.second.conj()); } return reduceNum(r); }
  RF acc; for(auto&x:p.t){ RF t=rconst(x.second.conj()); for(auto&f:x.first){ if(syms[f.first].k==S_ZETA) t=rmul(t,ratio(zetaReduce(f.first,-(long)f.second))); else t=rmul(t,rsym(syms[f.first].conj,f.second)); } acc=radd(acc,t);} return acc; }
RF rconj(const RF&a){ RF n=conjPoly(a.num); for(auto&d:a.den){ RF c=conjPoly(dens[d.first]); for(int k=0;k<d.second;k++) n=rdiv(n,c);} return n; }
std::string rstr(const RF&a){ std::string s="("+pstr(a.num)+")"; for(auto&d:a.den){ s+="/("+pstr(dens[d.first])+")"; if(d.second!=1) s+="^"+std::to_string(d.second);} return s; }
bool isreal(const RF&a){ return rsub(a,rconj(a)).zero(); }
static int addSym(Sym s){ int id=syms.size(); if(s.conj==-2) s.conj=id; syms.push_back(s); return id; }
int newReal(const std::string&n){ Sym s; s.k=S_REAL;s.name=n;s.conj=-2; return addSym(s);} 
int newComplex(const std::string&n){ Sym s; s.k=S_CVAR;s.name=n;s.conj=-1; int z=addSym(s); Sym c; c.k=S_CCONJ;c.name=n+"~";c.conj=z; int w=addSym(c); syms[z].conj=w; return z; }
int piSym(){ static int p=-1; if(p<0){ Sym s; s.k=S_PI;s.name="pi";s.conj=-2;s.nonneg=true; p=addSym(s);} return p; }
static std::map<std::pair<std::string,std::pair<RF,RF>>,int> atomIx;
static int atom(SymKind k,const std::string&fn,const RF&a,const RF&b,int n,int conjMode /*0: partner via conj args,1: real*/){
  auto key=std::make_pair(fn,std::make_pair(a,b)); auto it=atomIx.find(key); if(it!=atomIx.end()) return it->second;
  Sym s; s.k=k; s.fn=fn; s.arg=a; s.arg2=b; s.n=n; s.name=fn+"("+rstr(a)+((b.zero())?"":","+rstr(b))+")"; s.conj=-2; int id=addSym(s); atomIx[key]=id;
  if(conjMode==0){ RF ca=rconj(a),cb=rconj(b); auto key2=std::make_pair(fn,std::make_pair(ca,cb)); auto jt=atomIx.find(key2); int c;
    if(jt!=atomIx.end()&&jt->second!=id) c=jt->second; else { Sym t=syms[id]; t.arg=ca;t.arg2=cb; t.name=fn+"~("+rstr(a)+")"; t.conj=id; c=addSym(t); if(jt==atomIx.end()) atomIx[key2]=c; }
    syms[id].conj=c; syms[c].conj=id; }
  return id; }
static RF zeta(const mpq_class&turn){ // e^{2 pi i turn}
  mpz_class den=turn.get_den(), num=turn.get_num(); num%=den; if(num<0) num+=den; long N=den.get_si(), t=num.get_si(); if(N==1) return rconst(1);
  RF r=rconst(1); long rest=N; std::vector<long> pps; for(long p=2;p*p<=rest;p++) if(rest%p==0){ long q=1; while(rest%p==0){rest/=p;q*=p;} pps.push_back(q);} if(rest>1) pps.push_back(rest);
  for(long q:pps){ long m=N/q; // coefficient u with  t/N = sum u_q/q  mod 1:  u_q = t * (m^{-1} mod q)
    long im=1%q; for(long k=1;k<q;k++) if((m%q)*k%q==1%q){im=k;break;} long u=(t%q)*im%q; 
    if(q==2){ if(u) r=rneg(r); continue;} if(q==4){ GQ c(1); for(int k=0;k<u;k++) c=c*GQ(0,1); r=rscale(r,c); continue; }
    static std::map<long,int> zs; auto it=zs.find(q); int s; if(it==zs.end()){ Sym y; y.k=S_ZETA;y.n=q;y.name="zeta"+std::to_string(q);y.conj=-1; s=addSym(y); zs[q]=s; } else s=it->second;
    r=rmul(r,ratio(zetaReduce(s,u))); }
  return r; }
static RF expAtom(const RF&mu){ bool re=isreal(mu); return rsym(atom(S_EXP,"exp",mu,RF(),0,re?1:0)); }
static int imagExp1(const RF&base){ auto key=std::make_pair(std::string("exp"),std::make_pair(base,RF())); auto it=atomIx.find(key); if(it!=atomIx.end()) return it->second; Sym s; s.k=S_EXP;s.fn="exp";s.arg=base;s.name="exp("+rstr(base)+")"; s.conj=-3; int id=addSym(s); atomIx[key]=id; return id; }
// e^{i mu/q}; its conjugate is 1/e^{i conj(mu)/q}
static int imagExp(const RF&base,const RF&mu,const mpz_class&q){ int id=imagExp1(base); if(syms[id].conj!=-3) return id;
  RF base2=rscale(rconj(mu),GQ(0,mpq_class(1,q))); int id2=imagExp1(base2);
  auto inv1=[&](int of,int conjOf){ Sym t; t.k=S_ROOT; t.n=1; t.fn="expinv"; t.arg=rinv(rsym(of)); t.name="1/"+syms[of].name; t.conj=conjOf; int c=addSym(t); syms[conjOf].conj=c; };
  syms[id].conj=id; syms[id2].conj=id2; // temporarily
  inv1(id2,id); if(id2!=id) inv1(id,id2); return id; }
RF fexp(const RF&w){ RF r=rconst(1); for(auto&x:w.num.t){ RF mu; mu.num.t.emplace(x.first,GQ(1)); mu.den=w.den; 
    auto part=[&](const mpq_class&c,bool imag){ if(sgn(c)==0) return; 
      if(imag&&mu.den.empty()&&x.first.size()==1&&x.first[0].first==piSym()&&x.first[0].second==1){ r=rmul(r,zeta(c/2)); return; }
      // exp(log(w)*p/q) is the p-th power of the principal q-th root
      if(!imag&&mu.den.empty()&&x.first.size()==1&&x.first[0].second==1&&syms[x.first[0].first].k==S_LOG&&c.get_den()<64&&abs(c.get_num())<64){ RF w=syms[x.first[0].first].arg; r=rmul(r,rpow(froot(w,c.get_den().get_si(),false),c.get_num().get_si())); return; }
      mpq_class a=c; mpz_class q=a.get_den(), p=a.get_num(); if(!p.fits_sint_p()||abs(p)>40){ q=1; RF base=rscale(mu,imag?GQ(0,a):GQ(a)); r=rmul(r,expAtom(base)); return; }
      RF base=rscale(mu,imag?GQ(0,mpq_class(1,q)):GQ(mpq_class(1,q))); 
      // canonical sign: use the conjugate relation for purely imaginary exponents is not needed; negative powers invert
      long pe=p.get_si();
      if(imag){ r=rmul(r,rpow(rsym(imagExp(base,mu,q)),pe)); return; }
      r=rmul(r,rpow(expAtom(base),pe)); };
    part(x.second.re,false); part(x.second.im,true); }
  return r; }
RF fsin(const RF&w){ RF e=fexp(rscale(w,GQ(0,1))); return rscale(rsub(e,rinv(e)),GQ(0,mpq_class(-1,2))); }
RF fcos(const RF&w){ RF e=fexp(rscale(w,GQ(0,1))); return rscale(radd(e,rinv(e)),GQ(mpq_class(1,2))); }
RF ftan(const RF&w){ return rdiv(fsin(w),fcos(w)); }
RF fsinh(const RF&w){ RF e=fexp(w); return rscale(rsub(e,rinv(e)),GQ(mpq_class(1,2))); }
RF fcosh(const RF&w){ RF e=fexp(w); return rscale(radd(e,rinv(e)),GQ(mpq_class(1,2))); }
RF flog(const RF&w){ if(w.isconst()&&w.num.constval().one()) return RF(); return rsym(atom(S_LOG,"log",w,RF(),0,0)); }
static mpz_class sqfree(const mpz_class&n,mpz_class&root,int k){ root=1; mpz_class m=n; for(int p=2;p<1000;p++){ mpz_class pk; mpz_ui_pow_ui(pk.get_mpz_t(),p,k); while(m%pk==0&&m!=0){ m/=pk; root*=p; } } mpz_class r; if(mpz_root(r.get_mpz_t(),m.get_mpz_t(),k)){ root*=r; m=1; } return m; }
int (*signHook)(const Poly&)=nullptr;
static bool polySqrt(const Poly&p,Poly&r);
static int signOf(const Poly&p){ int s=signHook?signHook(p):0; if(s) return s; Poly r; if(p.t.size()>1&&p.t.size()<100){ if(polySqrt(p,r)) return 1; if(polySqrt(pneg(p),r)) return -1; } return 0; }
static bool realPoly(const Poly&p){ return isreal(ratio(p)); }
static RF absPoly(const Poly&d){ int s=signOf(d); if(s>0) return ratio(d); if(s<0) return ratio(pneg(d)); Poly q=pmul(d,d); RF w=ratio(q); int id=atom(S_ROOT,"root2",w,RF(),2,1); syms[id].nonneg=true; return rsym(id); }
// p = r*r exactly (long division from the leading term)
static bool polySqrt(const Poly&p,Poly&r){ r=Poly(); if(p.zero()||p.t.size()>400) return false; auto l=lead(p); if(!l->second.real()||sgn(l->second.re)<=0) return false; mpq_class c=l->second.re; if(!mpz_perfect_square_p(c.get_num_mpz_t())||!mpz_perfect_square_p(c.get_den_mpz_t())) return false; Mono m; for(auto&f:l->first){ if(f.second%2) return false; m.push_back({f.first,f.second/2}); }
  GQ lc(mpq_class(sqrt(c.get_num()),sqrt(c.get_den()))); Mono lm=m; r.add(m,lc); Poly first; first.add(m,lc); Poly rem=psub(p,pmul(first,first)); GQ ih=inv(GQ(lc.re*2)); for(int k=0;k<200&&!rem.zero();k++){ auto q=lead(rem); Mono qm; if(!mdiv(q->first,lm,qm)) return false; GQ qc=q->second*ih; Poly t; t.add(qm,qc); if(!lexless(qm,lm)) return false; // rem -= (2r+t)t
    rem=psub(rem,pmul(padd(pscale(r,GQ(2)),t),t)); r=padd(r,t); }
  return rem.zero()&&realPoly(r); }
// w = out^2 * p with p a polynomial and out real nonnegative; denominators and even powers are moved outside the root
static bool squarePart(const RF&w,Poly&p,RF&out){ out=rconst(1); p=w.num; std::map<int,int> den=w.den; 
  for(auto it=den.begin();it!=den.end();){ int e=it->second; if(e<=0){ ++it; continue; } const Poly d=dens[it->first]; 
    if(realPoly(d)){ if(e%2){ p=pmul(p,d); e++; } int k=e/2; RF a= k%2? absPoly(d):ratio(d); if(k%2==0) out=rmul(out,rpow(rinv(ratio(d)),k)); else { out=rmul(out,rpow(rinv(ratio(d)),k-1)); out=rmul(out,rinv(a)); } it->second=0; }
    else { RF c=rconj(ratio(d)); if(!c.den.empty()) return false; GQ lc=lead(c.num)->second; Poly cn=pscale(c.num,inv(lc)); auto jt=denIx.find(cn); if(jt==denIx.end()) return false; auto kt=den.find(jt->second); if(kt==den.end()||kt->second!=e) return false; // d^e conj(d)^e
      Poly dd=pmul(d,c.num); if(!(lc==GQ(1))) p=pscale(p,lc); for(int q=0;q<e%2;q++) p=pmul(p,dd); out=rmul(out,rpow(rinv(ratio(dd)),(e+1)/2)); if(!(lc==GQ(1))) { return false; } it->second=0; kt->second=0; }
    ++it; }
  if(p.zero()) return false; RF red=reduceNum(p); if(!red.den.empty()) return false; p=red.num; if(p.zero()) return false;
  // even powers of single symbols
  Mono g=p.t.begin()->first; for(auto&x:p.t){ Mono h; size_t i=0,j=0; while(i<g.size()&&j<x.first.size()){ if(g[i].first<x.first[j].first)i++; else if(g[i].first>x.first[j].first)j++; else {h.push_back({g[i].first,std::min(g[i].second,x.first[j].second)});i++;j++;} } g=h; if(g.empty())break; }
  Mono take; for(auto&f:g) if(syms[f.first].conj==f.first&&syms[f.first].k==S_REAL&&f.second>=2) take.push_back({f.first,f.second/2*2}); 
  if(!take.empty()){ Poly q; for(auto&x:p.t){Mono m; mdiv(x.first,take,m); q.t.emplace(m,x.second);} p=q; for(auto&f:take){ int k=f.second/2; if(k%2){ out=rmul(out,absPoly(psym(f.first))); k--; } if(k) out=rmul(out,rsym(f.first,k)); } }
  GQ lc=lead(p)->second; if(lc.real()&&sgn(lc.re)!=0){ mpq_class c=abs(lc.re); if(c!=1){ out=rmul(out,froot(rconst(GQ(c)),2,true)); p=pscale(p,GQ(mpq_class(1/c))); } }
  return true; }
RF froot(const RF&w,int n,bool rp){ if(w.zero()) return RF(); if(n==1) return w;
  if(w.isconst()&&w.num.constval().real()&&sgn(w.num.constval().re)>0){ mpq_class c=w.num.constval().re; mpz_class d=c.get_den(), a=c.get_num(); mpz_class dn=1; for(int k=0;k<n-1;k++) dn*=d; mpz_class root; mpz_class m=sqfree(a*dn,root,n); RF f=rconst(GQ(mpq_class(root,d))); { mpq_class t(root,d); t.canonicalize(); f=rconst(GQ(t)); } if(m==1) return f; RF wm=rconst(GQ(mpq_class(m))); int id=atom(S_ROOT,"root"+std::to_string(n),wm,RF(),n,1); syms[id].nonneg=true; return rmul(f,rsym(id)); }
  if(w.isconst()&&n==2&&w.num.constval().real()) { return rscale(froot(rneg(w),2,true),GQ(0,1)); }
  if(rp){ // real nonnegative radicand: pull out even powers of |z| and constants
    RF v=w; RF out=rconst(1);
    if(v.num.t.size()>=1&&n==2){ // common positive rational content
      GQ lc=lead(v.num)->second; if(lc.real()&&sgn(lc.re)!=0){ mpq_class c=abs(lc.re); if(c!=1){ out=rmul(out,froot(rconst(GQ(c)),2,true)); v=rscale(v,GQ(mpq_class(1/c))); } } }
    if(n==2&&!v.isconst()){ RF o2; Poly p; if(squarePart(v,p,o2)){ out=rmul(out,o2); v=ratio(p); if(v.isconst()) return rmul(out,froot(v,2,true)); 
        Poly r; if(polySqrt(p,r)){ int s=signOf(r); if(s) return rmul(out,ratio(s>0?r:pneg(r))); } } }
    int id=atom(S_ROOT,"root"+std::to_string(n),v,RF(),n,1); syms[id].nonneg=true; return rmul(out,rsym(id)); }
  int id=atom(S_ROOT,"croot"+std::to_string(n),w,RF(),n,0); return rsym(id); }
RF fpow(const RF&w,const RF&e){ if(e.isconst()&&e.num.constval().real()){ mpq_class c=e.num.constval().re; if(c.get_den()==1&&c.get_num().fits_slong_p()&&abs(c.get_num())<200) return rpow(w,c.get_num().get_si()); if(c.get_den().fits_sint_p()&&c.get_den()<64&&abs(c.get_num())<200){ return rpow(froot(w,c.get_den().get_si(),false),c.get_num().get_si()); } }
  // split integer constant term from e
  RF e2=e; long k=0; if(e.den.empty()){ auto it=e.num.t.find(Mono()); if(it!=e.num.t.end()&&it->second.real()&&it->second.re.get_den()==1&&abs(it->second.re.get_num())<100){ k=it->second.re.get_num().get_si(); e2.num.t.erase(Mono()); } }
  return rmul(rpow(w,k),rsym(atom(S_POW,"pow",w,e2,0,0))); }
RF ffun(const std::string&fn,const RF&w,bool realres){ return rsym(atom(S_FUN,fn,w,RF(),0,realres?1:0)); }
RF fun2(const std::string&fn,const RF&a,const RF&b,bool real){ return rsym(atom(S_FUN,fn,a,b,0,real?1:0)); }
void collect(const RF&r,std::map<int,bool>&out){ std::vector<int> todo; auto pl=[&](const Poly&p){ for(auto&x:p.t) for(auto&f:x.first) if(!out.count(f.first)){out[f.first]=true;todo.push_back(f.first);} }; auto rf=[&](const RF&q){ pl(q.num); for(auto&d:q.den) pl(dens[d.first]); }; rf(r); while(!todo.empty()){ int s=todo.back();todo.pop_back(); Sym y=syms[s]; rf(y.arg); rf(y.arg2); if(y.conj>=0&&!out.count(y.conj)){out[y.conj]=true;todo.push_back(y.conj);} } }
// ---------- numeric evaluation
static const cld II(0,1);
cld Eval::poly(const Poly&p){ cld r=0; for(auto&x:p.t){ cld m(0,0); auto q2ld=[](const mpq_class&q){ long e1,e2; double a=mpz_get_d_2exp(&e1,q.get_num_mpz_t()),b=mpz_get_d_2exp(&e2,q.get_den_mpz_t()); if(a==0) return 0.0L; 
      // more digits
      mpf_class f(q,128); double hi=f.get_d(); mpf_class lo=f-hi; (void)a;(void)b; return (long double)hi+(long double)lo.get_d(); };
    m=cld(q2ld(x.second.re),q2ld(x.second.im)); for(auto&f:x.first){ cld v=sym(f.first); int e=f.second; for(int k=0;k<e;k++) m*=v; } r+=m; } return r; }
cld Eval::rf(const RF&r){ cld n=poly(r.num); for(auto&d:r.den){ cld v=poly(dens[d.first]); for(int k=0;k<d.second;k++) n/=v; } return n; }
cld Eval::sym(int s){ auto it=cache.find(s); if(it!=cache.end()) return it->second; Sym y=syms[s]; cld v;
  switch(y.k){ case S_REAL: case S_CVAR: v=var(s);break; case S_CCONJ: v=std::conj(sym(y.conj));break;
   case S_EXP: v=std::exp(rf(y.arg));break; case S_LOG: v=std::log(rf(y.arg)); break; case S_PI: v=acosl(-1.0L);break;
   case S_ZETA: v=std::exp(II*(2*acosl(-1.0L)/y.n));break;
   case S_ROOT: if(y.n==1) v=rf(y.arg); else { cld a=rf(y.arg); v=std::pow(a,cld(1.0L/y.n)); if(a==cld(0)) v=0; } break;
   case S_POW: v=std::pow(rf(y.arg),rf(y.arg2));break;
   case S_FUN: { cld a=rf(y.arg); const std::string&f=y.fn; if(f=="asin") v=std::asin(a); else if(f=="acos") v=std::acos(a); else if(f=="atan") v=std::atan(a); else if(f=="asinh") v=std::asinh(a); else if(f=="acosh") v=std::acosh(a); else if(f=="atanh") v=std::atanh(a);
       else if(f=="rlog") v=logl(a.real()); else if(f=="rasin") v=asinl(a.real()); else if(f=="racos") v=acosl(a.real()); else if(f=="ratan") v=atanl(a.real()); else if(f=="atan2") v=atan2l(a.real(),rf(y.arg2).real()); else if(f=="rpow") v=powl(a.real(),rf(y.arg2).real()); else v=NAN; break; } }
  cache[s]=v; return v; }
}
