// Newton corrector: the returned point is a Newton iterate of the written system, and the status says truly why it stopped.
#include "lu_stub.hpp"
#include "sysgen.hpp"
#include <bertini2/trackers/newton_corrector.hpp>
using namespace gen; using namespace bertini::tracking; using bertini::tracking::correct::NewtonCorrector;
struct Hom{ const char*nm; std::vector<EP> f; std::vector<double> lo,hi; std::vector<std::pair<long,long>> im; std::pair<long,long> t; };
// variables 0..n-1, time n ; upper triangular in the variables so that a reference Newton step is a back substitution
static std::vector<Hom> homs(){ std::vector<Hom> r; { EP x=V(0),t=V(1); r.push_back({"square root",{powi(x,2)-t-I(1)},{0.5},{3},{{0,1}},{1,1}}); r.push_back({"reciprocal",{x*t-I(1)},{0.25},{2},{{1,3}},{2,1}}); r.push_back({"cube",{powi(x,3)+x*t-I(2)},{0.5},{2},{{0,1}},{1,2}}); }
  { EP x=V(0),y=V(1),t=V(2); r.push_back({"triangular",{I(4)*x+powi(y,2)*t-I(1),powi(y,2)-t*t-I(1)},{0,1},{2,2},{{0,1},{0,1}},{1,2}}); r.push_back({"linear",{I(3)*x+y*t-I(1),I(2)*y-t},{-1,-1},{1,1},{{1,2},{-1,4}},{1,4}}); }
  return r; }
inline dbl tod(const dbl&a){ return a; } inline dbl tod(const mpc&z){ mpf a(z.real()),b(z.imag()); return dbl(sr::D(a),sr::D(b)); }
inline void acc(const dbl&,unsigned){} inline void acc(const mpc&z,unsigned p){ sr::accurate(z,p,"accuracy"); }
template<class T> T pt(const std::string&n,double lo,double hi,std::pair<long,long> im); 
template<> dbl pt<dbl>(const std::string&n,double lo,double hi,std::pair<long,long> im){ return dbl(sr::real(n,lo,hi),double(im.first)/double(im.second)); }
template<> mpc pt<mpc>(const std::string&n,double lo,double hi,std::pair<long,long> im){ mpf b(im.first); b/=im.second; return mpc(sr::real_mp(n,lo,hi),b); }
inline double modulus(const dbl&z){ return std::abs(z); } inline double modulus(const mpc&z){ mpf a(abs(z)); return sr::D(a); }
template<class T> System make(const Hom&hm,Ctx&cx,EvalMethod em){ System s; s.SetEvalMethod(em); VariableGroup g; int n=hm.f.size(); for(int i=0;i<n;i++){ cx.v.push_back(Variable::Make("u"+std::to_string(i))); g.push_back(cx.v.back()); } cx.v.push_back(Variable::Make("t")); s.AddVariableGroup(g); s.AddPathVariable(cx.v.back()); for(auto&e:hm.f) s.AddFunction(node_of(e,cx)); return s; }
template<class T> void run(const Hom&hm,const Hom&other,int variant,int mn,int mx,int hist){
  bool mp=std::is_same<T,mpc>::value; int n=hm.f.size(); sr::scenario(std::string(hm.nm)+(mp?" multiple":" double")+" variant "+std::to_string(variant)+" min "+std::to_string(mn)+" max "+std::to_string(mx)+" history "+std::to_string(hist));
  DefaultPrecision(hist==2?20:30); Ctx cx,cx2; EvalMethod em= hist==1?EvalMethod::FunctionTree:EvalMethod::SLP; System s=make<T>(hm,cx,em),s2=make<T>(other,cx2,em);
  NewtonCorrector N(hist==3?s2:s); if(hist==3) N.ChangeSystem(s); if(hist==2){ DefaultPrecision(30); s.precision(30); N.ChangePrecision(30); sr::check(N.precision()==30,"precision",hm.nm); }
  unsigned digits= mp?30:16; std::vector<T> z; Vec<T> x(n); for(int i=0;i<n;i++){ z.push_back(pt<T>("x"+std::to_string(i),hm.lo[i],hm.hi[i],hm.im[i])); x(i)=z[i]; } T t=lit<T>(hm.t.first,hm.t.second);
  double tol=sr::real("tol",0.0,1.0); sr::assume(tol,sr::GT,0.0);
  AdaptiveMultiplePrecisionConfig amp; if(variant>0){ amp.epsilon=4; amp.Phi=3; amp.Psi=5; amp.safety_digits_1=1; amp.safety_digits_2=2; }
  if(hist==4){ // an earlier correction elsewhere
    Vec<T> y(n),o; for(int i=0;i<n;i++) y(i)=lit<T>(3,2); N.Correct(o,s,y,lit<T>(1,8),NumErrorT(0.5),1,1); }
  Vec<T> out; NumErrorT nd=-1,nj=-1,nji=-1,cn=-1; SuccessCode c;
  if(variant==0) c=N.Correct(out,s,x,t,tol,mn,mx); else if(variant==1) c=N.Correct(out,s,x,t,tol,mn,mx,amp); else c=N.Correct(out,nd,nj,nji,cn,s,x,t,tol,mn,mx,amp);
  // reference iteration
  SuccessCode want=SuccessCode::FailedToConverge; double size=0,normJ=0,normJi=0;
  for(int k=1;k<=mx;k++){ std::vector<T> p=z; p.push_back(t); std::vector<T> d(n); double j2=0; std::vector<Dual<T>> D; for(auto&e:hm.f) D.push_back(eval<T>(e,p));
    for(int i=n-1;i>=0;i--){ T r=T(lit<T>(0)-D[i].v); for(int j=i+1;j<n;j++) r=T(r-T(dget(D[i],j)*d[j])); d[i]=T(r/dget(D[i],i)); }
    for(int i=0;i<n;i++) z[i]=T(z[i]+d[i]); size=modulus(d[0]); for(int i=1;i<n;i++){ double m=modulus(d[i]); if(m>size) size=m; }
    for(int i=0;i<n;i++) for(int j=0;j<n;j++){ dbl g=tod(dget(D[i],j)); j2+=(g*std::conj(g)).real(); } normJ=std::sqrt(j2); normJi=1.0/normJ;
    if(size<tol&&k>=mn){ want=SuccessCode::Success; break; }
    if(variant>0){ double b=1+std::log10(normJi*((2+4.0)*normJ+4.0*3.0)+1)+(-std::log10(tol)+std::log10(size))/(mx-k+1); if(!(digits>b)){ want=SuccessCode::HigherPrecisionNecessary; break; }
      double zn=0; for(int i=0;i<n;i++){ dbl g=tod(z[i]); zn+=(g*std::conj(g)).real(); } double cc=2-std::log10(tol)+std::log10(normJi*5.0+std::sqrt(zn)); if(!(digits>cc)){ want=SuccessCode::HigherPrecisionNecessary; break; } } }
  sr::check(c==want,"status","got "+std::to_string(int(c))+" expected "+std::to_string(int(want)));
  sr::check(out.size()==n,"size",hm.nm); if(out.size()!=n) return;
  for(int i=0;i<n;i++){ T o(out(i)); sr::eq(o,z[i],"iterate"); acc(o,digits); }
  if(variant==2){ sr::eq(nd,size,"last-step-size"); sr::eq(nj*nj,normJ*normJ,"norm-J"); if(n==1) sr::eq(nji*nji*normJ*normJ,1.0,"norm-J-inverse"); sr::eq(cn*cn,nj*nj*(nji*nji),"condition"); }
}
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED; auto H=homs();
  int ty=sr::choose("type",2),hi=sr::choose("system",H.size()+1);
  if(hi==(int)H.size()){ sr::scenario("singular"); Hom sq{"sq",{powi(V(0),2)-V(1)},{},{},{},{}}; Hom two{"two",{V(0)+V(1),V(0)+V(1)-V(2)},{},{},{},{}};
    for(auto*h:{&sq,&two}){ int n=h->f.size(); auto go=[&](auto*q){ typedef typename std::remove_pointer<decltype(q)>::type T; Ctx cx; System s=make<T>(*h,cx,EvalMethod::SLP); NewtonCorrector N(s); Vec<T> x(n),o; for(int i=0;i<n;i++) x(i)=lit<T>(0); AdaptiveMultiplePrecisionConfig amp; NumErrorT a,b,c,d; 
        sr::check(N.Correct(o,s,x,lit<T>(1),NumErrorT(0.5),1,2)==SuccessCode::MatrixSolveFailure,"singular",h->nm); sr::check(N.Correct(o,s,x,lit<T>(1),NumErrorT(0.5),1,2,amp)==SuccessCode::MatrixSolveFailure,"singular",h->nm); sr::check(N.Correct(o,a,b,c,d,s,x,lit<T>(1),NumErrorT(0.5),1,2,amp)==SuccessCode::MatrixSolveFailure,"singular",h->nm); };
      if(ty) go((mpc*)0); else go((dbl*)0); } return; }
  int variant=sr::choose("variant",3); const Hom&hm=H[hi]; if(variant>0&&hm.f.size()>1) sr::prune();
  int mm=sr::choose("iterations",6); static const int MN[]={1,1,1,2,2,3},MX[]={1,2,3,2,3,3}; 
  int hist=sr::choose("history",5);
#ifndef SR_THOROUGH
  if(hist>0&&mm!=(hist%2?1:3)) sr::prune();
#endif
  if(ty) run<mpc>(hm,H[hm.f.size()==1?3:0],variant,MN[mm],MX[mm],hist); else run<dbl>(hm,H[hm.f.size()==1?3:0],variant,MN[mm],MX[mm],hist);
}
