// ODE predictors: the predicted point satisfies the homotopy to the advertised order in the step, the error estimate
// is of the advertised order, and the norms returned are those of the Jacobian at the start of the step.
#include "lu_stub.hpp"
#include "sysgen.hpp"
#include <bertini2/trackers/explicit_predictors.hpp>
using namespace gen; using namespace bertini::tracking; using bertini::tracking::predict::ExplicitRKPredictor;
struct M{ Predictor p; int order; bool emb; int adv; const char*nm; };
static const M ms[]={ {Predictor::Constant,0,false,1,"constant"},{Predictor::Euler,1,false,2,"euler"},{Predictor::HeunEuler,1,true,3,"heun-euler"},{Predictor::RK4,4,false,5,"rk4"},{Predictor::RKF45,4,true,6,"rkf45"},{Predictor::RKCashKarp45,4,true,6,"cash-karp"},{Predictor::RKDormandPrince56,5,true,6,"dormand-prince"},{Predictor::RKVerner67,6,true,8,"verner"} };
template<class T> struct RealOf{ typedef double type; }; template<> struct RealOf<mpc>{ typedef mpf type; };
struct Hom{ std::vector<EP> f; std::vector<std::pair<long,long>> x0; std::pair<long,long> t0; const char*nm; int n; bool sym; };
// variables 0..n-1, time n
static std::vector<Hom> homs(){ std::vector<Hom> r; auto q=[&](int n,std::vector<EP> f,std::vector<std::pair<long,long>> x0,std::pair<long,long> t0,const char*nm,bool sym){ r.push_back({f,x0,t0,nm,n,sym}); };
  { EP x=V(0),t=V(1); q(1,{x-powi(t,8)-I(3)*powi(t,7)+powi(t,5)-t},{{1,1}},{1,2},"quadrature",true); }
  { EP z=V(0),y=V(1),x=V(2),t=V(3); q(3,{z-x*y*t-powi(y,2),y-powi(x,2)*t-x,x-powi(t,3)-t},{{1,1},{2,1},{-1,1}},{1,1},"triangular",true); }
  { EP a=V(0),b=V(1),c=V(2),d=V(3),t=V(4); q(4,{a-b*t-b*c,b-c*t,c-d*t-d,d-powi(t,2)},{{1,1},{2,1},{-1,1},{1,1}},{0,1},"chain",true); }
  { EP x=V(0),t=V(1); q(1,{powi(x,2)-t-I(1)},{{1,1}},{0,1},"square root",false); }
  { EP x=V(0),t=V(1); q(1,{x*t-I(1)},{{1,2}},{2,1},"reciprocal",false); }
  { EP x=V(0),y=V(1),t=V(2); q(2,{I(4)*x+y*t-x*x,I(3)*y-x*t*t+x*y},{{1,1},{1,2}},{1,1},"coupled",false); }
  return r; }
template<class T> System make(const Hom&hm,Ctx&cx,EvalMethod em){ System s; s.SetEvalMethod(em); VariableGroup g; for(int i=0;i<hm.n;i++){ cx.v.push_back(Variable::Make("u"+std::to_string(i))); g.push_back(cx.v.back()); } cx.v.push_back(Variable::Make("t")); s.AddVariableGroup(g); s.AddPathVariable(cx.v.back()); for(auto&e:hm.f) s.AddFunction(node_of(e,cx)); return s; }
inline dbl tod(const dbl&a){ return a; }
inline dbl tod(const mpc&z){ mpf a(z.real()),b(z.imag()); return dbl(sr::D(a),sr::D(b)); }
inline double sr_powi(double h,int k){ double r=1.0; for(int i=0;i<k;i++) r=r*h; return r; }
inline void acc(const dbl&,unsigned){} inline void acc(const mpc&z,unsigned p){ sr::accurate(z,p,"accuracy"); }
template<class T> T cst(long p,long q){ return lit<T>(p,q); }
template<class T> T fromd(double h,const mpf*,long ur,long ui,long d);
template<> dbl fromd<dbl>(double h,const mpf*,long ur,long ui,long d){ return dbl(h*double(ur)/double(d),h*double(ui)/double(d)); }
template<> mpc fromd<mpc>(double h,const mpf*hm,long ur,long ui,long d){ mpf a(0); if(sr::native) a=mpf(h); else a=*hm; mpf x=a*ur/d,y=a*ui/d; return mpc(x,y); }
// est2: square of the error estimate at step h
template<class T> void run(const M&m,const Hom&hm,int hist){
  EvalMethod em= hist==1? EvalMethod::FunctionTree:EvalMethod::SLP; Ctx cx; System s=make<T>(hm,cx,em); bool mp=std::is_same<T,mpc>::value;
  std::string nm=std::string(m.nm)+"-"+hm.nm; sr::scenario(nm+(mp?" multiple":" double"));
  unsigned prec=30; DefaultPrecision(30); if(hist==2&&mp) DefaultPrecision(20);
  // how the predictor object was reached: fresh; method changed; precision changed; system changed
  Ctx cx2; Hom other=homs()[hm.n==1?1:0]; System s2=make<T>(other,cx2,em);
  ExplicitRKPredictor P(hist==1? (m.p==Predictor::RKF45?Predictor::RKVerner67:Predictor::RKF45) : m.p, hist==3? s2 : s); if(hist==1) P.PredictorMethod(m.p); if(hist==3) P.ChangeSystem(s);
  if(hist==2&&mp){ DefaultPrecision(30); s.precision(30); P.ChangePrecision(30); sr::check(P.precision()==30,"precision",nm); }
  sr::check(P.Order()==(unsigned)m.order,"order",nm); sr::check(P.HasErrorEstimate()==m.emb,"has-estimate",nm); sr::check(P.PredictorMethod()==m.p,"method",nm);
  int n=hm.n; Vec<T> x(n); std::vector<T> x0; for(int i=0;i<n;i++){ T v= hm.sym? sym<T>("x"+std::to_string(i)) : cst<T>(hm.x0[i].first,hm.x0[i].second); x0.push_back(v); x(i)=v; } T t0=cst<T>(hm.t0.first,hm.t0.second); if(hm.sym&&m.adv<=3) t0=sym<T>("t");
  long ur=1,ui=0,ud=1; if(hist==1||hist==3){ ur=3;ui=-4;ud=5; }
  std::vector<T> p0=x0; p0.push_back(t0); std::vector<T> f0; for(auto&e:hm.f) f0.push_back(eval<T>(e,p0).v);
  NumErrorT cond=0,tol=1e-5; unsigned cnt=1; AdaptiveMultiplePrecisionConfig amp; amp.epsilon=0; amp.Phi=0; amp.Psi=0; 
  mpf hmp=sr::real_mp("h",0.0,0.01); double hd=sr::real("h",0.0,0.01); sr::assume(hd,sr::GT,0.0);
  auto dt=[&](double h){ return fromd<T>(h,&hmp,ur,ui,ud); };
  for(int i=0;i<n;i++){ int ii=i; sr::vanishes([&](double h){ Vec<T> out; SuccessCode c=P.Predict<T>(out,s,x,t0,dt(h),cond,cnt,1,tol); sr::check(c==SuccessCode::Success,"predict-succeeds",nm); if(c!=SuccessCode::Success||out.size()!=n) return dbl(1.0,0.0); std::vector<T> p; for(int j=0;j<n;j++){ p.push_back(T(out(j))); acc(p.back(),prec); } p.push_back(T(t0+dt(h))); return tod(T(eval<T>(hm.f[ii],p).v-f0[ii])); },"h",m.adv,"order-of-accuracy"); }
  // norms of the Jacobian at the start, condition number
  auto jac=[&](double nj,double nji,double cn){ dbl want(0.0,0.0); for(auto&e:hm.f){ auto D=eval<T>(e,p0); for(int j=0;j<n;j++){ dbl g=tod(dget(D,j)); want+=g*std::conj(g); } } sr::eq(nj*nj,want.real(),"norm-J"); if(n==1) sr::eq(nji*nji*want.real(),1.0,"norm-J-inverse"); sr::eq(cn*cn,nj*nj*(nji*nji),"condition"); };
  NumErrorT huge=HUGE_VAL;
  if(m.emb){ NumErrorT est=0,sp=0,nj=0,nji=0,cn=0;
    sr::vanishes([&](double h){ Vec<T> out; unsigned c2=1; SuccessCode c=P.Predict<T>(out,est,sp,nj,nji,s,x,t0,dt(h),cn,c2,1,huge,amp); sr::check(c==SuccessCode::Success,"predict-succeeds",nm); sr::eq(sp*sp*sr_powi(h,2*(m.order+1)),est*est,"size-proportion"); Vec<T> o2; P.Predict<T>(o2,s,x,t0,dt(h),cond,cnt,1,tol); for(int j=0;j<n;j++) sr::eq(tod(T(out(j))),tod(T(o2(j))),"same-prediction"); return dbl(est*est,0.0); },"h",2*(m.order+1),"estimate-order");
    jac(nj,nji,cn); if(hm.sym||hm.n==1) sr::exists_nonzero(dbl(est*est,0.0),"estimate-nonzero"); }
  else if(n==1&&(!mp||!hm.sym)){ NumErrorT sp=0,nj=0,nji=0,cn=0; Vec<T> out; unsigned c2=1; SuccessCode c=P.Predict<T>(out,sp,nj,nji,s,x,t0,dt(hd),cn,c2,1,huge,amp); sr::check(c==SuccessCode::Success,"predict-succeeds",nm); jac(nj,nji,cn);
    if(n==1&&m.adv<=2){ auto D=eval<T>(hm.f[0],p0); dbl k=tod(T(dget(D,1)/dget(D,0))); double k2=(k*std::conj(k)).real(); sr::eq(sp*sp*sr_powi(hd,2*m.order),k2,"size-proportion"); }
    bool threw=false; try{ NumErrorT e=0; P.Predict<T>(out,e,sp,nj,nji,s,x,t0,dt(hd),cn,c2,1,huge,amp); }catch(std::runtime_error&){ threw=true; } sr::check(threw,"no-estimate-throws",nm); }
}
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED; auto H=homs();
  int mi=sr::choose("method",9); if(mi==8){ for(Predictor p:{Predictor::Heun,Predictor::RKNorsett34}){ Ctx cx; System s=make<dbl>(H[0],cx,EvalMethod::SLP); bool threw=false; try{ ExplicitRKPredictor P(p,s); }catch(std::runtime_error&){ threw=true; } sr::check(threw,"unsupported-throws",""); }
    for(auto&m:ms){ Hom sq{{powi(V(0),2)-V(1)},{},{},"",1,false}; Ctx cx; System s=make<dbl>(sq,cx,EvalMethod::SLP); ExplicitRKPredictor P(m.p,s); NumErrorT c=0; unsigned k=1; Vec<dbl> o,x(1); x(0)=dbl(0.0,0.0); sr::scenario(std::string("singular ")+m.nm);
      sr::check(P.Predict<dbl>(o,s,x,dbl(0.0,0.0),dbl(0.125,0.0),c,k,1,1e-5)==SuccessCode::MatrixSolveFailureFirstPartOfPrediction,"singular-start",""); x(0)=dbl(1.0,0.0); 
      if(m.p==Predictor::HeunEuler||m.p==Predictor::RK4){ sr::check(P.Predict<dbl>(o,s,x,dbl(1.0,0.0),dbl(m.p==Predictor::RK4?-4.0:-2.0,0.0),c,k,1,1e-5)==SuccessCode::MatrixSolveFailure,"singular-stage",""); }
      DefaultPrecision(30); Ctx cy; System s3=make<mpc>(sq,cy,EvalMethod::SLP); ExplicitRKPredictor Q(m.p,s3); Vec<mpc> om,xm(1); xm(0)=lit<mpc>(0); sr::check(Q.Predict<mpc>(om,s3,xm,lit<mpc>(0),lit<mpc>(1,8),c,k,1,1e-5)==SuccessCode::MatrixSolveFailureFirstPartOfPrediction,"singular-start",""); } return; }
  int hi=sr::choose("homotopy",H.size()); const M&m=ms[mi]; const Hom&hm=H[hi]; if(!hm.sym&&m.adv>(hm.n==1?5:3)) sr::prune(); int ty=sr::choose("type",2),hist=sr::choose("history",4); if(!hm.sym&&m.adv>3&&hist%2) sr::prune();
  if(ty) run<mpc>(m,hm,hist); else run<dbl>(m,hm,hist);
}
