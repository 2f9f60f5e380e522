// Adaptive precision: the digits the error bounds ask for, and the precision and step size chosen from them.
#include "sysgen.hpp"
#include <bertini2/trackers/amp_tracker.hpp>
using namespace gen; using namespace bertini::tracking;
static double l10(double a){ return std::log10(a); }
static mpf ten(const mpf&e){ return mpf(pow(mpf(10),e)); }
// the three criteria, as inequalities between powers of ten and products of norms
void criteria(){ AdaptiveMultiplePrecisionConfig c; double J=sr::real("normJ",1e-3,1e6),Ji=sr::real("normJinv",1e-3,1e30),tol=sr::real("tol",1e-12,0.5),res=sr::real("residual",1e-15,1e3),z=sr::real("normz",1e-4,1e6);
  c.epsilon=sr::real("epsilon",1,100); c.Phi=sr::real("Phi",0,1e9); c.Psi=sr::real("Psi",0,1e9); int which=sr::choose("criterion",3); int s=sr::choose("safety",3); int d=sr::choose("digits",3); unsigned p= d==0?16: d==1?20:50; int N=1; if(which==1) N=1+sr::choose("iterations",3);
  c.safety_digits_1=s; c.safety_digits_2=s; if(which<2) c.safety_digits_2=5; else c.safety_digits_1=7; if(d) DefaultPrecision(p);
  sr::scenario("criterion "+std::to_string(which)+" safety "+std::to_string(s)+" digits "+std::to_string(p)+" N "+std::to_string(N));
  if(which==0){ double r=amp::CriterionARHS(J,Ji,c); sr::eq(r,s+l10(Ji*c.epsilon*(J+c.Phi)),"A-digits"); bool ok= d? amp::CriterionA<mpc>(J,Ji,c):amp::CriterionA<dbl>(J,Ji,c); double want=std::pow(10.0,int(p)-s); sr::rel(Ji*c.epsilon*(J+c.Phi),ok?sr::LE:sr::GE,want,"A-decision"); }
  else if(which==1){ double D=Ji*((2+c.epsilon)*J+c.epsilon*c.Phi)+1; sr::eq(amp::D(J,Ji,c),l10(D),"D"); double r=amp::CriterionBRHS(J,Ji,N,tol,res,c); sr::eq(r,s+l10(D)+(l10(res)-l10(tol))/N,"B-digits"); bool ok= d? amp::CriterionB<mpc>(J,Ji,N,tol,res,c):amp::CriterionB<dbl>(J,Ji,N,tol,res,c); double P=1; for(int i=0;i<N;i++) P*=D; sr::rel(P*res,ok?sr::LE:sr::GE,std::pow(10.0,(int(p)-s)*N)*tol,"B-decision"); }
  else { double r=amp::CriterionCRHS(Ji,z,tol,c); sr::eq(r,s-l10(tol)+l10(Ji*c.Psi+z),"C-digits"); bool ok; double zz=z; if(d){ Vec<mpc> v(2); v(0)=mpc(sr::real_mp("z0",0.001,1e6),mpf(0)); v(1)=mpc(mpf(0),sr::real_mp("z1",0.001,1e6)); ok=amp::CriterionC<mpc>(Ji,v,tol,c); mpf a=v(0).real(),b=v(1).imag(); zz=sr::D(mpf(sqrt(mpf(a*a+b*b)))); } else { Vec<dbl> v(2); double a=sr::real("z0",0.001,1e6),b=sr::real("z1",0.001,1e6); v(0)=dbl(a,0); v(1)=dbl(0,b); ok=amp::CriterionC<dbl>(Ji,v,tol,c); zz=std::sqrt(a*a+b*b); } sr::rel(Ji*c.Psi+zz,ok?sr::LE:sr::GE,std::pow(10.0,int(p)-s)*tol,"C-decision"); }
}
// the bounds taken from a system
void config(){ Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y"),Variable::Make("t")}; int k=sr::choose("system",5); EP x=V(0),y=V(1),t=V(2); std::vector<EP> f; int n=2,deg=1; bool path=k!=3; if(k==0){ f={x-t}; n=1; deg=1; } if(k==1){ f={powi(x,2)-t*I(3)}; n=1; deg=2; } if(k==2){ f={powi(x,2)*y-t,powi(y,2)-x*Q(1,2)}; deg=3; } if(k==3){ f={powi(x,4)-powi(y,3)*x*I(7),y-I(2)}; deg=4; } if(k==4){ f={x*powi(t,5)-I(1),y*x-t}; deg=2; }
  sr::scenario("bounds of system "+std::to_string(k)); System s; VariableGroup g; for(int i=0;i<n;i++) g.push_back(cx.v[i]); s.AddVariableGroup(g); if(path) s.AddPathVariable(cx.v[2]); for(auto&e:f) s.AddFunction(node_of(e,cx)); auto c=AMPConfigFrom(s); double B=c.coefficient_bound; sr::check(c.degree_bound==deg,"degree-bound",""); sr::check(c.epsilon==n*n,"linear-solve-bound",""); sr::check(std::fabs(c.Phi-deg*(deg-1)*B)<=1e-9*(1+B),"jacobian-error-bound",""); sr::check(std::fabs(c.Psi-deg*B)<=1e-9*(1+B),"function-error-bound",""); sr::check(B>0,"coefficient-bound","");
  AdaptiveMultiplePrecisionConfig d; d.degree_bound=sr::real("degree",1,20); d.coefficient_bound=sr::real("coefficient",0,1e6); d.SetPhiPsiFromBounds(); sr::eq(d.Phi,d.degree_bound*(d.degree_bound-1)*d.coefficient_bound,"Phi"); sr::eq(d.Psi,d.degree_bound*d.coefficient_bound,"Psi"); }
// smallest steps, digits for a step, cost
void limits(){ static const unsigned P[]={16,20,30,50}; unsigned p=P[sr::choose("precision",4)]; int sd=sr::choose("safety",3); sr::scenario("limits at "+std::to_string(p)); DefaultPrecision(p<20?20:p); mpf go=sr::real_mp("to-go",1e-3,10); mpf m= sd==1? MinStepSizeForPrecision(p,go) : MinTimeForCurrentPrecision(p,go,sd*2); mpf w=mpf(ten(mpf((sd==1?3:sd*2)-int(p)))*go); sr::eq(m,w,"smallest-step");
  sr::check(ArithmeticCost(p)==(p==16?1.0:10.35+0.13*p),"cost",""); 
  mpf st=sr::real_mp("step",1e-8,1); mpf lg=mpf(-log10(st)); unsigned q=MinDigitsForLogOfStepsize(lg,go); // ceil(-log10 step)+ceil(log10 to-go)+3, at least 0
  // q digits can hold the time left and the step: 10^(q-3) step >= to-go, up to the two roundings
  int k=int(q)-3; mpf lo=mpf(ten(mpf(k-2))*st),hi=mpf(ten(mpf(k))*st); sr::rel(sr::D(lo),sr::LT,sr::D(go),"digits-for-step-not-excessive"); sr::rel(sr::D(hi),sr::GE,sr::D(go),"digits-for-step-sufficient");
  mpf s2=sr::real_mp("step2",1e-8,1); unsigned a=MinDigitsForStepsizeInterval(st,s2,go); mpf sm= st<s2?st:s2; mpf hi2=mpf(ten(mpf(int(a)-3))*sm); sr::rel(sr::D(hi2),sr::GE,sr::D(go),"digits-for-interval-sufficient"); }
// the choice of precision and step size: cheapest admissible pair
void chooser(){ static const unsigned MN[]={16,17,20,21,27,30,39,5},MX[]={16,20,30,37,60}; unsigned mn=MN[sr::choose("min",8)],mx=MX[sr::choose("max",5)]; if(mn>mx) sr::prune(); static const unsigned DB[]={0,16,19,25,33}; unsigned db=DB[sr::choose("digits-B",5)]; int N=1+sr::choose("iterations",3),order=sr::choose("order",3)*2;
#ifndef SR_THOROUGH
  if(N==3||(order==4&&N!=2)) sr::prune();
#endif
  sr::scenario("choice min "+std::to_string(mn)+" max "+std::to_string(mx)+" B "+std::to_string(db)+" N "+std::to_string(N)+" order "+std::to_string(order)); DefaultPrecision(30);
  mpf top=sr::real_mp("max-step",1e-12,2),low=sr::real_mp("min-step",1e-20,1e-12); unsigned np=0; mpf ns; MinimizeTrackingCost(np,ns,mn,low,mx,top,db,N,order);
  sr::check(np>=mn,"precision-at-least-required",std::to_string(np)+" for "+std::to_string(mn)); sr::check(np==16||np>=20,"precision-usable",""); sr::check(np<=std::max(mx,20u),"precision-within-limit",std::to_string(np));
  if(!(np>=16&&np<=200)) return;
  auto step=[&](unsigned p){ mpf s=ten(mpf(mpf((int(p)-int(db))*N)/(order+1))); return mpf(s<top?s:top); };
  mpf s=step(np); sr::eq(ns,s,"step-size"); sr::rel(sr::D(ns),sr::LE,sr::D(top),"step-within-limit");
  auto cost=[&](unsigned p){ return mpf(p==16?mpf(1):mpf(mpf(1035+13*p)/100)); };
  mpf c=mpf(cost(np)/s); std::vector<unsigned> cand; if(mn<=16) cand.push_back(16); for(unsigned p=20;p<=std::max(mx,20u);p+=10) if(p>=mn) cand.push_back(p); for(unsigned p:cand){ mpf o=mpf(cost(p)/step(p)); sr::rel(sr::D(c),sr::LE,sr::D(mpf(o*mpf("1.000000001"))),"cheapest"); } }
void sr_harness(){ sr::generic(); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED; switch(sr::choose("part",4)){ case 0: criteria(); break; case 1: config(); break; case 2: limits(); break; default: chooser(); } }
