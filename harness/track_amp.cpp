// The adaptive precision tracker: every step of a tracked path, and the precision and step size chosen after it.
#include "lu_stub.hpp"
#include "sysgen.hpp"
#include <bertini2/trackers/amp_tracker.hpp>
#include <bertini2/trackers/observers.hpp>
using namespace gen; using namespace bertini::tracking;
inline dbl tod(const mpc&z){ mpf a(z.real()),b(z.imag()); return dbl(sr::D(a),sr::D(b)); }
static mpf ten(int e){ return mpf(pow(mpf(10),e)); }
static mpq_rational ratio(const std::string&n,double lo,double hi){ double v=sr::real(n,lo,hi); mpq_rational q;
#ifdef SR_NATIVE
  q=mpq_rational(v);
#else
  static int k=0; mpz_int den(1); den<<=125; den+=2*(++k)+1; q=mpq_rational(mpz_int(104729*k),den); sr::srh_tag_mpq(q.backend().data(),v);
#endif
  return q; }
struct Path{ EP f; mpc operator()(const mpc&t)const{ std::vector<mpc> p{lit<mpc>(0),t}; return mpc(lit<mpc>(0)-eval<mpc>(f,p).v); } mpc slope(const mpc&t)const{ std::vector<mpc> p{lit<mpc>(0),t}; return mpc(lit<mpc>(0)-dget(eval<mpc>(f,p),1)); } };
enum Kind{ OK, CRIT, CONV };
struct Snap{ Kind k; unsigned prec; mpc z,t; mpf h; bool inPrec; };
struct Watch: public bertini::Observer<AMPTracker>{ int init=0,end=0,trunc=0,sing=0,news=0; bool crit=false,conv=false; std::vector<Snap> s; Snap first; bool have=false;
  Snap snap(const AMPTracker&a,Kind k){ Snap r; r.k=k; r.prec=a.CurrentPrecision(); { Vec<mpc> v=a.CurrentPoint(); r.z=v(0); } r.t=a.CurrentTime(); r.h=a.CurrentStepsize(); r.inPrec= DefaultPrecision()==r.prec&&(r.prec==16||(Precision(a.CurrentTime())==r.prec&&Precision(a.CurrentStepsize())==r.prec&&Precision(a.CurrentPoint()(0))==r.prec&&a.GetSystem().precision()==r.prec&&Precision(a.DeltaT())==r.prec)); return r; }
  void Observe(AnyEvent const&e) override { if(dynamic_cast<const Initializing<AMPTracker,mpc>*>(&e)) init++; else if(auto p=dynamic_cast<const SuccessfulStep<AMPTracker>*>(&e)){ s.push_back(snap(p->Get(),OK)); } else if(auto p=dynamic_cast<const FailedStep<AMPTracker>*>(&e)){ s.push_back(snap(p->Get(),crit?CRIT:CONV)); } else if(auto p=dynamic_cast<const NewStep<AMPTracker>*>(&e)){ crit=conv=false; news++; { mpc d=p->Get().DeltaT(); mpf a=mpf(abs(d)),b=mpf(p->Get().CurrentStepsize()/100); sr::assume(sr::D(a),sr::GE,sr::D(b)); } if(!have){ have=true; first=snap(p->Get(),OK); } } else if(dynamic_cast<const HigherPrecisionNecessary<AMPTracker>*>(&e)) crit=true; else if(dynamic_cast<const TrackingEnded<AMPTracker>*>(&e)) end++; else if(dynamic_cast<const InfinitePathTruncation<AMPTracker>*>(&e)) trunc++; else if(dynamic_cast<const SingularStartPoint<AMPTracker>*>(&e)) sing++; } };
static mpf md(const mpc&z){ return mpf(abs(z)); }
void sr_harness(){ sr::generic(); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED;
  // modes: 0 convergence failures, 1 criterion C at work, 2 precision may decrease, 3 start point off the path, 4 steps too small for the precision, 5 not enough precision allowed
  int mode=sr::choose("mode",6),pth=sr::choose("path",2),sp=sr::choose("start-precision",3),dir=sr::choose("direction",2),keep=sr::choose("keep-precision",2);
#ifndef SR_THOROUGH
  if(pth&&(mode==2||mode>3)) sr::prune(); if(dir&&(mode!=0||!pth)) sr::prune(); if(keep&&(mode!=1||pth||sp!=1)) sr::prune(); if(mode==1&&(sp==2||(pth&&sp!=1)||(sp==1&&!pth&&!keep))) sr::prune(); if(mode==0&&sp!=2-pth&&sp!=0) sr::prune(); if(mode==2&&sp!=2) sr::prune(); if(mode==5&&sp!=1) sr::prune(); if(mode==3&&(sp==1)!=(pth==1)) sr::prune();
#endif
  if(mode==4&&sp) sr::prune(); if(mode==2&&sp==0) sr::prune(); static const unsigned SP[]={16,20,30}; unsigned p0=SP[sp];
  sr::scenario("mode "+std::to_string(mode)+" path "+std::to_string(pth)+" start precision "+std::to_string(p0)+" direction "+std::to_string(dir)+" keep "+std::to_string(keep));
  EP x=V(0),t=V(1); Path g; g.f= pth==0? x-powi(t,2) : x+t*Q(1,2)-Q(1,3); Ctx cx; System s; cx.v={Variable::Make("x"),Variable::Make("t")}; s.AddVariableGroup(VariableGroup{cx.v[0]}); s.AddPathVariable(cx.v[1]); s.AddFunction(node_of(g.f,cx));
  AMPTracker tr(s); SteppingConfig sc; NewtonConfig nc; auto ac=AMPConfigFrom(s); double tol=0.125; int s2=1; ac.epsilon=1; ac.Phi=0; ac.Psi=1; ac.safety_digits_1=1; ac.maximum_precision= mode==5?30:60; int mx=1;
  sc.initial_step_size= mode==4? ratio("initial-step",2e-13,1e-12) : ratio("initial-step",0.125,1); sc.max_step_size= mpq_rational(1); sc.step_size_fail_factor=mpq_rational(1)/2; sc.step_size_success_factor=mpq_rational(2); sc.max_num_steps= mode==0?3:2; sc.consecutive_successful_steps_before_stepsize_increase= mode==0?1:0; sc.min_num_steps=1; sc.min_step_size= mode==4? mpq_rational(1,100000000)/10000000 : mpq_rational(1)/8;
  ac.consecutive_successful_steps_before_precision_decrease= mode==2?1:10; ac.max_num_precision_decreases= mode==2?1:10; if(mode==2) sc.max_num_steps=3;
  // the digits asked for are 1.9 + log10(Psi + |z|)
  if(mode==1){ int far=sr::choose("far",2);
#ifndef SR_THOROUGH
  if(far) sr::prune();
#endif
  if(far) ac.Psi=sr::real("Psi",3e25,5e27); else ac.Psi=sr::real("Psi",sp==0?3e13:sp==1?3e17:3e27,sp==0?3e15:sp==1?3e19:3e29); } if(mode==2){ if(sr::choose("far",2)) ac.Psi=sr::real("Psi",3e8,5e9); else ac.Psi=sr::real("Psi",3e13,5e14); } if(mode==5) ac.Psi=sr::real("Psi",3e27,5e29); if(mode==4){ tol=1e-26; s2=-20; } ac.safety_digits_2=s2; if(mode==3) mx=1+(pth==1);
  nc.max_num_newton_iterations=mx; nc.min_num_newton_iterations=1; tr.Setup(Predictor::Euler,tol,1e9,sc,nc); tr.PrecisionSetup(ac); tr.PrecisionPreservation(keep);
  mpf h0=mpf(sc.initial_step_size),len= mode==4? mpf(1) : sr::real_mp("length",0.25,1.5); mpc u= dir==0? lit<mpc>(-1) : mpc(lit<mpc>(3,5)+lit<mpc>(4,5)*mpc(0,1)); mpc t0= dir==0? mpc(lit<mpc>(1)*len) : lit<mpc>(1,3), t1= dir==0? lit<mpc>(0) : mpc(t0+mpc(u*len)); if(mode==2&&pth==0){ }
  Vec<mpc> start(1),out; start(0)=g(t0); if(mode==3){ mpf e=sr::real_mp("offset",0.01,0.4); start(0)=mpc(start(0)+mpc(lit<mpc>(1)*e)); }
  for(auto p:{&t0,&t1}) p->precision(30); DefaultPrecision(p0); start(0).precision(p0); s.precision(p0);
  Watch w; tr.AddObserver(w); SuccessCode c=tr.TrackPath(out,t0,t1,start); unsigned pEnd=tr.CurrentPrecision(),dEnd=DefaultPrecision(); mpc tEnd=tr.CurrentTime(); DefaultPrecision(40);
  sr::check(w.init==1&&w.end==1,"start-and-end-events",""); sr::check(w.trunc==0,"no-truncation",""); if(keep) sr::check(pEnd==p0,"precision-restored",std::to_string(pEnd)); 
  sr::check(dEnd==pEnd,"ambient-precision-in-step",""); 
  // the start point
  mpc off=mpc(start(0)-g(t0)); bool good= mx>1||md(off)<mpf(tol);
  if(!good){ sr::check(c==SuccessCode::SingularStartPoint&&w.sing==1&&w.s.empty(),"bad-start-refused",std::to_string(int(c))); return; }
  sr::check(w.sing==0,"good-start-kept","");
  auto need=[&](const mpc&z){ mpf v=mpf(mpf(ac.Psi)+md(z)); return v; }; // digits p suffice when 10^(p-s2) tol > need
  auto enough=[&](unsigned p,const mpc&z){ return mpf(ten(int(p)-s2)*mpf(tol))>need(z); };
  mpf hmax=mpf(1),hmin=mpf(sc.min_step_size); mpc z=g(t0),cur=t0; mpf h= h0<len?h0:len; unsigned p=p0,K=ac.consecutive_successful_steps_before_precision_decrease,M=sc.consecutive_successful_steps_before_stepsize_increase,ok=0,streak=0,sinceDec=0,dec=0,failed=0; size_t k=0; SuccessCode want=SuccessCode::NeverStarted; mpf rem=mpf(len); bool done=false;
  if(w.have){ sr::eq(tod(w.first.z),tod(z),"refined-start"); sr::check(w.first.prec==p0&&w.first.inPrec,"start-precision",std::to_string(w.first.prec)); sr::eq(sr::D(w.first.h),sr::D(h),"initial-step"); }
  for(;;){ if(!done&&rem<mpf(len*mpf("1e-10"))) sr::prune(); if(done){ want=SuccessCode::Success; break; } if(ok>=sc.max_num_steps){ want=SuccessCode::MaxNumStepsTaken; break; } if(h<hmin){ want=SuccessCode::MinStepSizeReached; break; } if(p>ac.maximum_precision){ want=SuccessCode::MaxPrecisionReached; break; }
    if(k>=w.s.size()) break; Snap&o=w.s[k++];
    bool last=!(h<rem); mpf len1=last?mpf(rem):mpf(h); mpc dt=mpc(u*len1),next=mpc(cur+dt); mpc pred=mpc(z+mpc(g.slope(cur)*dt)),corr=g(next); bool conv=md(mpc(corr-pred))<mpf(tol); if(mx>1) conv=true; Kind kd= !enough(p,z)? CRIT : conv? OK : !enough(p,corr)? CRIT : CONV;
    sr::check(o.k==kd,"outcome-of-step","saw "+std::to_string(o.k)+" expected "+std::to_string(kd)); sr::check(o.inPrec,"everything-in-current-precision",""); if(o.k!=kd) return;
    if(kd==OK){ sr::eq(tod(o.z),tod(corr),"accepted-point"); sr::eq(tod(o.t),tod(next),"time-advances"); ok++; failed=0;
      // enough precision for the new point, in whole digits
      sr::check(mpf(ten(int(o.prec)+1-s2)*mpf(tol))>need(corr),"precision-enough-after-success",std::to_string(o.prec)); if(o.prec>p&&mode!=4) sr::check(!enough(p,corr),"precision-raised-only-when-needed",""); bool may= sinceDec>=K&&dec<ac.max_num_precision_decreases; if(o.prec<p) sr::check(may,"precision-lowered-only-after-enough-steps",""); else if(may&&p>20&&mpf(ten(16-s2)*mpf(tol))>need(corr)) sr::check(false,"precision-lowered-when-possible",std::to_string(p));
      if(o.prec<p){ dec++; sinceDec=0; } else sinceDec++;
      mpf big=mpf(h*2); if(big>hmax) big=hmax; bool grow=streak>=M; if(grow) sr::eq(sr::D(o.h),sr::D(big),"step-grows"); else sr::eq(sr::D(o.h),sr::D(h),"step-kept"); bool up= big>h; if((grow&&up)||o.prec<p) streak=0; else streak++;
      z=corr; cur=next; done=last; if(!last) rem=mpf(rem-len1); }
    else { sr::eq(tod(o.z),tod(z),"point-kept-on-failure"); sr::eq(tod(o.t),tod(cur),"time-kept-on-failure"); streak=sinceDec=0; failed++;
      if(kd==CRIT){ sr::check(o.prec>p,"precision-raised-on-criterion-failure",std::to_string(o.prec)); sr::check(mpf(ten(int(o.prec)+1-s2)*mpf(tol))>need(z),"raised-precision-enough",std::to_string(o.prec)); sr::rel(sr::D(o.h),sr::LT,sr::D(h),"step-shrinks-on-criterion-failure"); sr::rel(sr::D(o.h),sr::GE,sr::D(mpf(h/2)),"step-not-below-factor"); }
      else { sr::eq(sr::D(o.h),sr::D(mpf(h/2)),"step-shrinks-on-convergence-failure"); unsigned q=p; while(o.h<mpf(ten(3-int(q))*rem)) q= q==16?20:q+10; sr::check(o.prec==q,"precision-for-small-step",std::to_string(o.prec)+" expected "+std::to_string(q)); } }
    p=o.prec; h=o.h; }
  sr::check(c==want,"status","got "+std::to_string(int(c))+" expected "+std::to_string(int(want))); sr::check(k==w.s.size(),"number-of-steps","");
  sr::eq(tod(tEnd),tod(cur),"final-time");
  if(c==SuccessCode::Success){ sr::check(out.size()==1,"solution-size",""); if(out.size()==1){ mpc o=out(0); sr::eq(tod(o),tod(g(cur)),"solution-on-path"); sr::check(Precision(o)==p,"solution-precision",std::to_string(Precision(o))+" vs "+std::to_string(p)); } }
}
