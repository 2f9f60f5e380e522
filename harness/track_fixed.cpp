// Fixed precision trackers: a tracked path is the sequence of predict/correct steps the settings describe, from the start to the end time.
#include "lu_stub.hpp"
#include "sysgen.hpp"
#include <bertini2/trackers/fixed_precision_tracker.hpp>
#include <bertini2/trackers/observers.hpp>
using namespace gen; using namespace bertini::tracking;
inline dbl tod(const dbl&a){ return a; } inline dbl tod(const mpc&z){ mpf a(z.real()),b(z.imag()); return dbl(sr::D(a),sr::D(b)); }
inline double tor(double a){ return a; } inline double tor(const mpf&a){ return sr::D(a); }
inline void acc(const dbl&,unsigned){} inline void acc(const mpc&z,unsigned p){ sr::accurate(z,p,"accuracy"); }
template<class T> struct Tr; template<> struct Tr<dbl>{ typedef DoublePrecisionTracker K; typedef double R; static R sym(const std::string&n,double lo,double hi){ return sr::real(n,lo,hi); } }; template<> struct Tr<mpc>{ typedef MultiplePrecisionTracker K; typedef mpf R; static R sym(const std::string&n,double lo,double hi){ return sr::real_mp(n,lo,hi); } };
template<class T> typename Tr<T>::R md(const T&z){ using std::abs; return typename Tr<T>::R(abs(z)); }
// a rational setting whose value is symbolic
static mpq_rational ratio(const std::string&n,double lo,double hi){ double v=sr::real(n,lo,hi); mpq_rational q;
#ifdef SR_NATIVE
  q=mpq_rational(v);
#else
  static int k=0; mpz_int den(1); den<<=125; den+=2*(++k)+1; q=mpq_rational(mpz_int(104729*k),den); sr::srh_tag_mpq(q.backend().data(),v);
#endif
  return q; }
// the path x(t) solves x - g(t) = 0
template<class T> struct Path{ EP f; T operator()(const T&t)const{ std::vector<T> p{lit<T>(0),t}; return T(lit<T>(0)-eval<T>(f,p).v); } T slope(const T&t)const{ std::vector<T> p{lit<T>(0),t}; return T(lit<T>(0)-dget(eval<T>(f,p),1)); } };
struct Seen{ int news=0,ok=0,bad=0,end=0,init=0,trunc=0; std::vector<dbl> at,time; std::vector<double> step; };
template<class T> struct Watch: public bertini::Observer<typename Tr<T>::K>{ typedef typename Tr<T>::K K; typedef FixedPrecisionTracker<K> E; Seen s;
  void Observe(AnyEvent const&e) override { if(auto p=dynamic_cast<const Initializing<E,T>*>(&e)) s.init++; else if(auto p=dynamic_cast<const SuccessfulStep<E>*>(&e)){ s.ok++; T z=p->Get().CurrentPoint()(0),t=p->Get().CurrentTime(); s.at.push_back(tod(z)); s.time.push_back(tod(t)); s.step.push_back(tor(p->Get().CurrentStepsize())); } else if(auto p=dynamic_cast<const FailedStep<E>*>(&e)){ s.bad++; T z=p->Get().CurrentPoint()(0),t=p->Get().CurrentTime(); s.at.push_back(tod(z)); s.time.push_back(tod(t)); s.step.push_back(tor(p->Get().CurrentStepsize())); } else if(dynamic_cast<const NewStep<E>*>(&e)) s.news++; else if(dynamic_cast<const TrackingEnded<E>*>(&e)) s.end++; else if(dynamic_cast<const InfinitePathTruncation<E>*>(&e)) s.trunc++; } };
template<class T> void run(){ typedef typename Tr<T>::R R; typedef typename Tr<T>::K K; bool mp=std::is_same<T,mpc>::value; using std::abs;
  int pth=sr::choose("path",3),dir=sr::choose("direction",3),mode=sr::choose("mode",5),hist=sr::choose("history",3);
#ifndef SR_THOROUGH
  if(hist>0&&(mode>1||dir>0||pth>0)) sr::prune(); if(dir>0&&pth!=dir-1) sr::prune(); if(dir>0&&mode>1) sr::prune();
#endif
  sr::scenario(std::string(mp?"multiple":"double")+" path "+std::to_string(pth)+" direction "+std::to_string(dir)+" mode "+std::to_string(mode)+" history "+std::to_string(hist));
  EP x=V(0),t=V(1); Path<T> g; g.f= pth==0? x-powi(t,2) : pth==1? x-powi(t,3)-t : x+t*Q(1,2)-Q(1,3);
  Ctx cx; System s; cx.v={Variable::Make("x"),Variable::Make("t")}; s.AddVariableGroup(VariableGroup{cx.v[0]}); s.AddPathVariable(cx.v[1]); s.AddFunction(node_of(g.f,cx));
  K tr(s); SteppingConfig sc; NewtonConfig nc; int mn=1,mx=1;
  sc.initial_step_size=ratio("initial-step",0.0625,2); sc.max_step_size= mode==1? ratio("max-step",0.0625,8) : mpq_rational(3)/2; sc.step_size_fail_factor= mode==1? mpq_rational(1)/3 : mpq_rational(1)/2; sc.step_size_success_factor= mode==1? mpq_rational(3) : mpq_rational(2); sc.max_num_steps= mode==3?2:3; sc.consecutive_successful_steps_before_stepsize_increase= mode==1?1:2; sc.min_num_steps= mode==2?2:1; sc.min_step_size= mode==0? ratio("min-step",0.0001,1) : mpq_rational(1)/(mode==1?4:8); if(mode==3) mx=2; if(mode==4) mn=mx=2;
  nc.max_num_newton_iterations=mx; nc.min_num_newton_iterations=mn; double tol= mode<2? sr::real("tol",0.125,0.875) : 0.5; double thr=1e9; if(mode==2||mode==3) thr=sr::real("threshold",0.5,20);
  R h0=R(sc.initial_step_size),hmax=R(sc.max_step_size),hmin=R(sc.min_step_size); sr::assume(tor(h0),sr::LE,tor(hmax)); sr::assume(tor(h0),sr::GE,tor(hmin));
  tr.Setup(Predictor::Euler,tol,thr,sc,nc); if(mode==0&&pth==2) tr.SetInfiniteTruncation(false);
  R st=R(R(1)/3),len=Tr<T>::sym("length",0.25,2); T u= dir==0? lit<T>(-1) : dir==1? T(lit<T>(1)) : T(lit<T>(3,5)+lit<T>(4,5)*T(0,1)); T t0=T(lit<T>(1)*st), t1=T(t0+T(u*len));
  if(dir==0){ t0=T(lit<T>(1)*len); t1=lit<T>(0); } R left=R(len);
  // bounded number of failures: the step cannot be halved more than twice before the smallest allowed one
  sr::assume(tor(h0),sr::LT,(mode==1?3:4)*tor(hmin));
  Vec<T> start(1),out; start(0)=g(t0); if(hist==1){ tr.TrackPath(out,lit<T>(1),lit<T>(7,8),(Vec<T>(1)<<g(lit<T>(1))).finished()); out=Vec<T>(); } if(hist==2){ tr.ReinitializeInitialStepSize(false); tr.SetStepSize(R(h0)); }
  Watch<T> w; tr.AddObserver(w); SuccessCode c=tr.TrackPath(out,t0,t1,start); Seen&S=w.s;
  // reference
  R fail=R(sc.step_size_fail_factor),grow=R(sc.step_size_success_factor); R h=R(h0); R seg=R(left/sc.min_num_steps); if(hist!=2&&seg<h) h=seg; T cur=t0,z=start(0); unsigned ok=0,bad=0,streak=0; SuccessCode want=SuccessCode::NeverStarted; bool trunc=!(mode==0&&pth==2); R rem=R(left); bool done=false; size_t k=0; R eps=Eigen::NumTraits<T>::epsilon();
  auto close=[&](const T&a,const T&b){ if(a==b) return true; R d=md<T>(T(a-b)); R m=md<T>(a),q=md<T>(b); return R(d/m)<=eps||R(d/q)<=eps; };
  for(;;){ if(done||close(cur,t1)){ want=SuccessCode::Success; break; } if(ok>=sc.max_num_steps){ want=SuccessCode::MaxNumStepsTaken; break; } if(h<hmin){ want=SuccessCode::MinStepSizeReached; break; }
    bool last=rem<h; R len1=last?R(rem):R(h); T dt=T(u*len1); T pred=T(z+T(g.slope(cur)*dt)); T next=T(cur+dt); T corr=g(next); bool good= md<T>(T(corr-pred))<R(tol); if(mn==1&&mx==2) good=true; if(mn==2) good=true;
    if(good){ z=corr; if(++streak>=sc.consecutive_successful_steps_before_stepsize_increase){ streak=0; h=R(h*grow); if(h>hmax) h=hmax; } } else { h=R(h*fail); }
    if(trunc&&md<T>(z)>R(thr)){ want=SuccessCode::GoingToInfinity; break; }
    if(good){ cur=next; ok++; done=last; if(!last) rem=R(rem-len1); } else { bad++; streak=0; }
    if(k<S.at.size()){ sr::eq(S.at[k],tod(z),"accepted-point"); sr::eq(S.time[k],tod(cur),"time"); sr::eq(S.step[k],tor(h),good?"step-size-after-success":"step-size-after-failure"); } k++; }
  sr::check(c==want,"status","got "+std::to_string(int(c))+" expected "+std::to_string(int(want)));
  sr::check(S.at.size()==k,"number-of-steps",std::to_string(S.at.size())+" "+std::to_string(k)); sr::check(S.ok==int(ok)&&S.bad==int(bad)&&tr.NumTotalStepsTaken()==ok+bad,"counts","");
  sr::check(S.init==1&&S.end==1&&S.trunc==(want==SuccessCode::GoingToInfinity),"events","");
  T now=tr.CurrentTime(); sr::eq(now,cur,"final-time"); T cp=tr.CurrentPoint()(0); sr::eq(cp,z,"current-point");
  if(c==SuccessCode::Success){ sr::check(out.size()==1,"solution-size",""); if(out.size()==1){ T o=out(0); sr::eq(o,g(cur),"solution-on-path"); acc(o,30); sr::check(done||close(now,t1),"at-end-time",""); } }
}
void sr_harness(){ sr::generic(); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED; if(sr::choose("type",2)) run<mpc>(); else run<dbl>(); }
