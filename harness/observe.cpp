// Observers of a tracker: each sees every event once and in order whatever other observers do meanwhile; recorders tell the truth about the run.
#include "lu_stub.hpp"
#include "sysgen.hpp"
#include <bertini2/trackers/amp_tracker.hpp>
#include <bertini2/trackers/fixed_precision_tracker.hpp>
#include <bertini2/trackers/observers.hpp>
using namespace gen; using namespace bertini::tracking;
inline dbl tod(const mpc&z){ mpf a(z.real()),b(z.imag()); return dbl(sr::D(a),sr::D(b)); } inline dbl tod(const dbl&z){ return z; }
static mpq_rational ratio(const std::string&n,double lo,double hi){ double v=sr::real(n,lo,hi); mpq_rational q;
#ifdef SR_NATIVE
  q=mpq_rational(v);
#else
  static int k=0; mpz_int den(1); den<<=125; den+=2*(++k)+1; q=mpq_rational(mpz_int(104729*k),den); sr::srh_tag_mpq(q.backend().data(),v);
#endif
  return q; }
template<class T> struct Types; template<> struct Types<AMPTracker>{ typedef mpc C; }; template<> struct Types<DoublePrecisionTracker>{ typedef dbl C; };
// what happened, as seen by one observer
template<class T> struct Seen: public bertini::Observer<T>{ typedef typename TrackerTraits<T>::EventEmitterType E; typedef typename Types<T>::C C; std::vector<char> k; std::vector<unsigned> prec; std::vector<dbl> t; int actAt=-1,act=0,did=0; bertini::AnyObserver*other=nullptr; bool gone=false; int after=0;
  void Observe(AnyEvent const&e) override { if(gone){ after++; return; } char c='?'; const E*p=nullptr; if(auto q=dynamic_cast<const Initializing<E,C>*>(&e)){ c='I'; p=&q->Get(); } else if(auto q=dynamic_cast<const TrackingStarted<E>*>(&e)){ c='B'; p=&q->Get(); } else if(auto q=dynamic_cast<const TrackingEnded<E>*>(&e)){ c='E'; p=&q->Get(); } else if(auto q=dynamic_cast<const NewStep<E>*>(&e)){ c='N'; p=&q->Get(); } else if(auto q=dynamic_cast<const SuccessfulStep<E>*>(&e)){ c='S'; p=&q->Get(); } else if(auto q=dynamic_cast<const FailedStep<E>*>(&e)){ c='F'; p=&q->Get(); } else if(auto q=dynamic_cast<const PrecisionChanged<E>*>(&e)){ c='P'; p=&q->Get(); }
    unsigned pr=p?p->CurrentPrecision():0; if(c=='P'){ auto q=dynamic_cast<const PrecisionChanged<E>*>(&e); sr::check(q->Previous()==pr&&q->Next()!=pr,"announced-change-is-real",""); pr=q->Next(); } k.push_back(c); prec.push_back(pr); t.push_back(p&&c!='I'?tod(C(p->CurrentTime())):dbl(0.0,0.0)); int n=k.size(); if(p&&actAt>0&&n>=actAt&&!did){ did=n; if(act==1){ gone=true; p->RemoveObserver(*this); } if(act==2) p->RemoveObserver(*other); if(act==3) p->AddObserver(*other); } }
  std::string s()const{ return std::string(k.begin(),k.end()); } };
template<class T> void same(const Seen<T>&a,const Seen<T>&b,size_t from,const std::string&l){ std::string x=a.s(),y=b.s().substr(std::min(from,b.k.size())); sr::check(x==y,l,x+" instead of "+y); if(x==y) for(size_t i=0;i<a.k.size();i++){ sr::check(a.prec[i]==b.prec[i+from],l+"-precision",""); sr::eq(a.t[i],b.t[i+from],l+"-time"); } }
static int action_offset(int a){ return a; }
template<class T> void run(T&tr,const std::function<void()>&track,bool amp){ 
  Seen<T> A,B,C,D,Z; FirstPrecisionRecorder<T> fp; MinMaxPrecisionRecorder<T> mm; int order=sr::choose("order",4),act=sr::choose("action",4); int at;
#ifdef SR_THOROUGH
  at=2+3*sr::choose("at",4);
#else
  if(amp){ at=5; if((order+action_offset(act))%2) sr::prune(); } else at=2+3*sr::choose("at",3);
#endif

  // A acts, the others only watch
  A.act=act; A.actAt=at; if(act==2) A.other=&D; if(act==3) A.other=&Z;
  std::vector<bertini::AnyObserver*> os; switch(order){ case 0: os={&A,&fp,&mm,&B,&D,&C}; break; case 1: os={&B,&fp,&A,&C,&D,&mm}; break; case 2: os={&D,&B,&C,&mm,&fp,&A}; break; default: os={&fp,&D,&A,&B,&mm,&C}; }
  for(auto o:os) tr.AddObserver(*o); tr.AddObserver(B); track(); 
  same(C,B,0,"all-see-the-same"); std::string s=B.s(); size_t nb=0,ne=0,ni=0; for(char c:s){ nb+=c=='B'; ne+=c=='E'; ni+=c=='I'; } sr::check(ni==1&&nb==1&&ne==1&&s.back()=='E',"start-and-end-announced-once",s); if(nb!=1||ni!=1) return; size_t ib=s.find('B'); sr::check(s.find('I')<ib,"started-after-initializing",""); sr::check(s.substr(0,ib).find_first_of("NSF")==std::string::npos,"no-step-before-start",s);
  // each step announced is followed by exactly one outcome
  { int open=0; bool ok=true; for(char c:s){ if(c=='N'){ if(open) ok=false; open=1; } if(c=='S'||c=='F'){ if(!open) ok=false; open=0; } } sr::check(ok&&!open,"each-step-has-one-outcome",s); }
  if(act==1&&A.did){ sr::check(A.after==0,"no-events-after-leaving",""); sr::check(int(A.k.size())==A.did,"saw-everything-before-leaving",A.s()); } else { same(A,B,0,"actor-sees-all"); }
  if(act==2&&A.did){ bool early= order==2||order==3; int want= early?A.did:A.did-1; sr::check(int(D.k.size())==want,"removed-observer-stops",std::to_string(D.k.size())); } else same(D,B,0,"bystander-sees-all");
  if(act==3&&A.did){ int first=int(B.k.size())-int(Z.k.size()); sr::check(first==A.did||first==A.did-1,"added-observer-starts",std::to_string(first)); if(first>=0) same(Z,B,first,"newcomer-sees-the-rest"); }
  // the recorders
  unsigned p0=B.prec[ib],cur=p0,lo=p0,hi=p0; bool up=false; unsigned nx=0; dbl tt(0.0,0.0); for(size_t i=ib+1;i<B.k.size();i++) if(B.k[i]=='P'){ unsigned q=B.prec[i]; if(q>cur&&!up){ up=true; nx=q; tt=B.t[i]; } cur=q; if(q<lo) lo=q; if(q>hi) hi=q; }
  sr::check(fp.DidPrecisionIncrease()==up,"first-increase-reported",std::to_string(fp.DidPrecisionIncrease())); sr::check(fp.StartPrecision()==p0,"start-precision-reported",std::to_string(fp.StartPrecision())); if(up&&fp.DidPrecisionIncrease()){ sr::check(fp.NextPrecision()==nx,"increased-precision-reported",std::to_string(fp.NextPrecision())); typename Types<T>::C ti=fp.TimeOfIncrease(); sr::eq(tod(ti),tt,"time-of-increase-reported"); }
  sr::check(mm.MinPrecision()==lo&&mm.MaxPrecision()==hi,"extreme-precisions-reported",std::to_string(mm.MinPrecision())+".."+std::to_string(mm.MaxPrecision())+" instead of "+std::to_string(lo)+".."+std::to_string(hi)); }
void sr_harness(){ sr::generic(); DefaultPrecision(30); sr::rand_mode=sr::RAND_FIXED; int kind=sr::choose("kind",3);
  EP x=V(0),t=V(1); EP f= x-powi(t,2); Ctx cx; System s; cx.v={Variable::Make("x"),Variable::Make("t")}; s.AddVariableGroup(VariableGroup{cx.v[0]}); s.AddPathVariable(cx.v[1]); s.AddFunction(node_of(f,cx)); NewtonConfig nc; nc.max_num_newton_iterations=1; nc.min_num_newton_iterations=1; SteppingConfig sc; sc.initial_step_size=ratio("initial-step",0.2,0.9); sc.max_step_size=mpq_rational(1); sc.step_size_fail_factor=mpq_rational(1)/2; sc.step_size_success_factor=mpq_rational(2); sc.min_num_steps=1; sc.min_step_size=mpq_rational(1)/10; sc.consecutive_successful_steps_before_stepsize_increase=0; sc.max_num_steps=2;
  sr::scenario("kind "+std::to_string(kind));
  if(kind==2){ DefaultPrecision(16); s.precision(16); DoublePrecisionTracker tr(s); tr.Setup(Predictor::Euler,0.125,1e9,sc,nc); Vec<dbl> st(1),out; st(0)=dbl(1.0,0.0); run(tr,[&]{ tr.TrackPath(out,dbl(1.0,0.0),dbl(0.0,0.0),st); },false); return; }
  unsigned p0= kind==0?16:30; AMPTracker tr(s); auto ac=AMPConfigFrom(s); ac.epsilon=1; ac.Phi=0; ac.safety_digits_1=1; ac.safety_digits_2=1; ac.maximum_precision=60; ac.consecutive_successful_steps_before_precision_decrease= kind==1?0:10; ac.max_num_precision_decreases=10; ac.Psi= kind==0? sr::real("Psi",3e12,3e16) : sr::real("Psi",1e5,3e9); tr.Setup(Predictor::Euler,0.125,1e9,sc,nc); tr.PrecisionSetup(ac);
  mpc t0=lit<mpc>(1),t1=lit<mpc>(0); Vec<mpc> st(1),out; st(0)=lit<mpc>(1); t0.precision(30); t1.precision(30); DefaultPrecision(p0); st(0).precision(p0); s.precision(p0); run(tr,[&]{ tr.TrackPath(out,t0,t1,st); },true);
}
