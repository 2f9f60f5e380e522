// Patches: values, Jacobian, rescaling, copies, precision changes.
#include <bertini2/system/patch.hpp>
#include "gen.hpp"
#include "rand_stub.hpp"
using namespace gen; template<class T> using Vc=Eigen::Matrix<T,Eigen::Dynamic,1>; template<class T> using Mt=Eigen::Matrix<T,Eigen::Dynamic,Eigen::Dynamic>;
template<class T> Vc<T> pt(unsigned n,const std::string&p){ Vc<T> v(n); for(unsigned i=0;i<n;i++) v(i)=sym<T>(p+std::to_string(i)); return v; }
// coefficients of the patch when it was made (row by row), in each number type
static std::vector<dbl> ref_d; static std::vector<mpc> ref_m; template<class T> T coef(int i); template<> dbl coef<dbl>(int i){ return ref_d[i]; } template<> mpc coef<mpc>(int i){ return ref_m[i]; }
static void learn(const Patch&P,const std::vector<unsigned>&sz){ unsigned n=0; for(auto s:sz) n+=s; Mt<dbl> J=P.Jacobian(pt<dbl>(n,"x")); Mt<mpc> M=P.Jacobian(pt<mpc>(n,"x")); ref_d.clear(); ref_m.clear(); unsigned off=0; for(unsigned g=0;g<sz.size();g++){ for(unsigned j=0;j<sz[g];j++){ ref_d.push_back(J(g,off+j)); ref_m.push_back(M(g,off+j)); sr::eq(mpc(M(g,off+j)),dbl(J(g,off+j)),"both-number-types-same-coefficients"); sr::exists_nonzero(dbl(J(g,off+j)),"coefficient-generic"); } off+=sz[g]; }
  for(size_t i=0;i<ref_d.size();i++) for(size_t j=0;j<i;j++) sr::exists_nonzero(ref_d[i]-ref_d[j],"coefficients-independent"); }
template<class T> void verify(const Patch&P,const std::vector<unsigned>&sz,const std::string&l,bool rescale=true){ unsigned n=0; for(auto s:sz) n+=s; unsigned G=sz.size();
  sr::check(P.NumVariableGroups()==G,l+"-groups",""); sr::check(P.NumVariables()==n,l+"-variables",""); if(P.NumVariableGroups()!=G||P.NumVariables()!=n) return;
  Vc<T> x=pt<T>(n,"x"); Vc<T> f=P.Eval(x); Mt<T> J=P.Jacobian(x); sr::check(f.size()==G&&J.rows()==G&&J.cols()==n,l+"-sizes",""); 
  // in place, behind other equations: those stay as they were
  Vc<T> big(G+2); Mt<T> BJ(G+2,n); for(unsigned i=0;i<G+2;i++){ big(i)=lit<T>(7+i); for(unsigned j=0;j<n;j++) BJ(i,j)=lit<T>(3+i+j); } P.EvalInPlace(big,x); P.JacobianInPlace(BJ,x);
  for(unsigned i=0;i<2;i++){ sr::eq(T(big(i)),lit<T>(7+i),l+"-other-values-kept"); for(unsigned j=0;j<n;j++) sr::eq(T(BJ(i,j)),lit<T>(3+i+j),l+"-other-rows-kept"); }
  unsigned off=0; for(unsigned g=0;g<G;g++){ T v=lit<T>(-1); for(unsigned j=0;j<n;j++){ bool in=j>=off&&j<off+sz[g]; T d= in? coef<T>(j) : lit<T>(0); sr::eq(T(J(g,j)),d,l+"-jacobian"); sr::eq(T(BJ(g+2,j)),d,l+"-jacobian-inplace"); if(in) v=T(v+T(d*x(j))); } sr::eq(T(f(g)),v,l+"-value"); sr::eq(T(big(g+2)),v,l+"-value-inplace"); off+=sz[g]; }
  if(!rescale) return; Vc<T> y=P.RescalePoint(x); Vc<T> fy=P.Eval(y); for(unsigned g=0;g<G;g++) sr::eq(T(fy(g)),lit<T>(0),l+"-rescaled-satisfies");
  off=0; for(unsigned g=0;g<G;g++){ for(unsigned j=0;j<sz[g];j++){ sr::eq(T(y(off+j)*x(off)),T(x(off+j)*y(off)),l+"-rescaled-same-projective-point"); } off+=sz[g]; }
  Vc<T> z=P.RescalePoint(y); for(unsigned j=0;j<n;j++) sr::eq(T(z(j)),T(y(j)),l+"-rescale-again-changes-nothing"); 
  Vc<T> w(n); T lam=sym<T>("lam"); off=0; for(unsigned g=0;g<G;g++){ for(unsigned j=0;j<sz[g];j++) w(off+j)= g==0? T(lam*x(off+j)) : T(x(off+j)); off+=sz[g]; } Vc<T> w2=P.RescalePoint(w); for(unsigned j=0;j<n;j++) sr::eq(T(w2(j)),T(y(j)),l+"-rescale-ignores-scaling"); }
static void accurate_at(const Patch&P,unsigned n,unsigned prec,const std::string&l){ DefaultPrecision(prec); Vc<mpc> x(n); for(unsigned i=0;i<n;i++) x(i)=lit<mpc>(1+i); sr::check(P.Precision()==prec,l+"-precision","says "+std::to_string(P.Precision())); if(P.Precision()!=prec) return; Mt<mpc> J=P.Jacobian(x); unsigned g=0; (void)g; for(int i=0;i<J.rows();i++) for(int j=0;j<J.cols();j++) sr::accurate(mpc(J(i,j)),prec,l+"-accuracy"); }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30); int G=1+sr::choose("groups",3); std::vector<unsigned> sz; unsigned n=0; for(int i=0;i<G;i++){ sz.push_back(1+sr::choose("s"+std::to_string(i),3)); n+=sz.back(); }
  sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; Patch P(sz); sr::rand_mode=sr::RAND_FIXED; learn(P,sz); int what=sr::choose("what",6);
  switch(what){
   case 0: verify<dbl>(P,sz,"patch"); verify<mpc>(P,sz,"patch-mp"); break;
   case 1:{ Patch Q(P); Patch R; R=P; Patch S=Patch::Random({2,2}); S=Q; verify<dbl>(Q,sz,"copied",false); verify<mpc>(R,sz,"assigned-mp",false); verify<mpc>(S,sz,"reassigned-mp",false); verify<dbl>(P,sz,"copied-from",false); sr::check(P==Q&&!(P!=Q),"copy-equal",""); sr::check(P==R,"assigned-equal",""); break; }
   case 2:{ sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; sr::rand_prefix="oth"; Patch Q(sz); std::vector<unsigned> s2=sz; s2.push_back(1); sr::rand_count=0; sr::rand_prefix="rnd"; Patch R(s2); std::vector<unsigned> s3=sz; std::swap(s3.front(),s3.back()); sr::rand_count=0; Patch T3(s3); sr::check(P!=Q,"different-coefficients",""); sr::check(P!=R,"different-groups",""); sr::check((P==T3)==(s3==sz),"different-sizes",""); break; }
   case 3:{ static const unsigned pr[]={16,20,30,50,100,300}; unsigned a=pr[sr::choose("p1",6)],b=pr[sr::choose("p2",6)]; P.Precision(a); accurate_at(P,n,a,"first-change"); DefaultPrecision(a); verify<mpc>(P,sz,"precision-changed",false); P.Precision(b); accurate_at(P,n,b,"second-change"); DefaultPrecision(b); verify<mpc>(P,sz,"precision-changed-again",true); verify<dbl>(P,sz,"precision-changed-double",false); break; }
   case 4:{ static const unsigned pr[]={20,30,50,300}; unsigned a=pr[sr::choose("p1",4)],d=pr[sr::choose("pd",4)],b=pr[sr::choose("p2",4)]; P.Precision(a); DefaultPrecision(d); Patch Q(P); accurate_at(Q,n,a,"copy-precision"); DefaultPrecision(d); Q.Precision(b); accurate_at(Q,n,b,"copy-changed"); accurate_at(P,n,a,"original-unchanged"); Patch R; R=P; accurate_at(R,n,a,"assigned-precision"); break; }
   case 5:{ sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; Patch R=Patch::RandomReal(sz); sr::rand_mode=sr::RAND_FIXED; Vc<dbl> x=pt<dbl>(n,"x"); Mt<dbl> J=R.Jacobian(x); unsigned off=0; for(int g=0;g<G;g++){ for(unsigned j=0;j<sz[g];j++){ sr::eq(J(g,off+j).imag(),0.0,"real-patch-is-real"); } off+=sz[g]; } Vc<dbl> y=R.RescalePoint(x), f=R.Eval(y); for(int g=0;g<G;g++) sr::eq(dbl(f(g)),dbl(0.0),"real-patch-rescaled"); break; }
  } }
