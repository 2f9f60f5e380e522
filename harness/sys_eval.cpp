// System evaluation, Jacobian and time derivative agree with the expressions, for every evaluation/differentiation method.
#include "sysgen.hpp"
using namespace gen;
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
  Spec sp; int em=sr::choose("evalmethod",2),dm=sr::choose("derivmethod",2); sp.em=em?EvalMethod::SLP:EvalMethod::FunctionTree; sp.dm=dm?DerivMethod::JacobianNode:DerivMethod::Derivatives; sp.simp=!sr::choose("nosimplify",2); sp.path=sr::choose("path",2);
  int kind=sr::choose("kind",5); // plain poly, plain nonpoly, hom, hom+patch, subfunctions
  sp.groups= kind==1||kind==4? 2*sr::choose("g",2) : kind==0? sr::choose("g",5) : sr::choose("g",2); if(kind==2||kind==3) sp.hom=true; if(kind==3) sp.patch=true; if(kind==0&&sp.groups==4) sp.groups=3;
  auto tb= kind==1? sys_nonpolys(sp.path) : sys_polys(sp.path); EP a=tb[sr::choose("a",tb.size())]; EP x=V(0),y=V(1);
  std::vector<std::vector<EP>> fams;
  if(kind==4){ EP s=a; EP r=un(EXP,x); EP q=s*y; fams={ {s*x+y,s*s},{powi(s,2),s-x},{s,s},{q+s,q*s},{x*y,s/(x+y)} }; for(auto&f:fams){ Spec s2=sp; s2.f=f; s2.subs={s}; sr::scenario("subfunction "+text(s,{"x","y","t"})); Built b=build(s2); compare<dbl>(b.s,b,"subfunction"); compare<mpc>(b.s,b,"subfunction"); } return; }
  for(size_t j=0;j<tb.size();j+= kind>=2?3:2){ Spec s2=sp; s2.f={a,tb[j]}; sr::rand_count=0; sr::scenario("["+text(a,{"x","y","t"})+", "+text(tb[j],{"x","y","t"})+"]"); Built b=build(s2); compare<dbl>(b.s,b,"double"); compare<mpc>(b.s,b,"multiple"); compare<dbl>(b.s,b,"double-again","2"); if(j==0){ compare<mpc>(b.s,b,"reuse","3",15); compare<dbl>(b.s,b,"reuse-double","3",15); } }
}
