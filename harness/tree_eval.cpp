// Expression evaluation: library value == independent semantics, for every point, in double and multiple precision.
#include "gen.hpp"
using namespace gen;
static void native_overloads(){ // mixed arithmetic of an expression with plain numbers
  Vr x=Variable::Make("x"); Nd n=x+Nd(bertini::node::Integer::Make(1)); dbl a=sr::cplx("x"); dbl v=a+1.0; mpf r=sr::real_mp("r"); dbl rv(sr::D(r),0.0); mpc z=sr::cplx_mp("z"); dbl zv=sr::cplx("z"); mpz_int k(7); mpq_rational q(-5,3); dbl qv(-5.0/3.0,0.0);
  x->set_current_value(a); auto t=[&](const Nd&f,dbl want,const char*l){ sr::eq(f->Eval<dbl>(),want,l); };
  t(n+r,v+rv,"node+real"); t(r+n,v+rv,"real+node"); t(n-r,v-rv,"node-real"); t(r-n,rv-v,"real-node"); t(n*r,v*rv,"node*real"); t(r*n,v*rv,"real*node"); t(n/r,v/rv,"node/real"); t(r/n,rv/v,"real/node");
  t(n+z,v+zv,"node+complex"); t(z+n,v+zv,"complex+node"); t(n-z,v-zv,"node-complex"); t(z-n,zv-v,"complex-node"); t(n*z,v*zv,"node*complex"); t(z*n,v*zv,"complex*node"); t(n/z,v/zv,"node/complex"); t(z/n,zv/v,"complex/node");
  t(n+3,v+3.0,"node+int"); t(3+n,v+3.0,"int+node"); t(n-3,v-3.0,"node-int"); t(3-n,3.0-v,"int-node"); t(n*3,v*3.0,"node*int"); t(3*n,v*3.0,"int*node"); t(n/3,v/3.0,"node/int"); t(3/n,3.0/v,"int/node");
  t(n+k,v+7.0,"node+bigint"); t(k+n,v+7.0,"bigint+node"); t(n-k,v-7.0,"node-bigint"); t(k-n,7.0-v,"bigint-node"); t(n*k,v*7.0,"node*bigint"); t(k*n,v*7.0,"bigint*node"); t(n/k,v/7.0,"node/bigint"); t(k/n,7.0/v,"bigint/node");
  t(n+q,v+qv,"node+rational"); t(q+n,v+qv,"rational+node"); t(n-q,v-qv,"node-rational"); t(q-n,qv-v,"rational-node"); t(n*q,v*qv,"node*rational"); t(q*n,v*qv,"rational*node"); t(n/q,v/qv,"node/rational"); t(q/n,qv/v,"rational/node");
  t(pow(n,5),s_pow(v,5),"pow-int"); t(pow(n,mpq_rational(1,2)),std::sqrt(v),"pow-rational"); t(pow(n,z),std::pow(v,zv),"pow-complex");
  Nd s=n; s+=Nd(x); t(s,v+a,"+="); s=n; s-=Nd(x); t(s,v-a,"-="); s=n; s*=Nd(x); t(s,v*a,"*="); s=n; s/=Nd(x); t(s,v/a,"/="); t(n,v,"operand unchanged"); Nd p2=pow(n,2),p3=pow(n,3); t(p2*p3,s_pow(v,5),"power merge"); t(p2,s_pow(v,2),"power operand unchanged"); Nd pm=pow(n,-2); t(pm*p3,v,"power merge negative"); t(p2/p3,1.0/v,"power quotient"); }
void sr_harness(){
  sr::explore_eq(false); DefaultPrecision(30);
  if(sr::choose("part",2)==1){ native_overloads(); return; }
  auto es=shape_family(); 
  std::vector<dbl> p={sr::cplx("x"),sr::cplx("y")},q={sr::cplx("x2"),sr::cplx("y2")}; std::vector<mpc> P={sr::cplx_mp("x"),sr::cplx_mp("y")},Q2={sr::cplx_mp("x2"),sr::cplx_mp("y2")};
  for(auto&e:es){ if(undefined_at_generic(e)) continue; sr::scenario(text(e,{"x","y"}));
    Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; Nd f=node_of(e,cx); auto at=[&](auto&v){ cx.v[0]->set_current_value(v[0]); cx.v[1]->set_current_value(v[1]); };
    at(p); sr::eq(f->Eval<dbl>(),eval<dbl>(e,p).v,"value-double"); sr::eq(f->Eval<dbl>(),eval<dbl>(e,p).v,"value-double-again");
    at(P); sr::eq(f->Eval<mpc>(),eval<mpc>(e,P).v,"value-multiple");
    at(q); f->Reset(); dbl r; f->EvalInPlace<dbl>(r); sr::eq(r,eval<dbl>(e,q).v,"value-double-after-reset");
    at(Q2); mpc R; f->EvalInPlace<mpc>(R); sr::eq(R,eval<mpc>(e,Q2).v,"value-multiple-after-reset");
    // an outer named function and a second use of the same expression object
    auto g=bertini::node::Function::Make(f,"g"); Nd h=Nd(g)*f; at(p); h->Reset(); g->Reset(); dbl w=eval<dbl>(e,p).v; sr::eq(g->Eval<dbl>(),w,"function-wrapper"); sr::eq(h->Eval<dbl>(),w*w,"shared-subexpression"); }
}
