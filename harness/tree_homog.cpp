// Homogenization of an expression.
#include "poly.hpp"
using namespace gen;
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
  int groups=sr::choose("groups",3); bool share=sr::choose("share",2); auto es=poly_family(); dbl x=sr::cplx("x"),y=sr::cplx("y"),h=sr::cplx("h"),k=sr::cplx("k"),lam=sr::cplx("lam"),mu=sr::cplx("mu");
  for(auto&e:es){ sr::scenario(text(e,{"x","y"})); Ctx cx; cx.share=share; cx.v={Variable::Make("x"),Variable::Make("y")}; auto H=Variable::Make("H"),K=Variable::Make("K"); Nd f=node_of(e,cx); auto val=[&](dbl a,dbl b){ return eval<dbl>(e,{a,b}).v; };
    auto F=[&](dbl a,dbl b,dbl c,dbl d){ cx.v[0]->set_current_value(a); cx.v[1]->set_current_value(b); H->set_current_value(c); K->set_current_value(d); f->Reset(); return f->Eval<dbl>(); };
    if(groups<2){ VariableGroup xy{cx.v[0],cx.v[1]}; int d=f->Degree(xy); f->Homogenize(xy,H); if(groups==1){ VariableGroup hxy{H,cx.v[0],cx.v[1]}; f->Homogenize(hxy,H); }
      sr::eq(F(x,y,1.0,1.0),val(x,y),"dehomogenizes"); sr::eq(F(lam*x,lam*y,lam*h,1.0),s_pow(lam,d)*F(x,y,h,1.0),"homogeneous-of-degree"); VariableGroup hxy{H,cx.v[0],cx.v[1]}; sr::check(f->IsHomogeneous(hxy),"reported-homogeneous",""); sr::check(f->Degree(hxy)==d,"reported-degree",""); }
    else { VariableGroup gx{cx.v[0]},gy{cx.v[1]}; int dx=f->Degree(gx),dy=f->Degree(gy); f->Homogenize(gx,H); f->Homogenize(gy,K); sr::eq(F(x,y,1.0,1.0),val(x,y),"dehomogenizes-two-groups"); sr::eq(F(lam*x,mu*y,lam*h,mu*k),s_pow(lam,dx)*s_pow(mu,dy)*F(x,y,h,k),"two-homogeneous"); VariableGroup hx{H,cx.v[0]},ky{cx.v[1],K}; sr::check(f->IsHomogeneous(hx)&&f->IsHomogeneous(ky),"reported-two-homogeneous",""); } }
}
