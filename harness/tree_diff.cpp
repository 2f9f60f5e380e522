// Derivatives: both differentiation routes equal the mathematical derivative at every point.
#include "gen.hpp"
using namespace gen;
void sr_harness(){
  sr::explore_eq(false); DefaultPrecision(30);
  auto es=shape_family();
  std::vector<dbl> p={sr::cplx("x"),sr::cplx("y")},q={sr::cplx("x2"),sr::cplx("y2")}; std::vector<mpc> P={sr::cplx_mp("x"),sr::cplx_mp("y")};
  for(auto&e:es){ if(undefined_at_generic(e)) continue; sr::scenario(text(e,{"x","y"}));
    auto D=eval<dbl>(e,p); bool ok=finite(D.v); for(int i=0;i<2;i++) ok=ok&&finite(dget(D,i)); if(!ok) continue;
    auto D2=eval<dbl>(e,q); auto DM=eval<mpc>(e,P);
    Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; auto z=Variable::Make("z"); z->set_current_value(sr::cplx("z")); z->set_current_value(sr::cplx_mp("z")); Nd f=node_of(e,cx); auto at=[&](auto&v){ cx.v[0]->set_current_value(v[0]); cx.v[1]->set_current_value(v[1]); };
    // symbolic partial derivatives
    for(int i=0;i<2;i++){ std::string w=i?"y":"x"; Nd g=f->Differentiate(cx.v[i]); at(p); g->Reset(); sr::eq(g->Eval<dbl>(),dget(D,i),"partial-double"); at(q); g->Reset(); sr::eq(g->Eval<dbl>(),dget(D2,i),"partial-double-moved"); at(P); sr::eq(g->Eval<mpc>(),dget(DM,i),"partial-multiple"); }
    { Nd g=f->Differentiate(z); at(p); g->Reset(); sr::eq(g->Eval<dbl>(),dbl(0.0),"partial-absent-variable"); }
    // Jacobian expression, evaluated per direction, in interleaved order
    auto J=bertini::node::Jacobian::Make(f->Differentiate()); at(p); J->Reset(); sr::eq(J->EvalJ<dbl>(cx.v[0]),dget(D,0),"jacobian-x"); sr::eq(J->EvalJ<dbl>(cx.v[1]),dget(D,1),"jacobian-y"); sr::eq(J->EvalJ<dbl>(cx.v[0]),dget(D,0),"jacobian-x-again"); sr::eq(J->EvalJ<dbl>(z),dbl(0.0),"jacobian-absent-variable");
    at(q); J->Reset(); dbl r; J->EvalJInPlace<dbl>(r,cx.v[1]); sr::eq(r,dget(D2,1),"jacobian-y-moved"); at(P); sr::eq(J->EvalJ<mpc>(cx.v[1]),dget(DM,1),"jacobian-y-multiple"); sr::eq(J->EvalJ<mpc>(cx.v[0]),dget(DM,0),"jacobian-x-multiple");
    at(p); f->Reset(); sr::eq(f->Eval<dbl>(),D.v,"function-unchanged"); 
  }
}
