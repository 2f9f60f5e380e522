// Simplification never changes the function.
#include "gen.hpp"
#include <bertini2/function_tree/simplify.hpp>
using namespace gen;
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
  auto es=shape_family(); dbl x=sr::cplx("x"),y=sr::cplx("y"); std::vector<dbl> p={x,y}; std::vector<mpc> P={sr::cplx_mp("x"),sr::cplx_mp("y")};
  for(auto&e:es){ if(undefined_at_generic(e)) continue; sr::scenario(text(e,{"x","y"})); auto D=eval<dbl>(e,p); if(!finite(D.v)) continue; int steps=sr::native?3:3;
    for(int which=0;which<steps;which++){ Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; Nd f=node_of(e,cx); auto at=[&](auto a,auto b){ cx.v[0]->set_current_value(a); cx.v[1]->set_current_value(b); };
      at(x,y);
      if(which==0) Simplify(f); else if(which==1){ f->EliminateZeros(); f->EliminateOnes(); } else f->ReduceDepth();
      at(x,y); f->Reset(); sr::eq(f->Eval<dbl>(),D.v,"simplified-value"); at(P[0],P[1]); f->Reset(); sr::eq(f->Eval<mpc>(),eval<mpc>(e,P).v,"simplified-value-multiple"); if(which==0){ bool ok=finite(dget(D,0)); if(ok){ Nd g=f->Differentiate(cx.v[0]); Simplify(g); at(x,y); g->Reset(); sr::eq(g->Eval<dbl>(),dget(D,0),"simplified-derivative"); } } } }
}
