// Second derivatives obtained by differentiating twice.
#include "gen.hpp"
using namespace gen;
void sr_harness(){
  sr::explore_eq(false); DefaultPrecision(30);
  
#ifdef SR_THOROUGH
  auto in=inners();
#else
  auto in=small();
#endif
  std::vector<EP> es; int form=sr::choose("form",3); 
  if(form==0){ static const K ks[]={NEG,SQRT,EXP,LOG,SIN,COS,TAN,ASIN,ACOS,ATAN}; int k=sr::choose("op",17); static const int ps[]={-2,-1,0,1,2,3,5}; for(auto&a:in) es.push_back(k<10? un(ks[k],a) : powi(a,ps[k-10])); }
  else if(form==1){ int k=sr::choose("op",4); EP a=in[sr::choose("a",in.size())]; for(auto&b:in) es.push_back(mk(K(ADD+k),{a,b})); }
  else { std::vector<EP> ex={Q(1,2),Q(-1,2),F("c1"),V(1),V(0)+F("c0")}; EP a=in[sr::choose("a",in.size())]; for(auto&e:ex) es.push_back(powe(a,e)); }
  dbl a=sr::cplx("x"),b=sr::cplx("y"); std::vector<Dual<dbl>> p={Dual<dbl>(a),Dual<dbl>(b)}; p[0].d={dbl(1.0),dbl(0.0)}; p[1].d={dbl(0.0),dbl(1.0)};
  for(auto&e:es){ if(undefined_at_generic(e)) continue; sr::scenario(text(e,{"x","y"})); auto D=eval<Dual<dbl>>(e,p);
    Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; Nd f=node_of(e,cx); cx.v[0]->set_current_value(a); cx.v[1]->set_current_value(b);
    for(int i=0;i<2;i++) for(int j=0;j<2;j++){ dbl want=dget(dget(D,i),j); if(!finite(want)) continue; Nd g=f->Differentiate(cx.v[i])->Differentiate(cx.v[j]); sr::eq(g->Eval<dbl>(),want,"second-derivative"); } }
}
