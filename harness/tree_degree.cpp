// Degrees, multidegrees, polynomiality and homogeneity reports are true statements about the function.
#include "poly.hpp"
using namespace gen;
static void polynomial_reports(){
  auto es=poly_family(); dbl x=sr::cplx("x"),y=sr::cplx("y");
  for(auto&e:es){ sr::scenario(text(e,{"x","y"})); Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; auto w=Variable::Make("w"); Nd f=node_of(e,cx); VariableGroup xy{cx.v[0],cx.v[1]},gx{cx.v[0]},gy{cx.v[1]},yx{cx.v[1],cx.v[0]},xyw{cx.v[0],w,cx.v[1]},gw{w};
    auto val=[&](dbl a,dbl b){ return eval<dbl>(e,{a,b}).v; };
    auto alongx=[&](double t){ return val(x*t,y); }; auto alongy=[&](double t){ return val(x,y*t); }; auto along=[&](double t){ return val(x*t,y*t); };
    int d=f->Degree(xy),dx=f->Degree(cx.v[0]),dy=f->Degree(cx.v[1]); assert_degree(along,d,"degree-group"); assert_degree(alongx,dx,"degree-x"); assert_degree(alongy,dy,"degree-y");
    auto rep=[&](int got,int want,const char*l){ sr::check(got==want,l,"reported "+std::to_string(got)+" expected "+std::to_string(want)); };
    rep(f->Degree(yx),d,"degree-group-reordered"); rep(f->Degree(xyw),d,"degree-group-extra-variable"); rep(f->Degree(gx),dx,"degree-group-x"); rep(f->Degree(gy),dy,"degree-group-y"); rep(f->Degree(gw),0,"degree-absent-group"); rep(f->Degree(w),0,"degree-absent"); rep(f->Degree(),d,"degree-total");
    auto md=f->MultiDegree(xy); sr::check(md.size()==2&&md[0]==dx&&md[1]==dy,"multidegree","reported "+std::to_string(md[0])+","+std::to_string(md[1])+" expected "+std::to_string(dx)+","+std::to_string(dy));
    sr::check(f->IsPolynomial(),"polynomial","");sr::check(f->IsPolynomial(xy)&&f->IsPolynomial(cx.v[0]),"polynomial-group","");
    dbl t=sr::cplx("lam"); auto defect=[&](bool rx,bool ry,int deg){ return val(rx?t*x:x,ry?t*y:y)-s_pow(t,deg)*val(x,y); };
    auto hom=[&](bool said,bool rx,bool ry,int deg,const char*l){ if(said) sr::eq(defect(rx,ry,deg),dbl(0.0),l); else sr::exists_nonzero(defect(rx,ry,deg),l); };
    hom(f->IsHomogeneous(xy),1,1,d,"homogeneous-group"); hom(f->IsHomogeneous(gx),1,0,dx,"homogeneous-group-x"); hom(f->IsHomogeneous(cx.v[1]),0,1,dy,"homogeneous-y"); hom(f->IsHomogeneous(),1,1,d,"homogeneous-total");
    auto g=bertini::node::Function::Make(f,"g"); rep(g->Degree(xy),d,"function-degree"); rep(g->Degree(cx.v[1]),dy,"function-degree-y"); sr::check(g->IsHomogeneous(xy)==f->IsHomogeneous(xy),"function-homogeneous",""); } }
static void nonpolynomial_reports(){ auto es=nonpolys(); for(auto&e:es){ sr::scenario(text(e,{"x","y"})); Ctx cx; cx.v={Variable::Make("x"),Variable::Make("y")}; Nd f=node_of(e,cx); VariableGroup xy{cx.v[0],cx.v[1]};
    sr::check(f->Degree()<0&&!f->IsPolynomial(),"nonpolynomial-total",std::to_string(f->Degree())); sr::check(f->Degree(xy)<0&&!f->IsPolynomial(xy),"nonpolynomial-group",std::to_string(f->Degree(xy))); auto md=f->MultiDegree(xy); int dx=f->Degree(cx.v[0]),dy=f->Degree(cx.v[1]); sr::check(dx<0||dy<0,"nonpolynomial-some-variable",""); sr::check((md[0]<0)==(dx<0)&&(md[1]<0)==(dy<0),"nonpolynomial-multidegree",std::to_string(md[0])+","+std::to_string(md[1])); } }
void sr_harness(){ sr::explore_eq(false); if(sr::choose("part",2)) nonpolynomial_reports(); else polynomial_reports(); }
