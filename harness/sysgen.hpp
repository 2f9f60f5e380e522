// Polynomial and analytic systems with a reference semantics (values, Jacobian, time derivative through dual numbers).
#pragma once
#include "gen.hpp"
#include <bertini2/system/system.hpp>
#include "rand_stub.hpp"
namespace gen {
// variables: 0=x 1=y 2=t ; homogenizing variables are appended as 3,4
struct Spec{ int groups=0; bool path=false, hom=false, patch=false; EvalMethod em=EvalMethod::SLP; DerivMethod dm=DerivMethod::Derivatives; bool simp=true; std::vector<EP> f; std::vector<EP> subs; };
struct Built{ System s; Ctx cx; std::vector<std::vector<int>> order; std::vector<int> ord; std::vector<EP> ref; Spec sp; };
inline EP subst(const EP&e,const std::map<int,EP>&m){ if(e->k==VAR){ auto it=m.find(e->i); return it==m.end()?e:it->second; } if(e->c.empty()) return e; auto n=std::make_shared<Ex>(*e); for(auto&c:n->c) c=subst(c,m); return n; }
inline std::vector<int> degs_by_group(const Built&b,const EP&e);
template<class T> using Vc=Eigen::Matrix<T,Eigen::Dynamic,1>; template<class T> using Mt=Eigen::Matrix<T,Eigen::Dynamic,Eigen::Dynamic>;
inline Built build(const Spec&sp){ Built b; b.sp=sp; b.cx.v={Variable::Make("x"),Variable::Make("y"),Variable::Make("t")}; auto&v=b.cx.v; System&s=b.s;
  s.SetEvalMethod(sp.em); s.SetDerivMethod(sp.dm); s.SetAutoSimplify(sp.simp);
  switch(sp.groups){ case 0: s.AddVariableGroup(VariableGroup{v[0],v[1]}); break; case 1: s.AddVariableGroup(VariableGroup{v[0]}); s.AddVariableGroup(VariableGroup{v[1]}); break; case 2: s.AddUngroupedVariable(v[0]); s.AddUngroupedVariable(v[1]); break; case 3: s.AddUngroupedVariable(v[1]); s.AddVariableGroup(VariableGroup{v[0]}); break; default: s.AddHomVariableGroup(VariableGroup{v[0],v[1]}); }
  if(sp.path) s.AddPathVariable(v[2]);
  for(auto&e:sp.subs){ auto fn=node::Function::Make(node_of(e,b.cx),"sub"); b.cx.memo[e.get()]=fn; s.AddSubfunction(fn); }
  std::vector<std::vector<int>> gd; for(auto&e:sp.f){ Nd n=node_of(e,b.cx); std::vector<int> d; if(sp.hom){ for(auto&g:s.VariableGroups()) d.push_back(n->Degree(g)); } gd.push_back(d); s.AddFunction(n); }
  b.ref=sp.f; switch(sp.groups){ case 0: case 2: case 4: b.ord={0,1}; break; case 1: b.ord={0,1}; break; case 3: b.ord={1,0}; break; }
  if(sp.hom){ s.Homogenize(); EP h0=V(3),h1=V(4); std::map<int,EP> m; if(sp.groups==0){ m[0]=V(0)/h0; m[1]=V(1)/h0; b.ord={3,0,1}; } else if(sp.groups==1){ m[0]=V(0)/h0; m[1]=V(1)/h1; b.ord={3,0,4,1}; } else if(sp.groups==3){ m[0]=V(0)/h0; b.ord={1,3,0}; }
    for(size_t i=0;i<b.ref.size();i++){ EP e=subst(b.ref[i],m); if(gd[i].size()>0) e=powi(h0,gd[i][0])*e; if(gd[i].size()>1) e=powi(h1,gd[i][1])*e; b.ref[i]=e; } }
  if(sp.patch){ auto m=sr::rand_mode; sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; s.AutoPatch(); sr::rand_mode=m; }
  return b; }
template<class T> std::vector<T> point(const std::string&sfx=""){ return { sym<T>("x"+sfx),sym<T>("y"+sfx),sym<T>("t"+sfx),sym<T>("h"+sfx),sym<T>("k"+sfx) }; }
template<class T> Vc<T> ordered(const Built&b,const std::vector<T>&p){ Vc<T> r(b.ord.size()); for(size_t i=0;i<b.ord.size();i++) r(i)=p[b.ord[i]]; return r; }
// expected values at p
template<class T> struct Expect{ std::vector<T> f; std::vector<std::vector<T>> J; std::vector<T> dt; };
template<class T> Expect<T> expect(const Built&b,const std::vector<T>&p){ Expect<T> e; for(auto&r:b.ref){ auto D=eval<T>(r,p); e.f.push_back(D.v); std::vector<T> row; for(int o:b.ord) row.push_back(dget(D,o)); e.J.push_back(row); e.dt.push_back(dget(D,2)); } return e; }
template<class T> void patch_rows(const System&s,const Built&b,const Vc<T>&v,Expect<T>&e){ if(!s.IsPatched()) return; auto P=s.GetPatch(); auto sz=s.VariableGroupSizes(); Mt<T> C=P.template Jacobian<T>(v); int off=0; for(size_t g=0;g<sz.size();g++){ T val=lit<T>(-1); std::vector<T> row(b.ord.size(),lit<T>(0)); for(unsigned j=0;j<sz[g];j++){ row[off+j]=C(g,off+j); val=T(val+T(row[off+j]*v(off+j))); } off+=sz[g]; e.f.push_back(val); e.J.push_back(row); e.dt.push_back(lit<T>(0)); } }
// compare a system against its reference at a point; label says which public entry was used
template<class T> void compare(const System&s,const Built&b,const std::string&l,const std::string&sfx="",int what=7,bool fresh=true){ auto p=point<T>(sfx); auto v=ordered<T>(b,p); auto e=expect<T>(b,p); patch_rows<T>(s,b,v,e); bool path=b.sp.path; size_t m=e.f.size();
  sr::check(s.NumTotalFunctions()==m,l+"-count",""); if(s.NumTotalFunctions()!=m) return;
  if(what&1){ Vc<T> f= !fresh? s.template Eval<T>() : path? s.Eval(v,p[2]) : s.Eval(v); sr::check(size_t(f.size())==m,l+"-size",""); for(size_t i=0;i<m;i++) sr::eq(T(f(i)),e.f[i],l+"-value"); }
  if(what&2){ Mt<T> J= !fresh||(what&1&&(what&8))? s.template Jacobian<T>() : path? s.Jacobian(v,p[2]) : s.Jacobian(v); sr::check(size_t(J.rows())==m&&size_t(J.cols())==b.ord.size(),l+"-jac-size",""); for(size_t i=0;i<m;i++) for(size_t j=0;j<b.ord.size();j++) sr::eq(T(J(i,j)),e.J[i][j],l+"-jacobian"); }
  if((what&4)&&path){ Vc<T> d= !fresh||(what&3&&(what&8))? s.template TimeDerivative<T>() : s.TimeDerivative(v,p[2]); for(size_t i=0;i<m;i++) sr::eq(T(d(i)),e.dt[i],l+"-timederiv"); } }
// functions of a system: polynomials and analytic functions in x,y,t
inline std::vector<EP> sys_polys(bool t){ EP x=V(0),y=V(1),a=F("c0"),b=F("c1"); EP T=V(2); std::vector<EP> r={ x,a,x*y+b,powi(x,2)-y,a*powi(x,2)+b*(x*y)-y,powi(x+a,2)*y,(x+a)*(y+b),powi(x*y,2)-I(1),-(x+y),powi(x-y,3),(x*y+b)/a,x*(y*x)-Q(3,2),(x-b)-(y-a) }; if(t){ r.push_back((I(1)-T)*(powi(x,2)-I(1))+T*(powi(x,2)+b*y)); r.push_back(powi(T,2)*x*y-a); r.push_back(T*x+b); r.push_back((x-T)*(y+T)); } return r; }
inline std::vector<EP> sys_nonpolys(bool t){ EP x=V(0),y=V(1),a=F("c0"),b=F("c1"); EP T=V(2); std::vector<EP> r={ un(EXP,x)*y,un(SIN,x*y)+a,un(COS,x)-y,un(LOG,x+a)*y,un(SQRT,x)+y,x/y,a/(x*y),powi(x,-2)+y,un(TAN,x),un(ASIN,x*a),un(ACOS,y),un(ATAN,x-y),powe(x,Q(1,2)),powe(x,F("c1"))*y,powe(I(2),y),mk(PI_)*x+mk(E_)*y,mk(I_)*x,powe(x,y),x/y/a }; if(t){ r.push_back(un(EXP,T*x)); r.push_back(x/(T+a)); r.push_back(un(SIN,T)*y); } return r; }
}
