// Sequences of operations on one system, from any starting configuration; then it must evaluate to its current functions.
#include "sysgen.hpp"
using namespace gen;
static const int NOPS=26;
struct St{ Built b; int extra=0; std::string par; };
static void setpar(System&s,const std::string&nm){ Vc<dbl> vq(1); Vc<mpc> Vq(1); vq(0)=sr::cplx(nm); Vq(0)=sr::cplx_mp(nm); s.SetImplicitParameters(vq); s.SetImplicitParameters(Vq); }
static void all(const System&s,const Built&b,const std::string&l,const std::string&sfx){ compare<dbl>(s,b,l,sfx); compare<mpc>(s,b,l+"-mp",sfx); }
// returns false when the operation does not apply
static bool op(int k,St&st,int step){ Built&b=st.b; System&s=b.s; const Spec&sp=b.sp; EP x=V(0),y=V(1),T=V(2),a=F("c0"),g=powi(x+a,2)*y,g2= sp.path? T*x-a : x-a; std::string n=std::to_string(step);
  switch(k){
   case 0: all(s,b,"seq-evaluated","e"+n); return true;
   case 1:{ System c(s); s=c; return true; }
   case 2:{ System c(std::move(s)); s=std::move(c); return true; }
   case 3:{ System c; swap(c,s); swap(c,s); return true; }
   case 4:{ System c=Clone(s); s=c; // the clone has its own variables: later operations use them
     auto&v=s.Variables(); for(size_t i=0;i<b.ord.size();i++) if(b.ord[i]<3) b.cx.v[b.ord[i]]=v[i]; if(sp.path) b.cx.v[2]=s.GetPathVariable(); b.cx.memo.clear(); if(!st.par.empty()) setpar(s,st.par); return true; } // values of parameters are not part of a system
   case 5: s.SetEvalMethod(sp.em==EvalMethod::SLP?EvalMethod::FunctionTree:EvalMethod::SLP); b.sp.em=s.GetEvalMethod(); return true;
   case 6: s.SetDerivMethod(sp.dm==DerivMethod::Derivatives?DerivMethod::JacobianNode:DerivMethod::Derivatives); b.sp.dm=s.GetDerivMethod(); return true;
   case 7: s.AddFunction(node_of(g,b.cx)); b.ref.push_back(g); return true;
   case 8:{ std::vector<std::shared_ptr<node::Function>> v={node::Function::Make(node_of(g2,b.cx),"g2"),node::Function::Make(node_of(x*y,b.cx),"xy")}; s.AddFunctions(v); b.ref.push_back(g2); b.ref.push_back(x*y); return true; }
   case 9: case 10:{ if(k==9) s.ReorderFunctionsByDegreeIncreasing(); else s.ReorderFunctionsByDegreeDecreasing(); auto p=point<dbl>("s"); for(size_t i=0;i<b.ord.size();i++) s.Variables()[i]->set_current_value(p[b.ord[i]]); if(sp.path) s.GetPathVariable()->set_current_value(p[2]);
     std::vector<EP> q; std::vector<char> used(b.ref.size(),0); for(size_t i=0;i<b.ref.size();i++){ auto fn=s.Function(i); fn->Reset(); dbl val=fn->Eval<dbl>(); int m=-1; for(size_t j=0;j<b.ref.size()&&m<0;j++) if(!used[j]&&sr::is_zero(dbl(val-eval<dbl>(b.ref[j],p).v))) m=j; sr::check(m>=0,"seq-reordered-is-permutation",""); if(m<0) return false; used[m]=1; q.push_back(b.ref[m]); } b.ref=q; return true; }
   case 11: s.GetSpaceDerivatives(); return true;
   case 12: if(!sp.path) return false; s.GetTimeDerivatives(); return true;
   case 13:{ Nd kk=node::Float::Make(sr::cplx_mp("k"+n)); s*=kk; for(auto&e:b.ref) e=F("k"+n)*e; return true; }
   case 14:{ if(!sp.path) return false; s=Nd(b.cx.v[2])*s; for(auto&e:b.ref) e=T*e; return true; }
   case 15:{ System o; o.CopyVariableStructure(s); for(size_t i=0;i<b.ref.size();i++) o.AddFunction(node_of(i%2?x*y-a:g,b.cx)); s+=o; for(size_t i=0;i<b.ref.size();i++) b.ref[i]=b.ref[i]+(i%2?x*y-a:g); return true; }
   case 16:{ System o(s); s=s+o; for(auto&e:b.ref) e=e+e; return true; }
   case 17:{ System o; o.CopyVariableStructure(s); o.AddFunction(node_of(g2,b.cx)); s=Concatenate(s,o); b.ref.push_back(g2); return true; }
   case 18: for(auto&v:s.Variables()) v->set_current_value(dbl(0.0)); if(sp.path) b.cx.v[2]->set_current_value(dbl(0.0)); for(unsigned i=0;i<s.NumNaturalFunctions();i++) s.Function(i)->Reset(); s.Simplify(); return true;
   case 19:{ auto f1=node::Function::Make(node_of(g,b.cx),"q"); auto f0=node::Function::Make(Nd(f1)*node_of(x,b.cx)+node_of(y,b.cx),"p"); s.AddSubfunction(f1); s.AddFunction(f0); b.ref.push_back(g*x+y); return true; }
   case 20:{ auto q=Variable::Make("q"+n); s.AddImplicitParameter(q); s.AddFunction(Nd(q)*node_of(x,b.cx)); b.ref.push_back(F("q"+n)*x); if(s.NumImplicitParameters()>1) return false; st.par="q"+n; setpar(s,st.par); return true; }
   case 21: s.precision(40); s.precision(30); return true;
   case 22:{ if(sp.hom) return false; s.AddUngroupedVariable(Variable::Make("w"+n)); b.ord.push_back(3); return true; }
   case 23:{ if(sp.path) return false; s.AddPathVariable(b.cx.v[2]); b.sp.path=true; s.AddFunction(node_of(T*x+y,b.cx)); b.ref.push_back(T*x+y); return true; }
   case 24:{ if(sp.hom||sp.groups>1||st.extra||b.ord.size()>2) return false; std::vector<std::vector<int>> gd; for(unsigned i=0;i<s.NumNaturalFunctions();i++){ std::vector<int> d; for(auto&gr:s.VariableGroups()) d.push_back(s.Function(i)->Degree(gr)); gd.push_back(d); }
     s.Homogenize(); b.sp.hom=true; EP h0=V(3),h1=V(4); std::map<int,EP> m; if(sp.groups==0){ m[0]=V(0)/h0; m[1]=V(1)/h0; b.ord={3,0,1}; } else { m[0]=V(0)/h0; m[1]=V(1)/h1; b.ord={3,0,4,1}; }
     for(size_t i=0;i<b.ref.size();i++){ EP e=powi(h0,gd[i][0])*subst(b.ref[i],m); if(gd[i].size()>1) e=powi(h1,gd[i][1])*e; b.ref[i]=e; } b.cx.memo.clear(); return true; }
   case 25:{ if(!sp.hom||s.IsPatched()||!s.IsHomogeneous()) return false; auto md=sr::rand_mode; sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; s.AutoPatch(); sr::rand_mode=md; b.sp.patch=true; return true; }
  } return false; }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
  Spec sp; int cf=sr::choose("config",4); sp.em=cf&1?EvalMethod::SLP:EvalMethod::FunctionTree; 
#ifdef SR_THOROUGH
  int dm=sr::choose("derivmethod",2); sp.path=sr::choose("path",2); sp.groups=sr::choose("g",2); int N=3;
#else
  int dm=cf==1||cf==2; sp.path=cf!=3; sp.groups=cf>1; int N=2;
#endif
  sp.dm=dm?DerivMethod::JacobianNode:DerivMethod::Derivatives; int hp=sr::choose("hom",3); sp.hom=hp>0; sp.patch=hp>1;
  EP x=V(0),y=V(1),a=F("c0"),b0=F("c1"),T=V(2); sp.f={ a*powi(x,2)+b0*(x*y)-y, x*y+b0 }; if(sp.path) sp.f.push_back(T*x-powi(y,3));
  St st; st.b=build(sp); std::vector<int> ks; for(int i=0;i<N;i++) ks.push_back(sr::choose("op"+std::to_string(i),NOPS)); 
  for(int last=0;last<1;last++){ std::string sc; for(int i=0;i<N;i++) sc+=" "+std::to_string(ks[i]); sr::scenario("ops"+sc); for(int i=0;i<N;i++){ if(!op(ks[i],st,i)) sr::prune(); 
#ifndef SR_THOROUGH
      if(i==0) all(st.b.s,st.b,"seq-mid","m");
#endif
    } all(st.b.s,st.b,"seq-final","f"); }
}
