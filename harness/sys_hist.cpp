// Histories: whatever was done to a system (and to other systems sharing its pieces), it evaluates to its current expressions.
#include "sysgen.hpp"
using namespace gen;
static void all(const System&s,const Built&b,const std::string&l,const std::string&sfx){ compare<dbl>(s,b,l,sfx); compare<mpc>(s,b,l+"-mp",sfx); }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
  Spec sp; int em=sr::choose("evalmethod",2),dm=sr::choose("derivmethod",2); sp.em=em?EvalMethod::SLP:EvalMethod::FunctionTree; sp.dm=dm?DerivMethod::JacobianNode:DerivMethod::Derivatives; sp.path=sr::choose("path",2); sp.groups=sr::choose("g",2); int hp=sr::choose("hom",3); sp.hom=hp>0; sp.patch=hp>1;
  EP x=V(0),y=V(1),a=F("c0"),b0=F("c1"),T=V(2); std::vector<EP> fs={ a*powi(x,2)+b0*(x*y)-y, x*y+b0 }, gs={ powi(x+a,2)*y, T*x-a }; if(!sp.path) gs[1]=x-a; sp.f=fs; Spec sg=sp; sg.f=gs;
  int hist=sr::choose("history",22); bool pre=sr::choose("pre",2); // pre: the system was evaluated before
  Built b=build(sp); if(pre) all(b.s,b,"before","0");
  auto fresh_sys=[&](const std::vector<EP>&f){ Spec q=sp; q.f=f; return q; };
  switch(hist){
   case 0:{ System c(b.s); all(c,b,"copy","1"); all(b.s,b,"copied-from","2"); break; }
   case 1:{ System c; c=b.s; all(c,b,"assigned","1"); all(b.s,b,"assigned-from","2"); break; }
   case 2:{ System c(std::move(b.s)); all(c,b,"moved","1"); break; }
   case 3:{ System c; c=std::move(b.s); all(c,b,"move-assigned","1"); break; }
   case 4:{ Spec q=sg; Built o=build(q); if(pre) all(o.s,o,"other-before","0"); swap(b.s,o.s); all(b.s,o,"swapped","1"); all(o.s,b,"swapped","2"); break; }
   case 5:{ System c=Clone(b.s); all(c,b,"clone","1"); all(b.s,b,"cloned-from","2"); break; }
   case 6:{ b.s.SetEvalMethod(em?EvalMethod::FunctionTree:EvalMethod::SLP); all(b.s,b,"other-evalmethod","1"); b.s.SetEvalMethod(sp.em); all(b.s,b,"evalmethod-back","2"); break; }
   case 7:{ b.s.SetDerivMethod(dm?DerivMethod::Derivatives:DerivMethod::JacobianNode); all(b.s,b,"other-derivmethod","1"); break; }
   case 8:{ if(sp.hom) sr::prune(); b.s.AddFunction(node_of(gs[0],b.cx)); b.ref.push_back(gs[0]); all(b.s,b,"function-added","1"); break; }
   case 9:{ // reordering: the functions come out as a permutation of what they were, sorted by degree
     int inc=sr::choose("inc",2); if(!sp.hom){ b.s.AddFunction(node_of(gs[1],b.cx)); b.s.AddFunction(node_of(gs[0],b.cx)); b.ref.push_back(gs[1]); b.ref.push_back(gs[0]); if(pre) all(b.s,b,"before-reorder","0"); }
     if(inc) b.s.ReorderFunctionsByDegreeIncreasing(); else b.s.ReorderFunctionsByDegreeDecreasing();
     auto d=b.s.Degrees(b.s.Variables()); for(size_t i=0;i+1<d.size();i++) sr::check(inc? d[i]<=d[i+1] : d[i]>=d[i+1],"sorted-by-degree","");
     auto p=point<dbl>("s"); for(size_t i=0;i<b.ord.size();i++) b.s.Variables()[i]->set_current_value(p[b.ord[i]]); if(sp.path) b.cx.v[2]->set_current_value(p[2]);
     std::vector<EP> q; std::vector<char> used(b.ref.size(),0); for(size_t i=0;i<b.ref.size();i++){ auto fn=b.s.Function(i); fn->Reset(); dbl val=fn->Eval<dbl>(); int m=-1; for(size_t j=0;j<b.ref.size()&&m<0;j++) if(!used[j]&&sr::is_zero(dbl(val-eval<dbl>(b.ref[j],p).v))) m=j; sr::check(m>=0,"reordered-is-permutation",""); if(m<0) return; used[m]=1; q.push_back(b.ref[m]); }
     b.ref=q; all(b.s,b,"reordered","1"); break; }
   case 10:{ auto d=b.s.GetSpaceDerivatives(); if(sp.path) b.s.GetTimeDerivatives(); all(b.s,b,"derivatives-asked","1"); break; }
   case 11:{ System c=b.s; Built o=build(sg); std::vector<EP> q; 
     // scale by a constant node and by the path variable: the original is untouched
     Nd k=node::Float::Make(sr::cplx_mp("k0")); System m=c*k; Built bm=b; for(auto&e:bm.ref) e=e*F("k0"); all(m,bm,"scaled","1"); all(b.s,b,"scaled-from","2"); System m2=k*c; all(m2,bm,"scaled-left","1"); break; }
   case 12:{ Nd k=node::Float::Make(sr::cplx_mp("k0")); System c=b.s; c*=k; Built bm=b; for(auto&e:bm.ref) e=e*F("k0"); all(c,bm,"scaled-in-place","1"); all(b.s,b,"scaled-copy-source","2"); break; }
   case 13: case 14:{ // sums of systems in the same variables
     if(sp.hom) sr::prune(); System o; o.SetEvalMethod(sp.em); o.SetDerivMethod(sp.dm); auto&v=b.cx.v; o.CopyVariableStructure(b.s); for(auto&e:gs) o.AddFunction(node_of(e,b.cx)); Built bo=b; bo.ref=gs; if(pre) all(o,bo,"rhs-before","0"); Built bs=b; for(size_t i=0;i<bs.ref.size();i++) bs.ref[i]=b.ref[i]+gs[i]; (void)v;
     if(hist==13){ System c=b.s; c+=o; all(c,bs,"added-in-place","1"); } else { System c=b.s+o; all(c,bs,"added","1"); } all(b.s,b,"addend","2"); all(o,bo,"addend2","3"); break; }
   case 15:{ System o; o.SetEvalMethod(sp.em); o.SetDerivMethod(sp.dm); if(sp.hom) sr::prune(); o.CopyVariableStructure(b.s); for(auto&e:gs) o.AddFunction(node_of(e,b.cx)); Built bo=b; bo.ref=gs; if(pre) all(o,bo,"rhs-before","0"); System c=Concatenate(b.s,o); Built bc=b; for(auto&e:gs) bc.ref.push_back(e); all(c,bc,"concatenated","1"); all(b.s,b,"concat-source","2"); all(o,bo,"concat-source2","3"); System d=Concatenate(b.s,b.s); bc.ref=b.ref; for(auto&e:b.ref) bc.ref.push_back(e); all(d,bc,"concatenated-with-itself","1"); break; }
   case 16:{ // simplification with the variables holding particular values
     int st=sr::choose("state",3); dbl val= st==0? sr::cplx("q") : st==1? dbl(0.0) : dbl(1.0); for(auto&v:b.s.Variables()) v->set_current_value(val); if(sp.path) b.cx.v[2]->set_current_value(val); for(unsigned i=0;i<b.s.NumNaturalFunctions();i++) b.s.Function(i)->Reset(); b.s.Simplify(); all(b.s,b,"simplified","1"); break; }
   case 17:{ // functions referring to each other
     if(sp.hom) sr::prune(); auto f0=node::Function::Make("p"),f1=node::Function::Make(node_of(gs[0],b.cx),"q"); f0->SetRoot(Nd(f1)*node_of(x,b.cx)+node_of(y,b.cx)); b.s.AddFunction(f0); b.s.AddFunction(f1); b.ref.push_back(gs[0]*x+y); b.ref.push_back(gs[0]); all(b.s,b,"mutual-reference","1"); break; }
   case 18:{ // implicit parameters
     if(sp.hom) sr::prune(); auto q=Variable::Make("q"); b.s.AddImplicitParameter(q); b.s.AddFunction(Nd(q)*node_of(x,b.cx)+node_of(y,b.cx)); b.ref.push_back(F("q0")*x+y); Vc<dbl> vq(1); vq(0)=sr::cplx("q0"); Vc<mpc> Vq(1); Vq(0)=sr::cplx_mp("q0"); b.s.SetImplicitParameters(vq); b.s.SetImplicitParameters(Vq); all(b.s,b,"parameter","1"); b.ref.back()=F("q1")*x+y; vq(0)=sr::cplx("q1"); Vq(0)=sr::cplx_mp("q1"); b.s.SetImplicitParameters(vq); b.s.SetImplicitParameters(Vq); all(b.s,b,"parameter-changed","1"); all(b.s,b,"parameter-changed","2"); break; }
   case 19:{ // both number types set before either is evaluated
     auto p=point<dbl>("1"); auto v=ordered<dbl>(b,p); auto P=point<mpc>("2"); auto Vm=ordered<mpc>(b,P); if(sp.path){ b.s.SetAndReset<dbl>(v,p[2]); b.s.SetAndReset<mpc>(Vm,P[2]); } else { b.s.SetAndReset<dbl>(v); b.s.SetAndReset<mpc>(Vm); }
     if(em){ compare<dbl>(b.s,b,"interleaved","1",15,false); compare<mpc>(b.s,b,"interleaved-mp","2",15,false); } else { compare<mpc>(b.s,b,"interleaved-mp","2",15,false); } break; }
   case 20:{ // new variable group after patching drops the patch
     b.s.AddVariableGroup(VariableGroup{Variable::Make("w")}); if(sp.hom) sr::prune(); b.ord.push_back(3); all(b.s,b,"variable-added","1"); break; }
   case 21:{ // precision changes do not alter values
     b.s.precision(40); b.s.precision(30); all(b.s,b,"precision-cycled","1"); break; }
  }
}
