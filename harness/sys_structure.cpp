// Variable structure of a system: ordering, counts, homogenization, patching, dehomogenization of points, degrees.
#include "sysgen.hpp"
using namespace gen;
struct Gp{ int type; std::vector<Vr> v; int first; }; // type 0/1 affine of size 1/2, 2 homogeneous of size 2, 3 ungrouped
template<class T> void run(System&s,const std::vector<Gp>&gs,const std::vector<std::vector<int>>&deg,const std::vector<EP>&f,bool patched,int nv,const std::string&l){
  // a point: every variable symbolic, homogenizing coordinates symbolic
  std::vector<T> p; for(int i=0;i<nv;i++) p.push_back(sym<T>("v"+std::to_string(i))); std::vector<T> h; for(size_t g=0;g<gs.size();g++) h.push_back(sym<T>("h"+std::to_string(g)));
  std::vector<T> full,nat; for(size_t g=0;g<gs.size();g++){ if(gs[g].type<2) full.push_back(h[g]); for(size_t j=0;j<gs[g].v.size();j++){ full.push_back(p[gs[g].first+j]); nat.push_back(gs[g].type<2? T(p[gs[g].first+j]/h[g]) : p[gs[g].first+j]); } }
  Vc<T> x(full.size()); for(size_t i=0;i<full.size();i++) x(i)=full[i]; 
  sr::check(s.NumVariables()==full.size(),l+"-number-of-variables",""); if(s.NumVariables()!=full.size()) return;
  Vc<T> d=s.DehomogenizePoint(x); sr::check(size_t(d.size())==nat.size(),l+"-dehomogenized-size",""); if(size_t(d.size())!=nat.size()) return; for(size_t i=0;i<nat.size();i++) sr::eq(T(d(i)),nat[i],l+"-dehomogenized");
  // homogenized function at the point = prod h^deg * function at the dehomogenized point
  Vc<T> val=s.Eval(x); sr::check(size_t(val.size())==s.NumTotalFunctions(),l+"-size",""); std::vector<T> at(nv); { size_t k=0; for(size_t g=0;g<gs.size();g++) for(size_t j=0;j<gs[g].v.size();j++) at[gs[g].first+j]=nat[k++]; }
  for(size_t i=0;i<f.size();i++){ T e=eval<T>(f[i],at).v; for(size_t g=0;g<gs.size();g++) if(gs[g].type<2) e=T(e*s_pow(h[g],deg[i][g])); sr::eq(T(val(i)),e,l+"-homogenized-value"); }
  if(patched){ Vc<T> y(x); auto P=s.GetPatch(); P.RescalePointToFitInPlace(y); Vc<T> v2=s.Eval(y); for(size_t i=f.size();i<s.NumTotalFunctions();i++) sr::eq(T(v2(i)),lit<T>(0),l+"-rescaled-on-patch"); Vc<T> d2=s.DehomogenizePoint(y); size_t k=0; for(size_t g=0;g<gs.size();g++){ if(gs[g].type<2) for(size_t j=0;j<gs[g].v.size();j++) sr::eq(T(d2(k+j)),nat[k+j],l+"-rescaled-same-point"); else for(size_t j=0;j+1<gs[g].v.size();j++) sr::eq(T(d2(k+j)*nat[k+j+1]),T(d2(k+j+1)*nat[k+j]),l+"-rescaled-same-projective"); k+=gs[g].v.size(); }
    Vc<T> y3(x); s.RescalePointToFitPatchInPlace(y3); for(int i=0;i<y.size();i++) sr::eq(T(y3(i)),T(y(i)),l+"-system-rescales"); Vc<T> y4=s.RescalePointToFitPatch(x); for(int i=0;i<y.size();i++) sr::eq(T(y4(i)),T(y(i)),l+"-system-rescaled-copy"); } }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30);
#ifdef SR_THOROUGH
  int N=1+sr::choose("groups",4);
#else
  int N=1+sr::choose("groups",3);
#endif
  std::vector<Gp> gs; int nv=0; System s; bool aff=false,hom=false,ung=false; std::vector<Vr> vars;
  for(int i=0;i<N;i++){ Gp g; g.type=sr::choose("type"+std::to_string(i),4); int k= g.type==0||g.type==3?1:2; g.first=nv; for(int j=0;j<k;j++){ g.v.push_back(Variable::Make("v"+std::to_string(nv))); vars.push_back(g.v.back()); nv++; } gs.push_back(g); VariableGroup vg(g.v.begin(),g.v.end()); if(g.type<2){ s.AddVariableGroup(vg); aff=true; } else if(g.type==2){ s.AddHomVariableGroup(vg); hom=true; } else { s.AddUngroupedVariable(g.v[0]); ung=true; } }
  int way=sr::choose("way",4); // 0 plain, 1 homogenized, 2 homogenized and patched, 3 homogenized twice (function added in between)
  s.SetEvalMethod(sr::choose("em",2)?EvalMethod::SLP:EvalMethod::FunctionTree);
  // functions: linear forms in homogeneous groups; general in the others
  std::vector<EP> f; std::vector<std::vector<int>> deg; Ctx cx; cx.v=vars; bool homug = way==2; // a patch demands homogeneity in the ungrouped variables as well
  for(int k=0;k<3;k++){ EP e; std::vector<int> dg(N,0); if(k==0){ e=F("k0"); for(int g=0;g<N;g++){ EP q; if(gs[g].type==2){ q=F("k1")*V(gs[g].first)-V(gs[g].first+1); dg[g]=1; } else if(gs[g].type==3){ q=homug?V(gs[g].first):V(gs[g].first)+F("k2"); dg[g]=1; } else if(gs[g].type==0){ q=powi(V(gs[g].first),2)+F("k2"); dg[g]=2; } else { q=powi(V(gs[g].first),2)*V(gs[g].first+1)-F("k1"); dg[g]=3; } e=e*q; } }
    else { // a sum: one term has the first group's variable, the other the last group's
      std::vector<EP> terms; EP homf; for(int g=0;g<N;g++) if(gs[g].type==2||(gs[g].type==3&&homug)){ EP q= gs[g].type==2? (k==1?V(gs[g].first):V(gs[g].first+1)-F("k1")*V(gs[g].first)) : V(gs[g].first); homf=homf?homf*q:q; dg[g]=1; }
      EP sum=F("k3"); for(int g=0;g<N;g++){ if(gs[g].type<2){ int e2= k==1? 1+g%2 : 2-g%2; sum= k==1? sum+powi(V(gs[g].first),e2)*F("k"+std::to_string(4+g)) : sum-F("k"+std::to_string(4+g))*powi(V(gs[g].first+int(gs[g].v.size())-1),e2); dg[g]=e2; } if(gs[g].type==3&&!homug){ sum=sum+V(gs[g].first); dg[g]=1; } } e= homf? sum*homf : sum; }
    f.push_back(e); deg.push_back(dg); }
  for(int k=0;k<2;k++) s.AddFunction(node_of(f[k],cx)); if(way!=3) s.AddFunction(node_of(f[2],cx));
  // what is declared
  { std::vector<unsigned> cnt(4,0); unsigned na=0,nh=0,nu=0; for(auto&g:gs){ if(g.type<2) na++; else if(g.type==2) nh++; else nu++; } sr::check(s.NumVariableGroups()==na&&s.NumHomVariableGroups()==nh&&s.NumUngroupedVariables()==nu,"group-counts",""); sr::check(s.NumNaturalVariables()==unsigned(nv)&&s.NumVariables()==unsigned(nv)&&s.NumHomVariables()==0,"variable-counts",""); sr::check(s.NumTotalVariableGroups()==na+nh,"total-groups","");
    auto o=s.VariableOrdering(); sr::check(o.size()==vars.size()&&std::equal(o.begin(),o.end(),vars.begin()),"declared-order",""); auto d=s.Degrees(); (void)d;
    unsigned nf=way!=3?3:2; sr::check(s.NumNaturalFunctions()==nf&&s.NumTotalFunctions()==nf,"function-counts",""); 
    for(int g=0;g<N;g++){ auto dd=s.Degrees(VariableGroup(gs[g].v.begin(),gs[g].v.end())); sr::check(dd.size()==nf,"degrees-size",""); for(unsigned i=0;i<nf;i++) sr::check(dd[i]==deg[i][g],"degrees-in-group","function "+std::to_string(i)+" group "+std::to_string(g)+" got "+std::to_string(dd[i])); }
    std::vector<unsigned> want; for(auto&g:gs) if(g.type!=3) want.push_back(g.v.size()); sr::check(s.VariableGroupSizes()==want,"group-sizes",""); sr::check(s.IsPolynomial(),"polynomial",""); }
  if(way==0){ Vc<dbl> x(nv); std::vector<dbl> p; for(int i=0;i<nv;i++) p.push_back(sr::cplx("v"+std::to_string(i))); for(int i=0;i<nv;i++) x(i)=p[i]; Vc<dbl> d=s.DehomogenizePoint(x); sr::check(d.size()==nv,"affine-size",""); for(int i=0;i<nv;i++) sr::eq(dbl(d(i)),p[i],"affine-point-unchanged"); Vc<dbl> v=s.Eval(x); for(int k=0;k<3;k++) sr::eq(dbl(v(k)),eval<dbl>(f[k],p).v,"affine-value"); return; }
  if(!aff){ if(way!=1) sr::prune(); s.Homogenize(); sr::check(s.NumVariables()==unsigned(nv),"nothing-to-homogenize",""); run<dbl>(s,gs,deg,f,false,nv,"already"); return; }
  s.Homogenize(); if(way==3){ s.AddFunction(node_of(f[2],cx)); s.Homogenize(); }
  { unsigned na=0; for(auto&g:gs) na+=g.type<2; sr::check(s.NumHomVariables()==na&&s.NumNaturalVariables()==unsigned(nv)&&s.NumVariables()==nv+na,"homogenized-counts",""); std::vector<unsigned> want; for(auto&g:gs) if(g.type!=3) want.push_back(g.v.size()+(g.type<2)); sr::check(s.VariableGroupSizes()==want,"homogenized-group-sizes",""); auto o=s.VariableOrdering(); auto o2=s.Variables(); sr::check(o==o2,"cached-order",""); size_t k=0; bool ok=o.size()==nv+na; for(auto&g:gs){ if(g.type<2){ if(k>=o.size()||std::find(vars.begin(),vars.end(),o[k])!=vars.end()) ok=false; k++; } for(auto&v:g.v){ if(k>=o.size()||o[k]!=v) ok=false; k++; } } sr::check(ok,"homogenized-order",""); }
  if(!ung) sr::check(s.IsHomogeneous(),"is-homogeneous",""); sr::check(s.IsPolynomial(),"still-polynomial","");
  if(!ung||homug){ auto dd=s.Degrees(s.Variables()); int mx=0; for(int k=0;k<3;k++){ int t=0; for(int g=0;g<N;g++) t+=deg[k][g]; mx=std::max(mx,t); sr::check(dd[k]==t,"total-degree-after","function "+std::to_string(k)+" got "+std::to_string(dd[k])+" want "+std::to_string(t)); } sr::check(s.DegreeBound()==mx,"degree-bound",""); }
  bool patched=false; if(way==2){ if(ung){ sr::scenario("patch with ungrouped variables"); }
    sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; s.AutoPatch(); sr::rand_mode=sr::RAND_FIXED; patched=true; unsigned ng=0; for(auto&g:gs) ng+=g.type!=3; sr::check(s.IsPatched()&&s.NumTotalFunctions()==3+ng,"patched-counts",""); 
    if(ung){ // every patch equation involves its own group only
      Vc<dbl> x(s.NumVariables()); for(int i=0;i<x.size();i++) x(i)=sr::cplx("p"+std::to_string(i)); Vc<dbl> a=s.Eval(x); int pos=0,row=0; for(auto&g:gs){ int sz=g.v.size()+(g.type<2); if(g.type==3){ Vc<dbl> y(x); y(pos)=sr::cplx("q"); Vc<dbl> b=s.Eval(y); for(unsigned i=3;i<s.NumTotalFunctions();i++) sr::eq(dbl(a(i)),dbl(b(i)),"patch-independent-of-ungrouped"); } pos+=sz; (void)row; } return; } }
  run<dbl>(s,gs,deg,f,patched,nv,"d"); if(N<3) run<mpc>(s,gs,deg,f,patched,nv,"mp");
  { System c(s); run<dbl>(c,gs,deg,f,patched,nv,"copy"); if(patched){ System q; q.CopyVariableStructure(s); for(int k=0;k<3;k++) q.AddFunction(s.Function(k)); q.CopyPatches(s); sr::check(q.IsPatched()&&q.NumTotalFunctions()==s.NumTotalFunctions(),"patch-copied",""); run<dbl>(q,gs,deg,f,true,nv,"patchcopy"); Vc<dbl> x(s.NumVariables()); for(int i=0;i<x.size();i++) x(i)=sr::cplx("p"+std::to_string(i)); Vc<dbl> a=s.Eval(x),b=q.Eval(x); for(int i=0;i<a.size();i++) sr::eq(dbl(a(i)),dbl(b(i)),"copied-patch-same"); } }
}
