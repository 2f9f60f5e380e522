// Total degree start system: its functions, number of start points, and that every start point is an exact, distinct solution.
#include "sysgen.hpp"
#include <bertini2/system/start_systems.hpp>
using namespace gen; using bertini::start_system::TotalDegree;
template<class T> void points(const TotalDegree&td,const System&target,const std::vector<int>&d,const std::vector<T>&r,bool hom,bool patched,const std::string&l){ unsigned n=d.size(); unsigned long long N=1; for(int k:d) N*=k; sr::check(td.NumStartPoints()==N,l+"-count",std::to_string(td.NumStartPoints())); if(td.NumStartPoints()!=N) return;
  std::vector<Vc<T>> pts; for(unsigned long long i=0;i<N;i++){ Vc<T> x=td.StartPoint<T>(i); sr::check(size_t(x.size())==td.NumVariables(),l+"-size",std::to_string(x.size())); if(size_t(x.size())!=td.NumVariables()) return; Vc<T> f=td.Eval(x); sr::check(size_t(f.size())==td.NumTotalFunctions(),l+"-fsize",""); for(int k=0;k<f.size();k++) sr::eq(T(f(k)),lit<T>(0),l+"-solves"); Vc<T> y=td.DehomogenizePoint(x); for(unsigned k=0;k<n;k++) sr::eq(s_pow(T(y(k)),d[k]),r[k],l+"-root"); pts.push_back(y); }
  for(size_t i=0;i<pts.size();i++) for(size_t j=0;j<i;j++){ bool same=true; for(unsigned k=0;k<n;k++) if(!sr::is_zero(T(pts[i](k)-pts[j](k)))) same=false; sr::check(!same,l+"-distinct",std::to_string(i)+" and "+std::to_string(j)); }
  bool thrown=false; try{ td.StartPoint<T>(N); }catch(std::exception&){ thrown=true; } sr::check(thrown,l+"-no-point-beyond",""); }
// targets for which there is no total degree start system are refused
void refused(){ int why=sr::choose("why",5); auto x=Variable::Make("x"),y=Variable::Make("y"),t=Variable::Make("t"); System s; Nd f=Nd(x)*x-1,g=Nd(y)*y*x-1;
  if(why==0){ s.AddVariableGroup(VariableGroup{x,y}); s.AddFunction(f); } // fewer functions than variables
  if(why==1){ s.AddVariableGroup(VariableGroup{x}); s.AddVariableGroup(VariableGroup{y}); s.AddFunction(f); s.AddFunction(g); } // two groups
  if(why==2){ s.AddVariableGroup(VariableGroup{x,y}); s.AddFunction(f); s.AddFunction(sin(Nd(y))); } // not polynomial
  if(why==3){ s.AddVariableGroup(VariableGroup{x,y}); s.AddPathVariable(t); s.AddFunction(f); s.AddFunction(g); } // already a homotopy
  if(why==4){ s.AddHomVariableGroup(VariableGroup{x,y}); s.AddFunction(f); s.AddFunction(Nd(x)*y); } // homogeneous group
  bool thrown=false; try{ TotalDegree td(s); }catch(std::exception&){ thrown=true; } sr::check(thrown,"unsuitable-refused",std::to_string(why)); }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30); if(sr::choose("part",2)){ refused(); return; }
#ifdef SR_THOROUGH
  int n=1+sr::choose("n",4); int D=n==1?12:n==2?5:n==3?3:2,DP=n==1?6:n==2?3:2;
#else
  int n=1+sr::choose("n",3); int D=n==1?8:n==2?5:3,DP=n==1?4:n==2?3:2;
#endif
  std::vector<int> d; int way=sr::choose("way",3); if(way) D=DP; for(int i=0;i<n;i++) d.push_back(1+sr::choose("d"+std::to_string(i),D)); bool hom=way>0,patched=way>1; int em=sr::choose("em",2);
  System s; s.SetEvalMethod(em?EvalMethod::SLP:EvalMethod::FunctionTree); std::vector<Vr> v; for(int i=0;i<n;i++) v.push_back(Variable::Make("v"+std::to_string(i))); s.AddVariableGroup(VariableGroup(v.begin(),v.end()));
  for(int i=0;i<n;i++){ Nd f=Nd(node::Float::Make(sr::cplx_mp("c"+std::to_string(i))))*pow(Nd(v[(i+1)%n]),d[i]); for(int j=0;j<n;j++) if(d[i]>1) f=f+pow(Nd(v[j]),d[i]-1); s.AddFunction(f-Nd(node::Integer::Make(i+2))); }
  if(hom) s.Homogenize(); if(patched) s.AutoPatch();
  if(hom&&!patched){ // not square: refused
    bool thrown=false; try{ TotalDegree td(s); }catch(std::exception&){ thrown=true; } sr::check(thrown,"nonsquare-refused",""); return; }
  sr::rand_mode=sr::RAND_SYMBOLIC; sr::rand_count=0; TotalDegree td(s); int draws=sr::rand_count; sr::rand_mode=sr::RAND_FIXED; (void)draws;
  sr::check(td.NumNaturalFunctions()==unsigned(n)&&td.NumTotalFunctions()==s.NumTotalFunctions()&&td.NumVariables()==s.NumVariables(),"same-structure",""); auto o1=td.VariableOrdering(),o2=s.VariableOrdering(); sr::check(o1==o2,"same-variables",""); sr::check(td.IsPatched()==patched&&td.IsHomogeneous()==hom,"same-patch-structure",""); auto dg=td.Degrees(); for(int i=0;i<n;i++) sr::check(dg[i]==d[i],"same-degrees",std::to_string(dg[i]));
  std::vector<dbl> r; std::vector<mpc> R; for(int i=0;i<n;i++){ r.push_back(td.RandomValue<dbl>(i)); R.push_back(td.RandomValue<mpc>(i)); sr::exists_nonzero(r[i],"random-value-generic"); sr::eq(R[i],r[i],"random-values-agree"); }
  if(patched){ Vc<dbl> x(s.NumVariables()); for(int i=0;i<x.size();i++) x(i)=sr::cplx("p"+std::to_string(i)); Vc<dbl> a=s.Eval(x),b=td.Eval(x); for(int i=n;i<a.size();i++) sr::eq(dbl(a(i)),dbl(b(i)),"same-patch"); }
  // functions are x^d - r
  { Vc<dbl> x(td.NumVariables()); for(int i=0;i<x.size();i++) x(i)=sr::cplx("p"+std::to_string(i)); Vc<dbl> f=td.Eval(x); int o=hom; for(int i=0;i<n;i++){ dbl e=s_pow(dbl(x(i+o)),d[i])-r[i]*(hom? s_pow(dbl(x(0)),d[i]) : dbl(1.0)); sr::eq(dbl(f(i)),e,"function"); } }
  points<dbl>(td,s,d,r,hom,patched,"double"); points<mpc>(td,s,d,R,hom,patched,"multiple");
  // a precision other than the one it was made in
  { DefaultPrecision(60); td.precision(60); Vc<mpc> x=td.StartPoint<mpc>(td.NumStartPoints()-1); for(int i=0;i<x.size();i++){ sr::check(Precision(mpc(x(i)))==60,"start-point-precision",std::to_string(Precision(mpc(x(i))))); sr::accurate(mpc(x(i)),60,"start-point-accuracy"); } Vc<mpc> f=td.Eval(x); for(int k=0;k<f.size();k++) sr::eq(mpc(f(k)),lit<mpc>(0),"solves-in-other-precision"); }
}
