// Polynomial facts about a shape, decided exactly from its value function (not from its syntax).
#pragma once
#include "gen.hpp"
namespace gen {
typedef std::function<dbl(std::vector<dbl>)> Fun;
// "t -> g(t) is a polynomial of degree exactly d", over all inputs and all t: the (d+1)-st finite difference vanishes identically, the d-th does not
inline void assert_degree(const std::function<dbl(double)>&g,int d,const std::string&l){ if(d<0||d>14){ sr::check(false,l,"reported "+std::to_string(d)); return; } double t0=sr::native?0.37:sr::real("t0"); std::vector<dbl> v; for(int k=0;k<=d+1;k++) v.push_back(g(t0+double(k)));
  double big=0; if(sr::native) for(auto&x:v) big=std::max(big,std::abs(x)); for(int j=0;j<d;j++){ for(size_t k=0;k+1<v.size();k++) v[k]=v[k+1]-v[k]; v.pop_back(); } dbl last=v[0],next=v[1]-v[0]; if(sr::native) next/= (1+big); sr::exists_nonzero(last,l); sr::eq(next,dbl(0.0),l); }
inline std::vector<EP> poly_family(int form_n=9){ auto ps=polys(); EP c9=F("c9"); std::vector<EP> r; int n=ps.size(); 
  switch(sr::choose("form",form_n)){ case 0: return ps; case 1: for(auto&a:ps) r.push_back(-a); return r; case 2:{ int k=sr::choose("power",3); for(auto&a:ps) r.push_back(powi(a,k+1)); return r; }
   case 3:{ EP a=ps[sr::choose("a",n)]; for(auto&b:ps) r.push_back(a+c9*b); return r; } case 4:{ EP a=ps[sr::choose("a",n)]; for(auto&b:ps) r.push_back(c9*b-a); return r; } case 5:{ EP a=ps[sr::choose("a",n)]; for(auto&b:ps) r.push_back(a*b); return r; }
   case 6:{ for(auto&a:ps){ r.push_back(a/c9); r.push_back(a/I(7)); r.push_back(powe(a,I(2))); r.push_back(powe(a,I(1))); r.push_back(-(c9*a-powi(a,2))); } return r; }
   case 7:{ EP a=ps[sr::choose("a",n)]; for(auto&b:ps){ int fl=int(r.size())%8; r.push_back(mk(NSUM,{a*c9,b*F("c8"),F("c7")*V(0)},fl)); r.push_back(mk(NMUL,{c9,a,b},6)); r.push_back(mk(NMUL,{a,c9,b},5)); } return r; }
   default:{ EP a=ps[sr::choose("a",n)]; for(auto&b:ps) r.push_back(c9*V(1)+powi(a-c9*b,2)*V(0)); return r; } } }
inline std::vector<EP> nonpolys(){ EP x=V(0),y=V(1),a=F("c0"); std::vector<EP> r={ x/y, a/x, I(1)/(x+y), powi(x,-1), powi(x+a,-2), un(SQRT,x), un(EXP,x*y), un(LOG,y+a), un(SIN,x), un(COS,y), un(TAN,x+y), un(ASIN,x), un(ACOS,y), un(ATAN,x), powe(x,Q(1,2)), powe(x,y), powe(a,x), powe(x,Q(5,2)), powe(x+y,I(-2)) }; size_t n=r.size(); for(size_t i=0;i<n;i++){ r.push_back(x+r[i]); r.push_back(x*r[i]); r.push_back(-r[i]); r.push_back(powi(r[i]+y,2)); r.push_back(r[i]*y-x); r.push_back(powi(x,3)*y-r[i]); } return r; }
}
