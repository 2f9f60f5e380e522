// Expression shapes with an independent semantics: each shape can be turned into a library node (through the
// public operators), into program text, and into a value with all its partial derivatives (dual numbers).
#pragma once
#include <bertini2/function_tree.hpp>
#include "symreal.hpp"
#include <functional>
namespace gen {
using namespace bertini; using bertini::node::Node; using bertini::node::Variable;
using Nd=std::shared_ptr<Node>; using Vr=std::shared_ptr<Variable>; using sr::mpf; typedef sr::dbl dbl; typedef sr::mpc mpc;
// ---------- scalar helpers
template<class T> T lit(long p,long q=1);
template<> inline dbl lit<dbl>(long p,long q){ return dbl(double(p)/double(q),0.0); }
template<> inline mpc lit<mpc>(long p,long q){ mpf a(p); a/=q; return mpc(a,mpf(0)); }
inline dbl s_pow(dbl b,int n){ dbl r(1.0,0.0); bool neg=n<0; if(neg) n=-n; for(int i=0;i<n;i++) r=r*b; return neg? dbl(1.0,0.0)/r : r; }
inline mpc s_pow(const mpc&b,int n){ mpc r=lit<mpc>(1); bool neg=n<0; if(neg) n=-n; for(int i=0;i<n;i++) r=r*b; if(neg) return mpc(lit<mpc>(1)/r); return r; }
inline dbl s_sqrt(dbl a){return std::sqrt(a);} inline dbl s_exp(dbl a){return std::exp(a);} inline dbl s_log(dbl a){return std::log(a);} inline dbl s_sin(dbl a){return std::sin(a);} inline dbl s_cos(dbl a){return std::cos(a);} inline dbl s_tan(dbl a){return std::tan(a);} inline dbl s_asin(dbl a){return std::asin(a);} inline dbl s_acos(dbl a){return std::acos(a);} inline dbl s_atan(dbl a){return std::atan(a);} inline dbl s_powc(dbl a,dbl b){return std::pow(a,b);}
inline mpc s_sqrt(const mpc&a){return mpc(sqrt(a));} inline mpc s_exp(const mpc&a){return mpc(exp(a));} inline mpc s_log(const mpc&a){return mpc(log(a));} inline mpc s_sin(const mpc&a){return mpc(sin(a));} inline mpc s_cos(const mpc&a){return mpc(cos(a));} inline mpc s_tan(const mpc&a){return mpc(tan(a));} inline mpc s_asin(const mpc&a){return mpc(asin(a));} inline mpc s_acos(const mpc&a){return mpc(acos(a));} inline mpc s_atan(const mpc&a){return mpc(atan(a));} inline mpc s_powc(const mpc&a,const mpc&b){return mpc(pow(a,b));}
template<class T> T s_pi(); template<> inline dbl s_pi<dbl>(){ return dbl(std::acos(-1.0),0.0);} template<> inline mpc s_pi<mpc>(){ return mpc(mpf(acos(mpf(-1))),mpf(0)); }
template<class T> T s_e(); template<> inline dbl s_e<dbl>(){ return dbl(std::exp(1.0),0.0);} template<> inline mpc s_e<mpc>(){ return mpc(mpf(exp(mpf(1))),mpf(0)); }
template<class T> T s_i(); template<> inline dbl s_i<dbl>(){ return dbl(0.0,1.0);} template<> inline mpc s_i<mpc>(){ return mpc(mpf(0),mpf(1)); }
template<class T> T sym(const std::string&n); template<> inline dbl sym<dbl>(const std::string&n){ return sr::cplx(n);} template<> inline mpc sym<mpc>(const std::string&n){ return sr::cplx_mp(n);} 
// ---------- dual numbers (an empty gradient stands for zero); Dual<Dual<T>> gives second derivatives
template<class T> struct Dual{ T v; std::vector<T> d; Dual(){} Dual(const T&x):v(x){} };
template<> inline Dual<dbl> lit<Dual<dbl>>(long p,long q){ return Dual<dbl>(lit<dbl>(p,q)); }
template<class T> T dget(const Dual<T>&a,size_t i){ return i<a.d.size()?a.d[i]:lit<T>(0); }
template<class T> Dual<T> dconst(const T&v,size_t n){ Dual<T> r; r.v=v; (void)n; return r; }
template<class T> Dual<T> chain(const Dual<T>&a,const T&v,const T&dv){ Dual<T> r; r.v=v; for(auto&x:a.d) r.d.push_back(T(dv*x)); return r; }
template<class T> size_t dn(const Dual<T>&a,const Dual<T>&b){ return a.d.size()>b.d.size()?a.d.size():b.d.size(); }
template<class T> Dual<T> operator+(const Dual<T>&a,const Dual<T>&b){ Dual<T> r; r.v=T(a.v+b.v); for(size_t i=0;i<dn(a,b);i++) r.d.push_back(T(dget(a,i)+dget(b,i))); return r; }
template<class T> Dual<T> operator-(const Dual<T>&a,const Dual<T>&b){ Dual<T> r; r.v=T(a.v-b.v); for(size_t i=0;i<dn(a,b);i++) r.d.push_back(T(dget(a,i)-dget(b,i))); return r; }
template<class T> Dual<T> operator*(const Dual<T>&a,const Dual<T>&b){ Dual<T> r; r.v=T(a.v*b.v); for(size_t i=0;i<dn(a,b);i++) r.d.push_back(T(T(dget(a,i)*b.v)+T(a.v*dget(b,i)))); return r; }
template<class T> Dual<T> operator/(const Dual<T>&a,const Dual<T>&b){ Dual<T> r; r.v=T(a.v/b.v); for(size_t i=0;i<dn(a,b);i++) r.d.push_back(T(T(T(dget(a,i)*b.v)-T(a.v*dget(b,i)))/T(b.v*b.v))); return r; }
template<class T> Dual<T> s_pow(const Dual<T>&a,int p){ T d= p==0? lit<T>(0) : T(lit<T>(p)*s_pow(a.v,p-1)); return chain<T>(a,s_pow(a.v,p),d); }
template<class T> Dual<T> s_sqrt(const Dual<T>&a){ T s=s_sqrt(a.v); return chain<T>(a,s,T(lit<T>(1)/T(lit<T>(2)*s))); }
template<class T> Dual<T> s_exp(const Dual<T>&a){ T s=s_exp(a.v); return chain<T>(a,s,s); }
template<class T> Dual<T> s_log(const Dual<T>&a){ return chain<T>(a,s_log(a.v),T(lit<T>(1)/a.v)); }
template<class T> Dual<T> s_sin(const Dual<T>&a){ return chain<T>(a,s_sin(a.v),s_cos(a.v)); }
template<class T> Dual<T> s_cos(const Dual<T>&a){ return chain<T>(a,s_cos(a.v),T(lit<T>(0)-s_sin(a.v))); }
template<class T> Dual<T> s_tan(const Dual<T>&a){ T co=s_cos(a.v); return chain<T>(a,s_tan(a.v),T(lit<T>(1)/T(co*co))); }
template<class T> Dual<T> s_asin(const Dual<T>&a){ return chain<T>(a,s_asin(a.v),T(lit<T>(1)/s_sqrt(T(lit<T>(1)-T(a.v*a.v))))); }
template<class T> Dual<T> s_acos(const Dual<T>&a){ return chain<T>(a,s_acos(a.v),T(lit<T>(-1)/s_sqrt(T(lit<T>(1)-T(a.v*a.v))))); }
template<class T> Dual<T> s_atan(const Dual<T>&a){ return chain<T>(a,s_atan(a.v),T(lit<T>(1)/T(lit<T>(1)+T(a.v*a.v)))); }
template<class T> Dual<T> s_powc(const Dual<T>&a,const Dual<T>&b){ T v=s_powc(a.v,b.v); Dual<T> r; r.v=v; for(size_t i=0;i<dn(a,b);i++){ T t=T(T(b.v*dget(a,i))*s_powc(a.v,T(b.v-lit<T>(1)))); if(i<b.d.size()) t=T(t+T(T(v*s_log(a.v))*b.d[i])); r.d.push_back(t); } return r; }
template<> inline Dual<dbl> s_pi<Dual<dbl>>(){ return Dual<dbl>(s_pi<dbl>()); } template<> inline Dual<dbl> s_e<Dual<dbl>>(){ return Dual<dbl>(s_e<dbl>()); } template<> inline Dual<dbl> s_i<Dual<dbl>>(){ return Dual<dbl>(s_i<dbl>()); } template<> inline Dual<dbl> sym<Dual<dbl>>(const std::string&n){ return Dual<dbl>(sym<dbl>(n)); }
// ---------- shapes
enum K{VAR,INT,RAT,FLT,PI_,E_,I_,ADD,SUB,MUL,DIV,NEG,POWI,POW,SQRT,EXP,LOG,SIN,COS,TAN,ASIN,ACOS,ATAN,NSUM,NMUL}; // NSUM/NMUL: operator object with explicit flags; bit j of i set = operand j added/multiplied
struct Ex; using EP=std::shared_ptr<const Ex>;
struct Ex{ K k; long i=0,q=1; std::string nm; std::vector<EP> c; };
inline EP mk(K k,std::vector<EP> c={},long i=0,long q=1,std::string nm=""){ auto e=std::make_shared<Ex>(); e->k=k;e->c=c;e->i=i;e->q=q;e->nm=nm; return e; }
inline EP V(int i){ return mk(VAR,{},i);} inline EP I(long v){ return mk(INT,{},v);} inline EP Q(long p,long q){ return mk(RAT,{},p,q);} inline EP F(std::string nm){ return mk(FLT,{},0,1,nm);} 
inline EP operator+(EP a,EP b){return mk(ADD,{a,b});} inline EP operator-(EP a,EP b){return mk(SUB,{a,b});} inline EP operator*(EP a,EP b){return mk(MUL,{a,b});} inline EP operator/(EP a,EP b){return mk(DIV,{a,b});} inline EP operator-(EP a){return mk(NEG,{a});}
inline EP powi(EP a,int n){return mk(POWI,{a},n);} inline EP powe(EP a,EP b){return mk(POW,{a,b});} inline EP un(K k,EP a){return mk(k,{a});}
template<class T> Dual<T> eval(const EP&e,const std::vector<T>&x){ size_t n=x.size(); auto c=[&](int j){ return eval<T>(e->c[j],x); };
  switch(e->k){ case VAR:{ auto r=dconst<T>(x[e->i],n); r.d.assign(n,lit<T>(0)); r.d[e->i]=lit<T>(1); return r; } case INT: return dconst<T>(lit<T>(e->i),n); case RAT: return dconst<T>(lit<T>(e->i,e->q),n); case FLT: return dconst<T>(sym<T>(e->nm),n); case PI_: return dconst<T>(s_pi<T>(),n); case E_: return dconst<T>(s_e<T>(),n); case I_: return dconst<T>(s_i<T>(),n);
   case ADD: return c(0)+c(1); case SUB: return c(0)-c(1); case MUL: return c(0)*c(1); case DIV: return c(0)/c(1); case NEG: return dconst<T>(lit<T>(0),n)-c(0);
   case NSUM:{ Dual<T> r=dconst<T>(lit<T>(0),n); for(size_t j=0;j<e->c.size();j++){ if(e->i>>j&1) r=r+c(j); else r=r-c(j); } return r; } case NMUL:{ Dual<T> r=dconst<T>(lit<T>(1),n); for(size_t j=0;j<e->c.size();j++){ if(e->i>>j&1) r=r*c(j); else r=r/c(j); } return r; }
   case POWI: return s_pow(c(0),int(e->i)); case POW: return s_powc(c(0),c(1)); case SQRT: return s_sqrt(c(0)); case EXP: return s_exp(c(0)); case LOG: return s_log(c(0)); case SIN: return s_sin(c(0)); case COS: return s_cos(c(0)); case TAN: return s_tan(c(0)); case ASIN: return s_asin(c(0)); case ACOS: return s_acos(c(0)); case ATAN: return s_atan(c(0)); }
  abort(); }
struct Ctx{ std::vector<Vr> v; std::map<const Ex*,Nd> memo; std::vector<EP> keep; bool share=true; };
inline Nd node_of(const EP&e,Ctx&cx){ if(cx.share){ auto it=cx.memo.find(e.get()); if(it!=cx.memo.end()) return it->second; } auto c=[&](int j){ return node_of(e->c[j],cx); }; Nd r; using namespace bertini::node;
  switch(e->k){ case VAR: r=cx.v[e->i]; break; case INT: r=Integer::Make(int(e->i)); break; case RAT: r=Rational::Make(mpq_rational(int(e->i),int(e->q)),mpq_rational(0)); break; case FLT: r=Float::Make(sr::cplx_mp(e->nm)); break; case PI_: r=bertini::node::Pi(); break; case E_: r=bertini::node::E(); break; case I_: r=bertini::node::I(); break;
   case ADD: {Nd a=c(0),b=c(1); r=a+b; break;} case SUB: {Nd a=c(0),b=c(1); r=a-b; break;} case MUL: {Nd a=c(0),b=c(1); r=a*b; break;} case DIV: {Nd a=c(0),b=c(1); r=a/b; break;} case NSUM:{ auto s=SumOperator::Make(c(0),bool(e->i&1),c(1),bool(e->i&2)); for(size_t j=2;j<e->c.size();j++) s->AddOperand(c(j),bool(e->i>>j&1)); r=s; break; } case NMUL:{ auto s=MultOperator::Make(c(0),bool(e->i&1),c(1),bool(e->i&2)); for(size_t j=2;j<e->c.size();j++) s->AddOperand(c(j),bool(e->i>>j&1)); r=s; break; }
   case NEG: r=-c(0); break; case POWI: r=pow(c(0),int(e->i)); break; case POW: {Nd a=c(0),b=c(1); r=pow(a,b); break;} case SQRT: r=sqrt(c(0)); break; case EXP: r=exp(c(0)); break; case LOG: r=log(c(0)); break; case SIN: r=sin(c(0)); break; case COS: r=cos(c(0)); break; case TAN: r=tan(c(0)); break; case ASIN: r=asin(c(0)); break; case ACOS: r=acos(c(0)); break; case ATAN: r=atan(c(0)); break; }
  cx.memo[e.get()]=r; cx.keep.push_back(e); return r; }
// fully parenthesised text
inline std::string text(const EP&e,const std::vector<std::string>&names){ auto c=[&](int j){ return text(e->c[j],names); };
  switch(e->k){ case VAR: return names[e->i]; case INT: return e->i<0?"("+std::to_string(e->i)+")":std::to_string(e->i); case RAT: return "("+std::to_string(e->i)+"/"+std::to_string(e->q)+")"; case FLT: return e->nm; case PI_: return "Pi"; case E_: return "E"; case I_: return "I"; case NSUM: case NMUL:{ std::string r="("; for(size_t q=0;q<e->c.size();q++) r+=std::string(e->k==NSUM?(e->i>>q&1?"+":"-"):(e->i>>q&1?"*":"/"))+c(q); return r+")"; } case ADD: return "("+c(0)+"+"+c(1)+")"; case SUB: return "("+c(0)+"-"+c(1)+")"; case MUL: return "("+c(0)+"*"+c(1)+")"; case DIV: return "("+c(0)+"/"+c(1)+")"; case NEG: return "(-"+c(0)+")"; case POWI: return "("+c(0)+"^"+(e->i<0?"("+std::to_string(e->i)+")":std::to_string(e->i))+")"; case POW: return "("+c(0)+"^"+c(1)+")"; case SQRT: return "sqrt("+c(0)+")"; case EXP: return "exp("+c(0)+")"; case LOG: return "log("+c(0)+")"; case SIN: return "sin("+c(0)+")"; case COS: return "cos("+c(0)+")"; case TAN: return "tan("+c(0)+")"; case ASIN: return "asin("+c(0)+")"; case ACOS: return "acos("+c(0)+")"; case ATAN: return "atan("+c(0)+")"; } return "?"; }
inline bool finite(const dbl&z){ return std::isfinite(z.real())&&std::isfinite(z.imag()); }
// division by, or logarithm of, an identically zero expression somewhere inside
inline bool undefined_at_generic(const EP&e){ std::function<bool(const EP&)> bad=[&](const EP&z){ for(auto&y:z->c) if(bad(y)) return true; auto zero=[&](const EP&y){ std::vector<dbl> p={sr::cplx("x"),sr::cplx("y")}; return sr::is_zero(eval<dbl>(y,p).v); };
    if(z->k==DIV&&zero(z->c[1])) return true; if(z->k==NMUL) for(size_t q=0;q<z->c.size();q++) if(!(z->i>>q&1)&&zero(z->c[q])) return true; if(z->k==POWI&&z->i<=0&&zero(z->c[0])) return true; if((z->k==LOG||z->k==POW||z->k==SQRT)&&zero(z->c[0])) return true; if((z->k==ASIN||z->k==ACOS)&&zero(I(1)-z->c[0]*z->c[0])) return true; if(z->k==ATAN&&zero(I(1)+z->c[0]*z->c[0])) return true; return false; }; return bad(e); }
// ---------- shape tables
inline std::vector<EP> leaves(){ return { V(0),V(1),F("c0"),I(0),I(1),I(-1),I(2),Q(-3,2),mk(PI_),mk(E_),mk(I_) }; }
inline std::vector<EP> inners(){ EP x=V(0),y=V(1),a=F("c0"),b=F("c1"); return { x,y,a,I(0),I(1),I(-2),Q(3,4), x+y,x-y,a-x, x*y,a*x,x/y, -x,-(x+y), powi(x,2),powi(y,3),powi(x+a,2), un(EXP,x),un(SIN,y), a*powi(x,2)+b*(x*y)-y, un(SQRT,x), x*(y*x), (x+y)*(x-a), powi(x,2)/y }; }
inline std::vector<EP> small(){ EP x=V(0),y=V(1),a=F("c0"); return { x,y,a,I(0),I(1), x+y, x*y, powi(x,2), -y, un(EXP,x) }; }
// polynomial shapes of degree at most 4 (no division by variables)
inline std::vector<EP> polys(){ EP x=V(0),y=V(1),a=F("c0"),b=F("c1"),c=F("c2"); return { x,y,a,I(3),Q(2,3), x+y, x-y, x+a, x*y, a*x, x*x, -x, -(x+y), -(x*y), powi(x,2),powi(x+y,2),powi(x*y,2),powi(x+a,2),powi(-x,3), a*powi(x,2)+b*(x*y)-y, a*powi(x,2)+b*(x*y)-c*powi(y,2), (x+a)*(y+b), x*(y+b), (x+y)*(x-y), x/a, (x*y+b)/a, powi(x,1),powi(x,0), (x-b)-(y-a), powi(powi(x,2)+y,2), x*y*x+a, powi(x,2)*powi(y,1)+x };
}
// families of shapes; one path handles one family
inline std::vector<EP> shape_family(){ auto in=inners(); auto sm=small(); int n=in.size(), m=sm.size(); std::vector<EP> r;
  switch(sr::choose("form",7)){
   case 0: return leaves();
   case 1:{ static const K ks[]={NEG,SQRT,EXP,LOG,SIN,COS,TAN,ASIN,ACOS,ATAN}; int k=sr::choose("op",19); static const int ps[]={-3,-2,-1,0,1,2,3,4,7}; for(auto&a:in) r.push_back(k<10? un(ks[k],a) : powi(a,ps[k-10])); return r; }
   case 2:{ int k=sr::choose("op",4); EP a=in[sr::choose("a",n)]; for(auto&b:in) r.push_back(mk(K(ADD+k),{a,b})); return r; }
   case 3:{ int k1=sr::choose("op1",4),k2=sr::choose("op2",4); int as=sr::choose("assoc",2); EP a=sm[sr::choose("a",m)],b=sm[sr::choose("b",m)]; for(auto&c:sm) r.push_back(as? mk(K(ADD+k1),{a,mk(K(ADD+k2),{b,c})}) : mk(K(ADD+k2),{mk(K(ADD+k1),{a,b}),c})); return r; }
   case 4:{ std::vector<EP> ex={Q(1,2),Q(-1,2),Q(3,2),F("c1"),V(1),I(2),V(0)+F("c0")}; EP a=in[sr::choose("a",n)]; for(auto&e:ex) r.push_back(powe(a,e)); return r; }
   case 5:{ // operator objects with explicit signs: every flag pattern of 2 operands, and of 3 operands
    int k=sr::choose("nary",2); EP a=sm[sr::choose("a",m)]; for(auto&b:sm){ for(int fl=0;fl<4;fl++) r.push_back(mk(k?NMUL:NSUM,{a,b},fl)); for(int fl=0;fl<8;fl++){ r.push_back(mk(k?NMUL:NSUM,{a,b,V(0)-F("c0")},fl)); r.push_back(mk(k?NMUL:NSUM,{a,mk(k?NMUL:NSUM,{b,V(1)},fl&3),V(0)},fl)); r.push_back(mk(k?NMUL:NSUM,{a,mk(k?NSUM:NMUL,{b,V(1)},fl&3),F("c0"),V(0)},fl|8)); } } return r; }
   default:{ static const K ks[]={NEG,SQRT,EXP,LOG,SIN,COS,TAN,ASIN,ACOS,ATAN}; int k=sr::choose("outer",10); for(int j=0;j<10;j++){ EP t=un(ks[j],F("c0")*V(0)+V(1)); r.push_back(un(ks[k],t)); r.push_back(un(ks[k],V(0)*t)); } return r; } } }
}
