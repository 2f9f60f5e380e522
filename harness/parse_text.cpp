// Functions, systems and whole input files given as text: what they mean, evaluated at every point.
#include "sysgen.hpp"
#include <bertini2/io/parsing/system_parsers.hpp>
#include <bertini2/io/parsing/classic_utilities.hpp>
using namespace gen;
typedef std::map<std::string,EP> Env;
// the meaning of a formula: sums of products of signed powers; a sign binds less tightly than ^ and more tightly than a sum
struct Ref{ std::string s; size_t p=0; const Env&e; Ref(const std::string&t,const Env&env):e(env){ for(char c:t) if(!isspace(c)) s+=c; }
  char pk(){ return p<s.size()?s[p]:0; }
  EP sum(){ EP a=prod(); while(pk()=='+'||pk()=='-'){ char c=s[p++]; EP b=prod(); a= c=='+'? a+b : a-b; } return a; }
  EP prod(){ EP a=sgn(); while(pk()=='*'||pk()=='/'){ char c=s[p++]; EP b=sgn(); a= c=='*'? a*b : a/b; } return a; }
  EP sgn(){ if(pk()=='-'){ p++; return I(0)-sgn(); } if(pk()=='+'){ p++; return sgn(); } return power(); }
  EP power(){ EP a=prim(); if(pk()=='^'){ p++; int n=expo(); a=powi(a,n); } return a; }
  int expo(){ if(pk()=='-'){ p++; return -expo(); } if(pk()=='+'){ p++; return expo(); } EP e=prim(); std::vector<dbl> none; dbl v=eval<dbl>(e,none).v; return int(std::lround(v.real())); }
  EP num(){ long m=0; int sc=0; while(isdigit(pk())) m=10*m+(s[p++]-'0'); if(pk()=='.'){ p++; while(isdigit(pk())){ m=10*m+(s[p++]-'0'); sc--; } } if((pk()=='e'||pk()=='E')&&p+1<s.size()&&(isdigit(s[p+1])||s[p+1]=='-'||s[p+1]=='+')){ p++; int sg=1; if(s[p]=='-'){ sg=-1; p++; } else if(s[p]=='+') p++; int x=0; while(isdigit(pk())) x=10*x+(s[p++]-'0'); sc+=sg*x; } long q=1; for(;sc<0;sc++) q*=10; for(;sc>0;sc--) m*=10; return q==1? I(m) : Q(m,q); }
  EP prim(){ if(pk()=='('){ p++; EP a=sum(); p++; return a; } if(isdigit(pk())||pk()=='.') return num(); std::string n; while(isalnum(pk())||pk()=='_'||pk()=='['||pk()==']') n+=s[p++]; if(pk()=='('){ p++; EP a=sum(); p++; K k= n=="sin"?SIN:n=="cos"?COS:n=="tan"?TAN:n=="exp"?EXP:n=="log"?LOG:SQRT; return un(k,a); } auto it=e.find(n); if(it!=e.end()) return it->second; if(n=="i"||n=="I") return mk(I_); if(n=="pi"||n=="Pi") return mk(PI_); return mk(E_); } };
static EP meaning(const std::string&t,const Env&e){ return Ref(t,e).sum(); }
static bool load(const std::string&text,System&s,const std::string&why){ try{ s=System(text); return true; }catch(std::exception const&x){ sr::check(false,"text-accepted",why+": "+x.what()); return false; } }
static void compare_with(System&s,const std::vector<EP>&order,const std::vector<EP>&f,bool path,const std::string&l){ size_t n=order.size(); sr::check(s.NumVariables()==n,l+"-variables",std::to_string(s.NumVariables())); sr::check(s.NumNaturalFunctions()==f.size(),l+"-functions",std::to_string(s.NumNaturalFunctions())); if(s.NumVariables()!=n||s.NumNaturalFunctions()!=f.size()) return;
  auto p=point<dbl>(); std::vector<dbl> q={p[0],p[1],p[3]}; p={q[0],q[1],p[2],q[2]}; Vc<dbl> v(n); for(size_t i=0;i<n;i++) v(i)=p[order[i]->i]; Vc<dbl> r= path? s.Eval(v,p[2]) : s.Eval(v); Mt<dbl> J= path? s.Jacobian(v,p[2]) : s.Jacobian(v);
  sr::check(size_t(r.size())==f.size(),l+"-size",""); for(size_t i=0;i<f.size();i++){ auto D=eval<dbl>(f[i],p); sr::eq(dbl(r(i)),D.v,l+"-value"); for(size_t j=0;j<n;j++) sr::eq(dbl(J(i,j)),dget(D,order[j]->i),l+"-derivative"); }
  if(path){ Vc<dbl> d=s.TimeDerivative(v,p[2]); for(size_t i=0;i<f.size();i++) sr::eq(dbl(d(i)),dget(eval<dbl>(f[i],p),2),l+"-time-derivative"); } }
static void formulas(const std::vector<std::string>&fs,const Env&env,const std::string&decl,const std::string&l){ std::string t=decl+" function "; for(size_t i=0;i<fs.size();i++) t+=(i?", ":"")+("f"+std::to_string(i)); t+=";\n"; for(size_t i=0;i<fs.size();i++) t+="f"+std::to_string(i)+" = "+fs[i]+";\n"; sr::scenario(t.substr(0,400)); System s; if(!load(t,s,l)) return; std::vector<EP> ref; for(auto&f:fs) ref.push_back(meaning(f,env)); compare_with(s,{V(0),V(1)},ref,false,l); }
void sr_harness(){ sr::explore_eq(false); DefaultPrecision(30); int mode=sr::choose("mode",6); static const char*OP[]={"+","-","*","/"}; static const char*SG[]={"","-","+"};
  Env xy={{"x",V(0)},{"y",V(1)}};
  if(mode==0){ // three operands with signs and powers
    int o1=sr::choose("op1",4),o2=sr::choose("op2",4),s0=sr::choose("sign0",3); std::vector<std::string> fs; static const char*A[]={"x","y^2","(x-y)","2^2"},*B[]={"y","x^-1","(x+2)^2","3","x^(1+1)"},*C[]={"x","y^2","1.5","(y)"}; int k=0; for(auto b:B) for(auto sg:SG) for(auto sg2:SG){ k++; std::string op1=OP[o1],op2=OP[o2]; bool sp=k%2; fs.push_back(std::string(SG[s0])+A[(k+o1)%4]+(sp?" ":"")+op1+(sp?" ":"")+sg+b+op2+(k%5?"":" ")+sg2+C[(k/3+o2)%4]); }
#ifdef SR_THOROUGH
    for(int o3=0;o3<4;o3++) for(auto sg:SG) for(auto b:B) fs.push_back(std::string(SG[s0])+"x"+OP[o1]+sg+b+OP[o2]+"(y"+OP[o3]+sg+"x^2)"+OP[o3]+sg+"3"+OP[o1]+"y");
#endif
    formulas(fs,xy,"variable_group x, y;","formula"); }
  else if(mode==1){ // nesting
    int o1=sr::choose("op1",4),o2=sr::choose("op2",4); std::vector<std::string> fs; std::string a=OP[o1],b=OP[o2]; for(std::string sg:{"","-"}) for(std::string t:{"S(x"+a+"y)"+b+"2","x"+a+"(Sy"+b+"x)","S(Sx"+a+"y)"+b+"x","x"+a+"S(y"+b+"2)^2","sin(Sx"+a+"y)"+b+"y","exp(x"+a+"Sy)^2"+b+"x","Scos( x )"+a+"y"+b+"x","sqrt(x"+a+"y)"+b+"Stan(y)","log (x)"+a+"S((x"+b+"y))","x"+a+"S-y"+b+"x","x"+a+"S+y^2"+b+"x^2"}){ std::string r; for(char c:t) if(c=='S') r+=sg; else r+=c; fs.push_back(r); }
    formulas(fs,xy,"variable_group x, y;","nested"); }
  else if(mode==2){ // numbers and special numbers
    int o1=sr::choose("op1",4); std::vector<std::string> fs; std::string a=OP[o1]; for(std::string n:{"2","0.5","2.","2.5",".25","1e2","25e-1","1.5e2","1.25e+1","12.5e-1","2E1","1.5E-1e","pi","Pi","e","E","i","I","007","100"}) { if(n=="1.5E-1e") continue; fs.push_back("x"+a+n); fs.push_back(n+a+"y*x"); fs.push_back("-"+n+a+"x"); fs.push_back("("+n+"+x)"+a+"-"+n); }
    formulas(fs,xy,"variable_group x, y;","number"); }
  else if(mode==3){ // declarations: kinds, orders and names
    static const char*NM[][6]={{"x","y","t","c","p","s"},{"x","x1","x2","x_","xx","x1x"},{"e1","i2","I_","pix","Ex","ee"},{"z[1]","z[2]","t_1","alpha","beta_2","Gamma"},{"sx","cosy","tt","expo","logs","sinus"}}; int nm=sr::choose("names",5),kind=sr::choose("groups",4),ws=sr::choose("spaces",2),ord=sr::choose("order",3); auto N=NM[nm]; std::string X=N[0],Y=N[1],T=N[2],C=N[3],P=N[4],S=N[5],nl=ws?"\n  ":"";
    std::string g,t; std::vector<EP> order={V(0),V(1)}; switch(kind){ case 0: g="variable_group "+X+","+Y+";"; break; case 1: g="variable_group "+Y+";"+nl+"variable_group "+X+" ;"; order={V(1),V(0)}; break; case 2: g="variable "+X+", "+Y+";"; break; case 3: g="hom_variable_group "+X+","+Y+";"; break; }
    std::string f1=X+"^2*"+C+" + "+Y+"*"+S+" - "+P+"*"+X, f2="-"+S+"+"+T+"*"+C+"*"+Y, df="function f1,"+nl+"f2;", dp="pathvariable "+T+";", dc="constant "+C+";"+nl+C+" = 3/2;", dq="parameter "+P+";"+nl+P+" = "+T+"^2-1;", ds=S+" = "+X+"*"+Y+"-"+C+";";
    if(ord==0) t=g+nl+dp+nl+dc+nl+dq+nl+ds+nl+df+nl+"f1="+f1+";"+nl+"f2 ="+f2+";"; else if(ord==1) t=df+nl+dp+nl+g+nl+dq+nl+dc+nl+ds+nl+"f2="+f2+";"+nl+"f1 ="+f1+";"; else t=dp+nl+dc+nl+df+nl+g+nl+ds+nl+dq+nl+"f1 = "+f1+" ;"+nl+"f2="+f2+";";
    sr::scenario(t); Env e={{X,V(0)},{Y,V(1)},{T,V(2)}}; e[C]=Q(3,2); e[P]=meaning(T+"^2-1",e); e[S]=meaning(X+"*"+Y+"-"+C,e); System s; if(!load(t,s,"declarations")) return;
    sr::check(s.HavePathVariable(),"path-variable-declared",""); sr::check(s.NumVariableGroups()==(kind==0?1u:kind==1?2u:0u)&&s.NumHomVariableGroups()==(kind==3?1u:0u)&&s.NumUngroupedVariables()==(kind==2?2u:0u),"kinds-of-variables",""); sr::check(s.NumConstants()==1&&s.NumParameters()==1,"constants-and-parameters","");
    compare_with(s,order,{meaning(f1,e),meaning(f2,e)},true,"declared"); }
  else if(mode==5){ // texts without a meaning are refused
    static const char*BAD[]={"x y","2x","x 2","x+","+","x*/y","(x+y","x+y)","x^","x^*2","z","x+z*y","sin x","sin()","sin","cosx","x,y","x==y","","1.2.3","x$y","2e*x","x(y)","x^^2","x_1","xy","Sin(x)","x=2","1..2","--","x!"}; int b=sr::choose("bad",sizeof(BAD)/sizeof(*BAD)); std::string where[]={std::string("f=")+BAD[b]+";",std::string("f=x+(")+BAD[b]+");",std::string("s=")+BAD[b]+"; f=x;",std::string("f=x*y;")+(*BAD[b]?BAD[b]:"function")}; for(int w=0;w<4;w++){ std::string t="variable_group x, y; function f; "+where[w]; sr::scenario(t); bool thrown=false; try{ System s(t); }catch(std::exception const&){ thrown=true; } sr::check(thrown,"malformed-text-refused",t); }
    for(std::string t:{"variable_group x, x; function f; f=x;","variable_group x; function x; x=1;","variable_group x; function f, f; f=x;","variable_group x; variable_group x; function f; f=x;","variable_group x function f; f=x;","variable_group x; function f; f=x","variable_group x; f=x; function f;","variable_group 2x; function f; f=2;","variable_group x; pathvariable x; function f; f=x;","variable_group x; function f; g==x; f=g;","variable_group pi; function f; f=pi;","variable_group ; function f; f=1;","variables x; function f; f=x;"}){ sr::scenario(t); bool thrown=false; try{ System s(t); }catch(std::exception const&){ thrown=true; } sr::check(thrown,"malformed-text-refused",t); } }
  else { // whole input files: with and without each section marker, comments and other text
    int cfg=sr::choose("config",2),input=sr::choose("input",2),end=sr::choose("end",2),com=sr::choose("comments",4),cs=sr::choose("case",2); if(!cfg&&!input&&com==3) sr::prune(); std::string c= cs?"config":"CONFIG",E= cs?"End;":"END;",IN= cs?"Input":"INPUT"; std::string cm[]={""," % a remark"," % with END; inside"," %% CONFIG INPUT"};
    std::string conf="tracktype: 1;"+cm[com]+"\nmptype: 0;\n",sysm="variable_group x, y;"+cm[com]+"\nfunction f, g;\n"+(com?"% a whole line\n":"")+"f = x*y-2;"+cm[com]+"\n\n g = -x+y^2; \n"; std::string t= com==1?"% first line\n":""; if(cfg) t+=c+"\n"+conf+(end?E+"\n":""); if(input) t+=IN+"\n"; else if(cfg&&!end) sr::prune(); t+=sysm; if(end) t+=E+"\n"; if(end&&com<2) t+="left over text x = ; % \n"; else if(end&&com==3) t+="\n\n";
    sr::scenario(t); auto r=bertini::parsing::classic::ParseInputFile(t); sr::check(r.Readable(),"file-readable",""); auto squeeze=[](const std::string&a){ std::string o; for(char ch:a) if(!isspace(ch)) o+=ch; return o; }; sr::check(squeeze(r.Config())==(cfg?"tracktype:1;mptype:0;":""),"config-section",r.Config()); System s; if(!load(r.Input(),s,"input section")) return; compare_with(s,{V(0),V(1)},{meaning("x*y-2",xy),meaning("-x+y^2",xy)},false,"file"); }
}
