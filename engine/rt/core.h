#pragma once
#include "alg.h"
#include <string>
#include <vector>
#include <cmath>
#include <cstring>
namespace sr {
typedef int Id;
enum Op:uint8_t{ CONST, VREAL, CVAR, ADD,SUB,MUL,DIV,NEG, RFN1,RFN2, CPAIR,CADD,CSUB,CMUL,CDIV,CNEG,CFN1,CFN2, RE,IM, SPECIAL };
enum Fn:uint8_t{ F_NONE,F_SQRT,F_EXP,F_LOG,F_SIN,F_COS,F_TAN,F_ASIN,F_ACOS,F_ATAN,F_SINH,F_COSH,F_TANH,F_ASINH,F_ACOSH,F_ATANH,F_POW,F_ATAN2,F_HYPOT,F_LOG10,F_ABS };
struct Node{ Op op; Fn fn; int a,b; mpq_class c; alg::RFp rf; };
extern std::vector<Node> nodes;
enum { NANID=0, PINF=1, NINF=2 };
Id mkconst(const mpq_class&q); Id mkint(long v); Id mkdbl(double d); // concrete double (finite, inf or nan) or handle
double todbl(Id); bool isconst(Id,mpq_class*v=nullptr); inline bool special(Id x){return x<=NINF;}
Id add(Id,Id); Id sub(Id,Id); Id mul(Id,Id); Id div(Id,Id); Id neg(Id); Id fn1(Fn,Id); Id fn2(Fn,Id,Id); Id pi();
Id powi(Id,long);
struct C{Id re,im;};
Id cpair(Id re,Id im); C parts(Id c); Id cop(Op,Id,Id); Id cneg(Id); Id cfn1(Fn,Id); Id cfn2(Fn,Id,Id); Id conjg(Id);
inline C cwrap(Id c){return parts(c);}
enum Rel{ R_LT,R_LE,R_EQ,R_NE,R_GT,R_GE };
bool branch(Id diff,Rel r);         // decides diff r 0, forking if both outcomes are possible
bool compare(Id a,Rel r,Id b);
long concretize(Id x,int mode);     // 0 trunc 1 floor 2 ceil 3 round
const alg::RF& rf(Id);
alg::cld numeric(Id,int witness);
bool is_handle(double d);
Id real_var(const std::string&name); C complex_var(const std::string&name);
void assume(Id diff,Rel r);
[[noreturn]] void prune(const char*why);
void note_unsupported(const char*what);
}
