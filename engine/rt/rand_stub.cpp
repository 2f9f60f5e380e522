#define SR_NO_MAIN
#include <map>
#include <vector>
#include <bertini2/random.hpp>
#include "symreal.hpp"
#include "rand_stub.hpp"
namespace sr{ RandMode rand_mode=RAND_FIXED; std::string rand_prefix="rnd"; int rand_count=0; int rand_limit=1000; }
namespace bertini{
static mpfr_float draw01(){ int k=sr::rand_count++; if(sr::rand_mode==sr::RAND_SYMBOLIC && k<sr::rand_limit) return sr::real_mp(sr::rand_prefix+std::to_string(k),0.0,1.0);
  static const int num[]={1,3,2,5,3,7,4,5,2,9,5,11,6,7,3,13,8,3,10,9}; static const int den[]={4,7,5,9,11,10,13,8,11,16,14,17,19,20,22,23,25,26,27,28}; mpfr_float r(num[k%20]); r/=den[k%20]; int q=k/20; if(q) r/=(q+1); return r; }
mpfr_float RandomMp(){ return RandomMp(DefaultPrecision()); }
mpfr_float RandomMp(unsigned n){ mpfr_float a=draw01(); a.precision(n); return a; }
void RandomMpAssign(mpfr_float&a,unsigned n){ mpfr_float t=RandomMp(n); a=std::move(t); }
mpfr_float RandomMp(const mpfr_float&a,const mpfr_float&b){ return RandomMp(a,b,DefaultPrecision()); }
mpfr_float RandomMp(const mpfr_float&a,const mpfr_float&b,unsigned n){ mpfr_float r=(b-a)*draw01()+a; r.precision(n); return r; }
// random rationals (node constants, linear products): symbolic mode hands out tagged rationals which the runtime reads as the symbol
template<> mpq_rational RandomRat<50>(){ int k=sr::rand_count; 
  if(sr::rand_mode==sr::RAND_SYMBOLIC && k<sr::rand_limit){ sr::rand_count++; std::string n=sr::rand_prefix+std::to_string(k); 
#ifdef SR_NATIVE
    std::string t=sr::val(n).first; // decimal -> rational
    auto e=t.find_first_of("eE"); if(e!=std::string::npos){ double d=atof(t.c_str()); return mpq_rational(mpz_int((long long)(d*1e15)),mpz_int(1000000000000000LL)); }
    auto p=t.find('.'); std::string digits=t; mpz_int den=1; if(p!=std::string::npos){ digits=t.substr(0,p)+t.substr(p+1); for(size_t i=p+1;i<t.size();i++) den*=10; } bool neg=!digits.empty()&&digits[0]=='-'; if(neg) digits=digits.substr(1); size_t z=digits.find_first_not_of('0'); digits= z==std::string::npos? "0" : digits.substr(z); mpz_int num(digits); if(neg) num=-num; return mpq_rational(num,den);
#else
    mpz_int den(1); den<<=120; den+=2*k+1; mpq_rational q(mpz_int(7919*(k+1)),den); sr::srh_tag_mpq(q.backend().data(),sr::real(n)); return q;
#endif
  }
  static const int num[]={-1,3,2,-5,3,7,-4,5,-2,9,-5,11,6,-7,3,13,-8,3,10,-9}; static const int den[]={4,7,5,9,11,10,13,8,11,16,14,17,19,20,22,23,25,26,27,28}; sr::rand_count++; int q=k/20; return mpq_rational(num[k%20],den[k%20]*(q+1)); }
}
#ifndef SR_NATIVE
// conversion of rationals to double: exact, and tagged rationals become their symbol
namespace boost{ namespace multiprecision{ namespace detail{
template<> void generic_convert_rational_to_float<double,backends::gmp_rational>(double&r,const backends::gmp_rational&q){ r=sr::srh_mpq_dbl(q.data()); }
}}}
#endif
