// Shadows Boost's hypot in the instrumented build: the same real function without Boost's scaling against overflow,
// whose comparisons would split every path. Native replays use Boost's own.
#ifdef SR_NATIVE
#include_next <boost/math/special_functions/hypot.hpp>
#else
#ifndef BOOST_MATH_HYPOT_INCLUDED
#define BOOST_MATH_HYPOT_INCLUDED
#include <boost/math/tools/config.hpp>
#include <boost/math/tools/precision.hpp>
#include <boost/math/policies/error_handling.hpp>
#include <boost/math/special_functions/math_fwd.hpp>
#include <algorithm>
#include <cmath>
namespace boost{ namespace math{
template <class T1, class T2, class Policy> inline typename tools::promote_args<T1, T2>::type hypot(T1 x, T2 y, const Policy&){ typedef typename tools::promote_args<T1, T2>::type R; using std::sqrt; R a(x),b(y); R s(a*a); s+=b*b; return sqrt(s); }
template <class T1, class T2> inline typename tools::promote_args<T1, T2>::type hypot(T1 x, T2 y){ return boost::math::hypot(x,y,policies::policy<>()); }
}}
#endif
#endif
