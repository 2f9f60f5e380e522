// Stand-in for core/src/basics/random.cpp: the random reals are either fixed small rationals or, when a
// harness asks for it, symbolic values constrained to the documented interval.
#pragma once
#include <string>
namespace sr { 
enum RandMode{ RAND_FIXED, RAND_SYMBOLIC };
extern RandMode rand_mode; extern std::string rand_prefix; extern int rand_count; extern int rand_limit;
}
