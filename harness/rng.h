#ifndef RNG_H
#define RNG_H
// The random number generator replaced by one that draws anything. To be
// included by one source file; see vplib.py for VP_RNG.
#include "RandomNumberGenerator.h"

#ifdef VP_RNG
namespace
{
int64_t draws = 0;
}
pyvrp::RandomNumberGenerator::result_type pyvrp::RandomNumberGenerator::operator()()
{
    return vp_i64(nm("draw", draws++).c_str(), 0, 4294967295);
}
double pyvrp::RandomNumberGenerator::rand()
{
    return vp_i64(nm("draw", draws++).c_str(), 0, 4294967296) / 4294967296.0;
}
#endif
#endif
