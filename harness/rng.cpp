// The random number generator itself.
#include "common.h"

#include "RandomNumberGenerator.h"

using pyvrp::RandomNumberGenerator;
namespace
{
std::array<uint32_t, 4> anyState()
{
    std::array<uint32_t, 4> s;
    for (size_t i = 0; i != 4; ++i)
        s[i] = sym(nm("state", i), 0, 4294967295);
    return s;
}
}  // namespace
// A given bound is never reached, whatever the state and the bound.
extern "C" void h_rng_int()
{
    RandomNumberGenerator rng(anyState());
    for (size_t i = 0; i != 2; ++i)
    {
        int64_t const high = sym(nm("high", i), 1, 4294967295);
        vp_check(rng.randint(high) < uint64_t(high), "integers are below the bound");
    }
    vp_cover("end");
}
extern "C" void h_rng_one()
{
    RandomNumberGenerator rng(anyState());
    vp_check(rng.randint(1) == 0, "only zero is below one");
    vp_cover("end");
}
// Equal states give equal streams, and the state can be carried over at any point.
extern "C" void h_rng_same()
{
    auto const s = anyState();
    RandomNumberGenerator a(s), b(s);
    for (size_t i = 0; i != 3; ++i)
        vp_check(a() == b(), "equal states give equal streams");
    RandomNumberGenerator c(a.state());
    for (size_t i = 0; i != 3; ++i)
        vp_check(a() == c(), "the state determines the rest of the stream");
    uint32_t const seed = sym("seed", 0, 4294967295);
    RandomNumberGenerator d(seed), e(seed);
    for (size_t i = 0; i != 3; ++i)
        vp_check(d() == e(), "equal seeds give equal streams");
    vp_cover("end");
}
