// Interface between the harnesses and the symbolic executor (or, natively, the
// replay runtime in replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
    // A fresh symbolic 64-bit integer in [lo, hi].
    int64_t vp_i64(char const *name, int64_t lo, int64_t hi);
    // A fresh symbolic boolean.
    bool vp_bool(char const *name);
    // A fresh symbolic integer in [0, n), enumerated by the executor.
    int64_t vp_choose(char const *name, int64_t n);
    void vp_assume(bool cond);
    void vp_check(bool cond, char const *msg);
    void vp_cover(char const *name);
    void vp_observe(int64_t value);
    int64_t vp_concrete(int64_t value);
    [[noreturn]] void vp_fail(char const *msg);
    // The harness cannot go on: neither a violation nor a proof.
    [[noreturn]] void vp_beyond(char const *msg);
}
