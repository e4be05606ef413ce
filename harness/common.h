// Shared builders for symbolic problem instances.
#pragma once
#include "vp.h"

#include "Activity.h"
#include "CostEvaluator.h"
#include "ProblemData.h"
#include "Route.h"
#include "Solution.h"

#include <optional>
#include <string>
#include <vector>

using namespace pyvrp;
using AT = Activity::ActivityType;

constexpr int64_t IMAX = std::numeric_limits<int64_t>::max();

inline std::string nm(char const *base, size_t i) { return std::string(base) + "_" + std::to_string(i); }
inline std::string nm(char const *base, size_t i, size_t j)
{
    return std::string(base) + "_" + std::to_string(i) + "_" + std::to_string(j);
}
inline int64_t sym(char const *base, int64_t lo, int64_t hi) { return vp_i64(base, lo, hi); }
inline int64_t sym(std::string const &n, int64_t lo, int64_t hi) { return vp_i64(n.c_str(), lo, hi); }

inline int64_t imax(int64_t a, int64_t b) { return a > b ? a : b; }
inline int64_t imin(int64_t a, int64_t b) { return a < b ? a : b; }
