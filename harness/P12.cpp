#include <um2/math/stats.hpp>
using namespace um2;
using F = double;
extern "C" {
F st_sum(F const * b, Int n) { return um2::sum(b, b + n); }
F st_mean(F const * b, Int n) { return um2::mean(b, b + n); }
F st_median(F const * b, Int n) { return um2::median(b, b + n); }
F st_variance(F const * b, Int n) { return um2::variance(b, b + n); }
F st_stddev(F const * b, Int n) { return um2::stdDev(b, b + n); }
}
