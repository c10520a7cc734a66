#include <um2/common/permutation.hpp>
using namespace um2;
struct Rec {
  double key;
  int64_t tag;
};
// NOLINTBEGIN
extern "C" {
#define SORTP(p, T) void p##_sort(T const * a, Int n, Int * p) { sortPermutation(a, a + n, p); }
SORTP(d, double)
SORTP(f, float)
SORTP(i, int32_t)
SORTP(l, int64_t)
SORTP(u, uint64_t)
#define APPLY(p, T) void p##_app(T * a, Int n, Int const * p, Int const * g) { applyPermutation(a, a + n, p); }
APPLY(d, double)
APPLY(f, float)
APPLY(i, int32_t)
APPLY(l, int64_t)
APPLY(r, Rec)
void inv(Int const * p, Int n, Int const * g, Int * q) { invertPermutation(p, p + n, q); }
void inv_twice(Int const * p, Int n, Int const * g, Int * q, Int * r)
{
  invertPermutation(p, p + n, q);
  invertPermutation(q, q + n, r);
}
// visiting order and its inverse
void d_both(double const * a, Int n, Int * p, Int * q)
{
  sortPermutation(a, a + n, p);
  invertPermutation(p, p + n, q);
}
}
