#include <um2/geometry/modular_rays.hpp>
using namespace um2;
using F = double;
using P = Point2<F>;
using M = ModularRayParams<F>;
static void
put(M const & m, Int * n, F * o)
{
  n[0] = m.getNumXRays(); n[1] = m.getNumYRays(); n[2] = m.getTotalNumRays();
  auto const s = m.getSpacing(); o[0] = s[0]; o[1] = s[1];
  auto const d = m.getDirection(); o[2] = d[0]; o[3] = d[1];
}
extern "C" {
void mr_make(F a, F s, P const & lo, P const & hi, Int * n, F * o) { put(M(a, s, AxisAlignedBox2<F>(lo, hi)), n, o); }
void mr_all(F a, F s, P const & lo, P const & hi, Int i, Int * n, F * o, P * r)
{
  M const m(a, s, AxisAlignedBox2<F>(lo, hi));
  put(m, n, o);
  if (i < m.getTotalNumRays()) { auto const ray = m.getRay(i); r[0] = ray.origin(); r[1] = ray.direction(); }
}
}
