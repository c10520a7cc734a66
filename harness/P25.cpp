#include "mesh.hpp"
#include <algorithm>
#include <vector>
#ifdef IRV_NATIVE
// the crossings of each face on its own, `most` places per face
#  define REF(P, N) for (Int i = 0; i < s.m.numFaces(); ++i) { rn[i] = s.m.getFace(i).intersect(ray, rc + 2 * N * i); }
#else
#  define REF(P, N)
#endif
#define GEN(P, N, k)                                                                                                     \
  extern "C" {                                                                                                           \
  Int k##_all(Vs<P, N> const & v, Cs<P, N> const & c, F const * r, F * co, Int m, Int n, Int * rn, F * rc)                   \
  { QUIET; Mk<P, N> const s(v, c); Ray2F const ray(Point2F(r[0], r[1]), Vec2F(r[2], r[3])); REF(P, N) return s.m.intersect(ray, co); } \
  void k##_tab(Vs<P, N> const & v, Cs<P, N> const & c, F const * r, F * co, Int m, Int * of, Int * fa, Int n, Int * o, Int * rn, F * rc) \
  { QUIET; Mk<P, N> const s(v, c); Ray2F const ray(Point2F(r[0], r[1]), Vec2F(r[2], r[3])); REF(P, N)                      \
    auto const q = s.m.intersect(ray, co, of, fa); o[0] = q[0]; o[1] = q[1]; }                                           \
  }
KINDS(GEN)
extern "C" {
void rays(F const * co, Int const * of, Int const * fa, F * sc, Int * so, Int * sf, Int * pm, Int h, Int n, F * key)
{
  sortRayMeshIntersections(co, of, fa, sc, so, sf, pm, Vec2I(h, n));
#ifdef IRV_NATIVE
  for (Int i = 0; i < n; ++i) {
    std::vector<F> q(co + of[i], co + of[i + 1]);
    std::sort(q.begin(), q.end());
    key[i] = q.size() > 1 ? (q[0] + q[1]) / 2 : q[0];
  }
#endif
}
}
