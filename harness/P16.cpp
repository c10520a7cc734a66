#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
using namespace um2;
using F = double;
#define GEN(K, Q, NV, M, D)                                                                                              \
  using K##D = Q<D, F>;                                                                                                  \
  using K##D##P = Point<D, F>;                                                                                           \
  using K##D##E = QuadraticSegment<D, F>;                                                                                \
  extern "C" {                                                                                                           \
  void K##D##_idx(Int const * ix, Int m, K##D##P const * pv, K##D * o)                                                          \
  { (void)m; Vec<NV, Int> v; for (Int i = 0; i < NV; ++i) { v[i] = ix[i]; } *o = K##D(v, pv); }                                   \
  void K##D##_vert(K##D const & q, Int i, K##D##P * o) { o[0] = q[i]; o[1] = q.vertices()[i]; }                          \
  void K##D##_set(K##D & q, Int i, K##D##P const & p) { q[i] = p; }                                                      \
  void K##D##_at(K##D const & q, F r, F s, K##D##P * o) { *o = q(r, s); }                                                \
  void K##D##_jac(K##D const & q, F r, F s, K##D##P * o) { auto const m = q.jacobian(r, s); o[0] = m.col(0); o[1] = m.col(1); } \
  void K##D##_edge(K##D const & q, Int i, K##D##E * o) { *o = q.getEdge(i); }                                            \
  void K##D##_lin(K##D const & q, K##D##P * o) { auto const l = q.linearPolygon(); for (Int i = 0; i < M; ++i) { o[i] = l[i]; } } \
  void K##D##_flip(K##D & q) { q.flip(); }                                                                               \
  void K##D##_peri(K##D const & q, F * o) { o[0] = q.perimeter(); for (Int i = 0; i < M; ++i) { o[1 + i] = q.getEdge(i).length(); } } \
  }
#define GEN2(K, M)                                                                                                       \
  extern "C" {                                                                                                           \
  void K##2_box(K##2 const & q, K##2P * o) { auto const b = q.boundingBox(); o[0] = b.minima(); o[1] = b.maxima();       \
    for (Int i = 0; i < M; ++i) { auto const e = q.getEdge(i).boundingBox(); o[2 + 2 * i] = e.minima(); o[3 + 2 * i] = e.maxima(); } } \
  F K##2_area(K##2 const & q) { return q.area(); }                                                                       \
  void K##2_cent(K##2 const & q, K##2P * o) { o[0] = q.centroid(); for (Int i = 0; i < M; ++i) { o[1 + i] = enclosedCentroid(q.getEdge(i)); } } \
  bool K##2_ccw(K##2 const & q) { return q.isCCW(); }                                                                    \
  bool K##2_in(K##2 const & q, K##2P const & p, bool * o) { for (Int i = 0; i < M; ++i) { o[i] = q.getEdge(i).isLeft(p); } return q.contains(p); } \
  void K##2_mcl(K##2 const & q, F * o) { o[0] = q.meanChordLength(); o[1] = q.area(); o[2] = q.perimeter(); }            \
  Int K##2_hit(K##2 const & q, K##2P const & o, K##2P const & d, F * buf, F * eb, Int * en)                              \
  { Ray2<F> const r(o, d); for (Int i = 0; i < M; ++i) { en[i] = q.getEdge(i).intersect(r, eb + 2 * i); } return q.intersect(r, buf); } \
  bool K##2_self(K##2 const & q) { return q.hasSelfIntersection(); }                                                     \
  }
GEN(t6_, QuadraticTriangle, 6, 3, 2) GEN(t6_, QuadraticTriangle, 6, 3, 3) GEN2(t6_, 3)
GEN(q8_, QuadraticQuadrilateral, 8, 4, 2) GEN(q8_, QuadraticQuadrilateral, 8, 4, 3) GEN2(q8_, 4)
