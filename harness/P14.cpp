#include <um2/geometry/line_segment.hpp>
using namespace um2;
using F = double;
#define GEN(D)                                                                                                           \
  using L##D = LineSegment<D, F>;                                                                                        \
  using P##D = Point<D, F>;                                                                                              \
  extern "C" {                                                                                                           \
  void l##D##_make(P##D const & a, P##D const & b, P##D * o) { L##D l(a, b); o[0] = l[0]; o[1] = l.vertices()[1]; }      \
  void l##D##_vert(L##D const & l, Int i, P##D * o) { *o = l[i]; }                                                       \
  void l##D##_at(L##D const & l, F r, P##D * o) { *o = l(r); }                                                           \
  void l##D##_jac(L##D const & l, F r, P##D * o) { *o = l.jacobian(r); }                                                 \
  F l##D##_len(L##D const & l) { return l.length(); }                                                                    \
  void l##D##_box(L##D const & l, P##D * lo, P##D * hi) { auto b = l.boundingBox(); *lo = b.minima(); *hi = b.maxima(); } \
  F l##D##_near(L##D const & l, P##D const & p) { return l.pointClosestTo(p); }                                          \
  F l##D##_sd(L##D const & l, P##D const & p, F t) { (void)t; return l.squaredDistanceTo(p); }                           \
  F l##D##_d(L##D const & l, P##D const & p) { return l.distanceTo(p); }                                                 \
  void l##D##_ray(P##D const & o, P##D const & d, F r, P##D * x) { *x = Ray<D, F>(o, d)(r); }                            \
  void l##D##_rayinv(P##D const & o, P##D const & d, P##D * x) { *x = Ray<D, F>(o, d).inverseDirection(); }              \
  }
GEN(1) GEN(2) GEN(3)
extern "C" {
void l2_rot(L2 const & l, P2 * o) { Mat2x2<F> m = l.getRotation(); *o = m * (l[1] - l[0]); }
void l2_rotp(L2 const & l, P2 const & p, P2 * o) { Mat2x2<F> m = l.getRotation(); *o = m * p; }
bool l2_left(L2 const & l, P2 const & p) { return l.isLeft(p); }
Int l2_hit(L2 const & l, P2 const & o, P2 const & d, F t, F * buf) { (void)t; return l.intersect(Ray2<F>(o, d), buf); }
bool p2_ccw(P2 const & a, P2 const & b, P2 const & c) { return areCCW(a, b, c); }
void p2_mid(P2 const & a, P2 const & b, P2 * o) { *o = midpoint(a, b); }
}
