#include <um2/geometry/axis_aligned_box.hpp>
using namespace um2;
using F = double;
#define GEN(D)                                                                                                           \
  using B##D = AxisAlignedBox<D, F>;                                                                                     \
  using P##D = Point<D, F>;                                                                                              \
  extern "C" {                                                                                                           \
  void b##D##_make(P##D const & a, P##D const & b, P##D * lo, P##D * hi) { B##D x(a, b); *lo = x.minima(); *hi = x.maxima(); } \
  F b##D##_mini(B##D const & b, Int i) { return b.minima(i); }                                                           \
  F b##D##_maxi(B##D const & b, Int i) { return b.maxima(i); }                                                           \
  void b##D##_addp(B##D & b, P##D const & p) { b += p; }                                                                 \
  void b##D##_addb(B##D & b, B##D const & c) { b += c; }                                                                 \
  void b##D##_plusp(B##D const & b, P##D const & p, B##D * o) { *o = b + p; }                                            \
  void b##D##_plusb(B##D const & b, B##D const & c, B##D * o) { *o = b + c; }                                            \
  void b##D##_emptyp(P##D const & p, B##D * o) { *o = B##D::empty(); *o += p; }                                          \
  bool b##D##_emptyc(P##D const & p) { return B##D::empty().contains(p); }                                               \
  void b##D##_ext(B##D const & b, P##D * o) { *o = b.extents(); }                                                        \
  F b##D##_exti(B##D const & b, Int i) { return b.extents(i); }                                                          \
  void b##D##_cent(B##D const & b, P##D * o) { *o = b.centroid(); }                                                      \
  bool b##D##_cont(B##D const & b, P##D const & p) { return b.contains(p); }                                             \
  bool b##D##_approx(B##D const & b, B##D const & c) { return b.isApprox(c); }                                           \
  void b##D##_scale(B##D & b, F s) { b.scale(s); }                                                                       \
  bool b##D##_meets(B##D const & b, B##D const & c) { return b.intersects(c); }                                          \
  void b##D##_of(P##D const * p, Int n, B##D * o) { *o = boundingBox(p, n); }                                            \
  void b##D##_of2(P##D const * p, Int n, B##D * o) { *o = boundingBox(p, p + n); }                                       \
  }
GEN(1) GEN(2) GEN(3)
#define RAY(D)                                                                                                           \
  extern "C" {                                                                                                           \
  void b##D##_ray(B##D const & b, P##D const & o, P##D const & d, Vec2<F> * r) { *r = b.intersect(Ray<D, F>(o, d)); }    \
  void b##D##_rayi(B##D const & b, P##D const & o, P##D const & d, Vec2<F> * r) { Ray<D, F> ray(o, d); *r = b.intersect(ray, ray.inverseDirection()); } \
  void b##D##_rayx(B##D const & b, P##D const & o, P##D const & d, Vec2<F> * r) { *r = b.intersect(Ray<D, F>(o, d)); }   \
  void b##D##_rayix(B##D const & b, P##D const & o, P##D const & d, Vec2<F> * r) { Ray<D, F> ray(o, d); *r = b.intersect(ray, ray.inverseDirection()); } \
  }
RAY(2) RAY(3)
