#include <um2/geometry/quadratic_segment.hpp>
using namespace um2;
using F = double;
#define GEN(D)                                                                                                           \
  using Q##D = QuadraticSegment<D, F>;                                                                                   \
  using P##D = Point<D, F>;                                                                                              \
  extern "C" {                                                                                                           \
  void q##D##_make(P##D const & a, P##D const & b, P##D const & m, P##D * o) { Q##D q(a, b, m); o[0] = q[0]; o[1] = q[1]; o[2] = q.vertices()[2]; } \
  void q##D##_at(Q##D const & q, F r, P##D * o) { *o = q(r); }                                                           \
  void q##D##_jac(Q##D const & q, F r, P##D * o) { *o = q.jacobian(r); }                                                 \
  void q##D##_poly(Q##D const & q, P##D * o) { auto c = q.getPolyCoeffs(); o[0] = c[0]; o[1] = c[1]; o[2] = c[2]; }      \
  void q##D##_box(Q##D const & q, F r, P##D * lo, P##D * hi) { (void)r; auto b = q.boundingBox(); *lo = b.minima(); *hi = b.maxima(); } \
  }
#define GENN(D) extern "C" { \
  F q##D##_near(Q##D const & q, P##D const & p) { return q.pointClosestTo(p); }                                          \
  F q##D##_nearx(Q##D const & q, P##D const & p, F t) { (void)t; return q.pointClosestTo(p); }                           \
  void q##D##_sd(Q##D const & q, P##D const & p, F * o) { o[0] = q.squaredDistanceTo(p); o[1] = q.pointClosestTo(p); }   \
  void q##D##_d(Q##D const & q, P##D const & p, F * o) { o[0] = q.distanceTo(p); o[1] = q.pointClosestTo(p); }           \
  }
GEN(1) GEN(2) GEN(3) GENN(2) GENN(3)
extern "C" {
bool q2_straight(Q2 const & q) { return isStraight(q); }
bool q3_straight(Q3 const & q) { return isStraight(q); }
F q2_len(Q2 const & q) { return q.length(); }
F q3_len(Q3 const & q) { return q.length(); }
F q2_lenstr(Q2 const & q) { return q.length(); }
F q3_lenstr(Q3 const & q) { return q.length(); }
F q2_area(Q2 const & q) { return enclosedArea(q); }
void q2_cent(Q2 const & q, P2 * o) { *o = enclosedCentroid(q); }
bool q2_curves(Q2 const & q) { return q.curvesLeft(); }
void q2_rot(Q2 const & q, P2 const & p, P2 * o) { *o = q.getRotation() * p; }
bool q2_leftstr(Q2 const & q, P2 const & p) { return q.isLeft(p); }
bool q2_leftout(Q2 const & q, P2 const & p) { return q.isLeft(p); }
bool q2_left(Q2 const & q, P2 const & p) { return q.isLeft(p); }
Int q2_hit(Q2 const & q, P2 const & o, P2 const & d, F * buf) { return q.intersect(Ray2<F>(o, d), buf); }
Int q2_hitall(Q2 const & q, P2 const & o, P2 const & d, F s, F t, F * buf) { (void)s; (void)t; return q.intersect(Ray2<F>(o, d), buf); }
Int q2_meet(Q2 const & q, Q2 const & w, P2 * buf) { return q.intersect(w, buf); }
bool q2_meets(Q2 const & q, Q2 const & w, F r, F s) { (void)r; (void)s; return q.intersects(w); }
}
