#include <um2/math/vec.hpp>
using namespace um2;
using F = double;
#define GEN(P, D, T)                                                                                                     \
  extern "C" {                                                                                                           \
  void P##D##_neg(Vec<D, T> const & u, Vec<D, T> * o) { *o = -u; }                                                       \
  void P##D##_addv(Vec<D, T> const & u, Vec<D, T> const & v, Vec<D, T> * o) { *o = u + v; }                              \
  void P##D##_subv(Vec<D, T> const & u, Vec<D, T> const & v, Vec<D, T> * o) { *o = u - v; }                              \
  void P##D##_mulv(Vec<D, T> const & u, Vec<D, T> const & v, Vec<D, T> * o) { *o = u * v; }                              \
  void P##D##_iaddv(Vec<D, T> & u, Vec<D, T> const & v) { u += v; }                                                      \
  void P##D##_isubv(Vec<D, T> & u, Vec<D, T> const & v) { u -= v; }                                                      \
  void P##D##_imulv(Vec<D, T> & u, Vec<D, T> const & v) { u *= v; }                                                      \
  void P##D##_sets(Vec<D, T> & u, T s) { u = s; }                                                                        \
  void P##D##_iadds(Vec<D, T> & u, T s) { u += s; }                                                                      \
  void P##D##_isubs(Vec<D, T> & u, T s) { u -= s; }                                                                      \
  void P##D##_imuls(Vec<D, T> & u, T s) { u *= s; }                                                                      \
  void P##D##_sadd(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = s + u; }                                              \
  void P##D##_adds(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = u + s; }                                              \
  void P##D##_ssub(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = s - u; }                                              \
  void P##D##_subs(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = u - s; }                                              \
  void P##D##_smul(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = s * u; }                                              \
  void P##D##_muls(Vec<D, T> const & u, T s, Vec<D, T> * o) { *o = u * s; }                                              \
  void P##D##_zero(Vec<D, T> * o) { *o = Vec<D, T>::zero(); }                                                            \
  void P##D##_imin(Vec<D, T> & u, Vec<D, T> const & v) { u.min(v); }                                                     \
  void P##D##_imax(Vec<D, T> & u, Vec<D, T> const & v) { u.max(v); }                                                     \
  void P##D##_min(Vec<D, T> const & u, Vec<D, T> const & v, Vec<D, T> * o) { *o = um2::min(u, v); }                      \
  void P##D##_max(Vec<D, T> const & u, Vec<D, T> const & v, Vec<D, T> * o) { *o = um2::max(u, v); }                      \
  T P##D##_dot(Vec<D, T> const & u, Vec<D, T> const & v) { return u.dot(v); }                                            \
  T P##D##_fdot(Vec<D, T> const & u, Vec<D, T> const & v) { return um2::dot(u, v); }                                     \
  T P##D##_sqn(Vec<D, T> const & u) { return u.squaredNorm(); }                                                          \
  T P##D##_fsqn(Vec<D, T> const & u) { return um2::squaredNorm(u); }                                                     \
  T P##D##_sqd(Vec<D, T> const & u, Vec<D, T> const & v) { return u.squaredDistanceTo(v); }                              \
  bool P##D##_eq(Vec<D, T> const & u, Vec<D, T> const & v) { return u == v; }                                            \
  bool P##D##_ne(Vec<D, T> const & u, Vec<D, T> const & v) { return u != v; }                                            \
  bool P##D##_lt(Vec<D, T> const & u, Vec<D, T> const & v) { return u < v; }                                             \
  bool P##D##_gt(Vec<D, T> const & u, Vec<D, T> const & v) { return u > v; }                                             \
  bool P##D##_le(Vec<D, T> const & u, Vec<D, T> const & v) { return u <= v; }                                            \
  bool P##D##_ge(Vec<D, T> const & u, Vec<D, T> const & v) { return u >= v; }                                            \
  T P##D##_at(Vec<D, T> const & u, Int i) { return u[i]; }                                                               \
  void P##D##_put(Vec<D, T> & u, Int i, T s) { u[i] = s; }                                                               \
  void P##D##_beg(Vec<D, T> const & u, T * o) { Int n = 0; for (auto const & x : u) { o[n] = x; ++n; } }                 \
  }
#define GENF(D)                                                                                                          \
  extern "C" {                                                                                                           \
  void f##D##_divv(Vec<D, F> const & u, Vec<D, F> const & v, Vec<D, F> * o) { *o = u / v; }                              \
  void f##D##_idivv(Vec<D, F> & u, Vec<D, F> const & v) { u /= v; }                                                      \
  void f##D##_idivs(Vec<D, F> & u, F s) { u /= s; }                                                                      \
  void f##D##_divs(Vec<D, F> const & u, F s, Vec<D, F> * o) { *o = u / s; }                                              \
  void f##D##_sdiv(Vec<D, F> const & u, F s, Vec<D, F> * o) { *o = s / u; }                                              \
  F f##D##_norm(Vec<D, F> const & u) { return u.norm(); }                                                                \
  F f##D##_fnorm(Vec<D, F> const & u) { return um2::norm(u); }                                                           \
  void f##D##_inormalize(Vec<D, F> & u) { u.normalize(); }                                                               \
  void f##D##_normalized(Vec<D, F> const & u, Vec<D, F> * o) { *o = u.normalized(); }                                    \
  void f##D##_fnormalized(Vec<D, F> const & u, Vec<D, F> * o) { *o = um2::normalized(u); }                               \
  F f##D##_dist(Vec<D, F> const & u, Vec<D, F> const & v) { return u.distanceTo(v); }                                    \
  bool f##D##_approx(Vec<D, F> const & u, Vec<D, F> const & v) { return u.isApprox(v); }                                 \
  bool f##D##_approxe(Vec<D, F> const & u, Vec<D, F> const & v, F e) { return u.isApprox(v, e); }                        \
  }
GEN(f, 1, F) GEN(f, 2, F) GEN(f, 3, F) GEN(f, 4, F) GEN(i, 2, Int) GEN(i, 3, Int)
GENF(1) GENF(2) GENF(3) GENF(4)
extern "C" {
F f2_cross(Vec2<F> const & u, Vec2<F> const & v) { return u.cross(v); }
F f2_fcross(Vec2<F> const & u, Vec2<F> const & v) { return um2::cross(u, v); }
void f3_cross(Vec3<F> const & u, Vec3<F> const & v, Vec3<F> * o) { *o = u.cross(v); }
void f3_fcross(Vec3<F> const & u, Vec3<F> const & v, Vec3<F> * o) { *o = um2::cross(u, v); }
void f2_make(F a, F b, Vec2<F> * o) { *o = Vec2<F>(a, b); }
void f3_make(F a, F b, F c, Vec3<F> * o) { *o = Vec3<F>(a, b, c); }
void f2_makei(Int a, Int b, Vec2<F> * o) { *o = Vec2<F>(a, b); }
}
