#include <um2/math/mat.hpp>
using namespace um2;
using F = double;
#define GEN(M, N)                                                                                                        \
  extern "C" {                                                                                                           \
  void m##M##N##_add(Mat<M, N, F> const & a, Mat<M, N, F> const & b, Mat<M, N, F> * o) { *o = a + b; }                   \
  void m##M##N##_sub(Mat<M, N, F> const & a, Mat<M, N, F> const & b, Mat<M, N, F> * o) { *o = a - b; }                   \
  void m##M##N##_mulv(Mat<M, N, F> const & a, Vec<N, F> const & x, Vec<M, F> * o) { *o = a * x; }                        \
  void m##M##N##_zero(Mat<M, N, F> * o) { *o = Mat<M, N, F>::zero(); }                                                   \
  F m##M##N##_at(Mat<M, N, F> const & a, Int i, Int j) { return a(i, j); }                                               \
  F m##M##N##_lin(Mat<M, N, F> const & a, Int i) { return a(i); }                                                        \
  void m##M##N##_put(Mat<M, N, F> & a, Int i, Int j, F s) { a(i, j) = s; }                                               \
  void m##M##N##_putl(Mat<M, N, F> & a, Int i, F s) { a(i) = s; }                                                        \
  void m##M##N##_col(Mat<M, N, F> const & a, Int j, Vec<M, F> * o) { *o = a.col(j); }                                    \
  void m##M##N##_putc(Mat<M, N, F> & a, Int j, Vec<M, F> const & x) { a.col(j) = x; }                                    \
  }
#define GENP(M, N, P)                                                                                                    \
  extern "C" {                                                                                                           \
  void m##M##N##P##_mul(Mat<M, N, F> const & a, Mat<N, P, F> const & b, Mat<M, P, F> * o) { *o = a * b; }                \
  }
GEN(2, 2) GEN(3, 3) GEN(2, 3) GEN(3, 2) GEN(4, 2)
GENP(2, 2, 2) GENP(3, 3, 3) GENP(2, 3, 2) GENP(3, 2, 3) GENP(2, 2, 3) GENP(2, 3, 3) GENP(3, 2, 2) GENP(3, 3, 2) GENP(4, 2, 3)
extern "C" {
void m22_ident(Mat<2, 2, F> * o) { *o = Mat<2, 2, F>::identity(); }
void m33_ident(Mat<3, 3, F> * o) { *o = Mat<3, 3, F>::identity(); }
void m22_cols(Vec2<F> const & a, Vec2<F> const & b, Mat<2, 2, F> * o) { *o = Mat<2, 2, F>(a, b); }
void m33_cols(Vec3<F> const & a, Vec3<F> const & b, Vec3<F> const & c, Mat<3, 3, F> * o) { *o = Mat<3, 3, F>(a, b, c); }
void m22_rot(F t, Mat<2, 2, F> * o) { *o = makeRotationMatrix(t); }
void m22_inv(Mat<2, 2, F> const & a, Mat<2, 2, F> * o) { *o = inv(a); }
F det22(F a, F b, F c, F d) { return det2x2(a, b, c, d); }
}
