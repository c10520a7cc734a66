#include <um2/config.hpp>
#include <um2/math/matrix.hpp>
#if UM2_USE_BLAS_LAPACK
#  include "src/math/matrix.cpp"
#endif
#include <um2/stdlib/vector.hpp>
using namespace um2;
// A matrix over the storage of v: m and v swap their elements.
template <class T>
struct Mx {
  Matrix<T> m;
  Vector<T> & v;
  Mx(Int r, Int c, Vector<T> & w) : m(r, c), v(w) { m.asVector() = um2::move(v); }
  ~Mx() { v = um2::move(m.asVector()); }
};
#define COMMON(N, T)                                                                                          \
  extern "C" {                                                                                                \
  Int N##_ix(Int r, Int c, Int i, Int j, Vector<T> & a) { Mx<T> x(r, c, a); return static_cast<Int>(&x.m(i, j) - x.m.data()); }         \
  Int N##_cix(Int r, Int c, Int i, Int j, Vector<T> & a) { Mx<T> x(r, c, a); Matrix<T> const & m = x.m; return static_cast<Int>(&m(i, j) - m.data()); } \
  Int N##_lin(Int r, Int c, Int i, Vector<T> & a) { Mx<T> x(r, c, a); Matrix<T> const & m = x.m; return static_cast<Int>((&x.m(i) - x.m.data()) + (&m(i) - m.data())); }        \
  void N##_shape(Int r, Int c, Int * o, Vector<T> & v) { Matrix<T> m(r, c); o[0] = m.rows(); o[1] = m.cols(); o[2] = static_cast<Int>(m.end() - m.begin()); v = um2::move(m.asVector()); } \
  void N##_fill(Int r, Int c, T const * x, Int * o, Vector<T> & v) { Matrix<T> m(r, c, *x); o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); } \
  void N##_eye(Int n, Int * o, Vector<T> & v) { Matrix<T> m = Matrix<T>::identity(n); o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); }   \
  void N##_zero(Int r, Int c, Vector<T> & a) { Mx<T> x(r, c, a); x.m.zero(); }                                \
  void N##_tr(Int n, Vector<T> & a) { Mx<T> x(n, n, a); x.m.transpose(); }                                    \
  void N##_scale(Int r, Int c, T const * s, Vector<T> & a) { Mx<T> x(r, c, a); x.m *= *s; }                   \
  void N##_addto(Int r, Int c, Vector<T> & a, Vector<T> & b) { Mx<T> x(r, c, a); Mx<T> y(r, c, b); x.m += y.m; } \
  void N##_subto(Int r, Int c, Vector<T> & a, Vector<T> & b) { Mx<T> x(r, c, a); Mx<T> y(r, c, b); x.m -= y.m; } \
  void N##_add(Int r, Int c, Vector<T> & a, Vector<T> & b, Int * o, Vector<T> & v) { Mx<T> x(r, c, a); Mx<T> y(r, c, b); Matrix<T> m = x.m + y.m; o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); } \
  void N##_sub(Int r, Int c, Vector<T> & a, Vector<T> & b, Int * o, Vector<T> & v) { Mx<T> x(r, c, a); Mx<T> y(r, c, b); Matrix<T> m = x.m - y.m; o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); } \
  }
#define PRODUCTS(N, T)                                                                                        \
  extern "C" {                                                                                                \
  void N##_mv(Int r, Int c, Vector<T> & a, Vector<T> & x, Vector<T> & v) { Mx<T> m(r, c, a); v = m.m * x; }   \
  void N##_mm(Int r, Int k, Int c, Vector<T> & a, Vector<T> & b, Int * o, Vector<T> & v) { Mx<T> x(r, k, a); Mx<T> y(k, c, b); Matrix<T> m = x.m * y.m; o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); } \
  void N##_into(Int r, Int k, Int c, Vector<T> & a, Vector<T> & b, Vector<T> & v) { Mx<T> x(r, k, a); Mx<T> y(k, c, b); Mx<T> z(r, c, v); matmul(z.m, x.m, y.m); } \
  }
#if UM2_USE_BLAS_LAPACK
#  define SOLVES(N, T)                                                                                        \
    extern "C" {                                                                                              \
    void N##_solve(Int n, Int c, Vector<T> & a, Vector<T> & b, Int * o, Vector<T> & v) { Mx<T> x(n, n, a); Mx<T> y(n, c, b); Matrix<T> m = linearSolve(x.m, y.m); o[0] = m.rows(); o[1] = m.cols(); v = um2::move(m.asVector()); } \
    void N##_solvein(Int n, Int c, Vector<T> & a, Vector<T> & v, Vector<Int> & p) { Mx<T> x(n, n, a); Mx<T> y(n, c, v); linearSolve(x.m, y.m, p); } \
    void N##_eig(Int n, Vector<T> & a, Vector<N##_C> & v) { Mx<T> x(n, n, a); v = eigvals(x.m); }             \
    }
using d_C = Complex<double>;
using f_C = Complex<float>;
using z_C = Complex<double>;
using c_C = Complex<float>;
COMMON(d, double)
COMMON(f, float)
COMMON(z, Complex<double>)
COMMON(c, Complex<float>)
COMMON(i, int32_t)
PRODUCTS(d, double)
PRODUCTS(f, float)
PRODUCTS(z, Complex<double>)
PRODUCTS(c, Complex<float>)
SOLVES(d, double)
SOLVES(f, float)
SOLVES(z, Complex<double>)
SOLVES(c, Complex<float>)
#else
PRODUCTS(d, double)
PRODUCTS(f, float)
PRODUCTS(i, int32_t)
PRODUCTS(z, Complex<double>)
#endif
