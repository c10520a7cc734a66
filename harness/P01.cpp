#include <new>
#include <um2/math/vec.hpp>
#include <um2/stdlib/vector.hpp>
using namespace um2;
#define GEN(N, T)                                                                                                        \
  extern "C" {                                                                                                           \
  void N##_def(Vector<T> & o) { new (&o) Vector<T>(); }                                                                  \
  void N##_make(Vector<T> & o, Int n) { new (&o) Vector<T>(n); }                                                         \
  void N##_fill(Vector<T> & o, Int n, T const & x) { new (&o) Vector<T>(n, x); }                                         \
  void N##_cctor(Vector<T> & o, Vector<T> const & v) { new (&o) Vector<T>(v); }                                          \
  void N##_mctor(Vector<T> & o, Vector<T> & v) { new (&o) Vector<T>(um2::move(v)); }                                     \
  void N##_range(Vector<T> & o, T const * b, Int n) { new (&o) Vector<T>(b, b + n); }                                    \
  void N##_list(Vector<T> & o, T const * b) { new (&o) Vector<T>({b[0], b[1], b[2]}); }                                  \
  void N##_casg(Vector<T> & o, Vector<T> const & v) { o = v; }                                                           \
  void N##_masg(Vector<T> & o, Vector<T> & v) { o = um2::move(v); }                                                      \
  void N##_cself(Vector<T> & o) { Vector<T> const & v = o; o = v; }                                                      \
  void N##_mself(Vector<T> & o) { Vector<T> & v = o; o = um2::move(v); }                                                 \
  void N##_lasg(Vector<T> & o, T const * b) { o = {b[0], b[1], b[2]}; }                                                  \
  void N##_assign(Vector<T> & o, T const * b, Int n) { o.assign(b, b + n); }                                             \
  void N##_dtor(Vector<T> & o) { o.~Vector<T>(); new (&o) Vector<T>(); }                                                 \
  void N##_get(Vector<T> const & v, Int i, T * o) { o[0] = v[i]; o[1] = v.begin()[i]; o[2] = v.data()[i]; o[3] = v.cbegin()[i]; } \
  void N##_set(Vector<T> & v, Int i, T const & x) { v[i] = x; }                                                          \
  void N##_ends(Vector<T> const & v, T * o) { o[0] = v.front(); o[1] = v.back(); o[2] = *(v.end() - 1); o[3] = *(v.cend() - 1); } \
  void N##_setends(Vector<T> & v, T const & x, T const & y) { v.front() = x; v.back() = y; }                             \
  void N##_setptr(Vector<T> & v, Int i, T const & x, Int w) { if (w == 0) { v.begin()[i] = x; } else if (w == 1) { v.data()[i] = x; } else { *(v.end() - 1 - i) = x; } } \
  void N##_sizes(Vector<T> const & v, Int * o) { o[0] = v.size(); o[1] = v.capacity(); o[2] = v.empty() ? 1 : 0; o[3] = static_cast<Int>(v.end() - v.begin()); o[4] = static_cast<Int>(v.cend() - v.cbegin()); } \
  void N##_reserve(Vector<T> & v, Int n) { v.reserve(n); }                                                               \
  void N##_clear(Vector<T> & v) { v.clear(); }                                                                           \
  void N##_push(Vector<T> & v, T const & x) { v.push_back(x); }                                                          \
  void N##_pushown(Vector<T> & v, Int i) { v.push_back(v[i]); }                                                          \
  void N##_pushr(Vector<T> & v, T const & x) { T y = x; v.push_back(um2::move(y)); }                                     \
  void N##_emplace(Vector<T> & v, T const & x) { v.emplace_back(x); }                                                    \
  void N##_pop(Vector<T> & v) { v.pop_back(); }                                                                          \
  void N##_resize(Vector<T> & v, Int n) { v.resize(n); }                                                                 \
  bool N##_eq(Vector<T> const & a, Vector<T> const & b) { return a == b; }                                               \
  bool N##_ne(Vector<T> const & a, Vector<T> const & b) { return a != b; }                                               \
  }
#define ORD(N, T)                                                                                                        \
  extern "C" {                                                                                                           \
  bool N##_lt(Vector<T> const & a, Vector<T> const & b) { return a < b; }                                                \
  bool N##_gt(Vector<T> const & a, Vector<T> const & b) { return a > b; }                                                \
  bool N##_le(Vector<T> const & a, Vector<T> const & b) { return a <= b; }                                               \
  bool N##_ge(Vector<T> const & a, Vector<T> const & b) { return a >= b; }                                               \
  }
using V2 = Vec2<double>;
GEN(vi, int32_t) ORD(vi, int32_t) GEN(vd, double) ORD(vd, double) GEN(vc, int8_t) ORD(vc, int8_t) GEN(vv, V2) GEN(vl, int64_t) ORD(vl, int64_t)
