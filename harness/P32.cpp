#include <um2/common/cast_if_not.hpp>
#include <um2/common/strto.hpp>
#include <um2/math/vec.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/cstring/memcmp.hpp>
#include <um2/stdlib/cstring/strlen.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/utility/is_pointer_in_range.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>
using namespace um2;
#define GEN(N, T)                                                                                            \
  extern "C" {                                                                                               \
  Int N##_copy(T const * a, Int n, T * b, Int m) { return static_cast<Int>(um2::copy(a, a + n, b) - b); }    \
  Int N##_copyself(T * a, Int n, Int m, Int k) { return static_cast<Int>(um2::copy(a, a + n, a + n + k) - a); } \
  void N##_fill(T * a, Int n, Int i, Int j, T x) { um2::fill(a + i, a + j, x); }                             \
  bool N##_equal(T const * a, T const * b, Int n) { return um2::equal(a, a + n, b); }                        \
  bool N##_lex(T const * a, Int n, T const * b, Int m) { return um2::lexicographical_compare(a, a + n, b, b + m); } \
  bool N##_sorted(T const * a, Int n) { return um2::is_sorted(a, a + n); }                                   \
  Int N##_maxel(T const * a, Int n) { return static_cast<Int>(um2::max_element(a, a + n) - a); }             \
  void N##_iota(T * a, Int n, Int i, Int j, T x) { um2::iota(a + i, a + j, x); }                             \
  T N##_clamp(T x, T lo, T hi) { return um2::clamp(x, lo, hi); }                                             \
  T N##_max(T x, T y) { return um2::max(x, y); }                                                             \
  T N##_min(T x, T y) { return um2::min(x, y); }                                                             \
  void N##_swap(T * a, T * b) { um2::swap(*a, *b); }                                                         \
  bool N##_inrange(T const * a, Int i, Int j, Int k) { return um2::is_pointer_in_range(a + i, a + j, a + k); } \
  void N##_pair(T x, T y, T * o) { um2::Pair<T, T> p(x, y); o[0] = p.first; o[1] = p.second; }               \
  }
#define GENI(N, T)                                                                                           \
  extern "C" int N##_memcmp(T const * a, T const * b, Int n) { return um2::memcmp(a, b, static_cast<uint64_t>(n)); }
GEN(i, int32_t) GEN(d, double) GEN(c, int8_t) GEN(l, int64_t) GEN(f, float)
GENI(i, int32_t) GENI(c, int8_t) GENI(l, int64_t)
struct NT { // copied element by element
  double v;
  NT & operator=(NT const & o) { v = o.v; return *this; }
  NT(NT const & o) : v(o.v) {}
};
extern "C" {
Int n_copy(NT const * a, Int n, NT * b, Int m) { return static_cast<Int>(um2::copy(a, a + n, b) - b); }
Int s_strlen(char const * a, Int n) { return static_cast<Int>(um2::strlen(a)); }
int32_t x_fi(double x) { return castIfNot<int32_t>(x); }
double x_if(int32_t x) { return castIfNot<double>(x); }
double x_ff(double x) { return castIfNot<double>(x); }
double s_tod(char const * a, Int * k, double /*value*/, Int /*taken*/) { char * e = nullptr; double const r = strto<double>(a, &e); *k = static_cast<Int>(e - a); return r; }
float s_tof(char const * a, Int * k, float /*value*/, Int /*taken*/) { char * e = nullptr; float const r = strto<float>(a, &e); *k = static_cast<Int>(e - a); return r; }
int32_t s_toi(char const * a, Int * k, int32_t /*value*/, Int /*taken*/) { char * e = nullptr; int32_t const r = strto<int32_t>(a, &e); *k = static_cast<Int>(e - a); return r; }
int64_t s_tol(char const * a, Int * k, int64_t /*value*/, Int /*taken*/) { char * e = nullptr; int64_t const r = strto<int64_t>(a, &e); *k = static_cast<Int>(e - a); return r; }
uint32_t s_tou(char const * a, Int * k, uint32_t /*value*/, Int /*taken*/) { char * e = nullptr; uint32_t const r = strto<uint32_t>(a, &e); *k = static_cast<Int>(e - a); return r; }
uint64_t s_toul(char const * a, Int * k, uint64_t /*value*/, Int /*taken*/) { char * e = nullptr; uint64_t const r = strto<uint64_t>(a, &e); *k = static_cast<Int>(e - a); return r; }
}
