#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/config.hpp>
struct Rec { // ordered by its key only
  double key;
  int64_t tag;
  friend constexpr bool operator<(Rec const & a, Rec const & b) { return a.key < b.key; }
};
#define GEN(N, T)                                                                                            \
  extern "C" {                                                                                               \
  void N##_s3(T * a) { um2::sort3(a, a + 1, a + 2); }                                                        \
  void N##_s3r(T * a) { um2::sort3(a + 2, a, a + 1); }                                                       \
  void N##_s4(T * a) { um2::sort4(a, a + 1, a + 2, a + 3); }                                                 \
  void N##_s4r(T * a) { um2::sort4(a + 2, a, a + 3, a + 1); }                                                \
  void N##_ins(T * a, Int m, Int i, Int j, T v) { um2::insertionSort(a + i, a + j); }                        \
  }
GEN(d, double)
GEN(f, float)
GEN(i, int32_t)
GEN(l, int64_t)
GEN(c, int8_t)
extern "C" {
void r_s3(Rec * a) { um2::sort3(a, a + 1, a + 2); }
void r_s4(Rec * a) { um2::sort4(a, a + 1, a + 2, a + 3); }
void r_ins(Rec * a, Int m, Int i, Int j, double v, int64_t w) { um2::insertionSort(a + i, a + j); }
}
