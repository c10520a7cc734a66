#include <um2/math/morton.hpp>
using namespace um2;
#define GEN(N, U)                                                                                            \
  extern "C" {                                                                                               \
  U N##_enc2(U x, U y) { return mortonEncode(x, y); }                                                        \
  U N##_enc3(U x, U y, U z) { return mortonEncode(x, y, z); }                                                \
  void N##_dec2(U m, U * o) { mortonDecode(m, o[0], o[1]); }                                                 \
  void N##_dec3(U m, U * o) { mortonDecode(m, o[0], o[1], o[2]); }                                           \
  void N##_rt2(U x, U y, U * o) { mortonDecode(mortonEncode(x, y), o[0], o[1]); }                            \
  void N##_rt3(U x, U y, U z, U * o) { mortonDecode(mortonEncode(x, y, z), o[0], o[1], o[2]); }              \
  bool N##_mono2(U x, U y, U a, U b) { return mortonEncode(x, y) <= mortonEncode(a, b); }                    \
  bool N##_mono3(U x, U y, U z, U a, U b, U c_) { return mortonEncode(x, y, z) <= mortonEncode(a, b, c_); }  \
  U N##_max2() { return max_2d_morton_coord<U>; }                                                            \
  U N##_max3() { return max_3d_morton_coord<U>; }                                                            \
  }
// codes of points with coordinates in [0,1]: o[0] is the code, o[1] the code of the truncated scaled coordinates
#define FGEN(N, U, T, M2, M3)                                                                                \
  extern "C" {                                                                                               \
  void N##_fenc2(T x, T y, U * o) { o[0] = mortonEncode<U, T>(x, y); o[1] = mortonEncode(static_cast<U>(x * static_cast<T>(M2)), static_cast<U>(y * static_cast<T>(M2))); } \
  void N##_fenc3(T x, T y, T z, U * o) { o[0] = mortonEncode<U, T>(x, y, z); o[1] = mortonEncode(static_cast<U>(x * static_cast<T>(M3)), static_cast<U>(y * static_cast<T>(M3)), static_cast<U>(z * static_cast<T>(M3))); } \
  void N##_fdec2(U m, T * o, U * c) { mortonDecode(m, o[0], o[1]); mortonDecode(m, c[0], c[1]); }            \
  void N##_fdec3(U m, T * o, U * c) { mortonDecode(m, o[0], o[1], o[2]); mortonDecode(m, c[0], c[1], c[2]); } \
  }
GEN(a, uint32_t) GEN(b, uint64_t)
FGEN(d, uint64_t, double, 4294967295.0, 2097151.0) FGEN(s, uint32_t, float, 65535.0, 1023.0) FGEN(t, uint32_t, double, 65535.0, 1023.0)
