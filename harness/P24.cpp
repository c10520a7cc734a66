#include "mesh.hpp"
#define GEN(P, N, k)                                                                                                     \
  extern "C" {                                                                                                           \
  void k##_sortv(Vs<P, N> & v, Cs<P, N> & c) { QUIET; Mk<P, N> s(v, c); s.m.mortonSortVertices(); }                      \
  void k##_sortf(Vs<P, N> & v, Cs<P, N> & c) { QUIET; Mk<P, N> s(v, c); s.m.mortonSortFaces(); }                         \
  void k##_sort(Vs<P, N> & v, Cs<P, N> & c) { QUIET; Mk<P, N> s(v, c); s.m.mortonSort(); }                               \
  void k##_ccw(Vs<P, N> & v, Cs<P, N> & c) { QUIET; Mk<P, N> s(v, c); s.m.validate(); }                                  \
  void k##_again(Vs<P, N> & v, Cs<P, N> & c, Vector<Int> & o, Vector<Int> & f)                                           \
  { QUIET; Mk<P, N> s(v, c); s.m.populateVF(); s.m.mortonSort(); o = s.m.vertexFaceOffsets(); f = s.m.vertexFaceConn(); } \
  }
KINDS(GEN)
extern "C" {
void p2_perm(Vector<Point2F> const & p, Vec2F const & s, Vector<Int> & o) { mortonSortPermutation(p.begin(), p.end(), o.begin(), s); }
void p2_unit(Vector<Point2F> const & p, Vector<Int> & o) { mortonSortPermutation(p.begin(), p.end(), o.begin()); }
}
