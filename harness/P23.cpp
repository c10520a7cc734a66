#include "mesh.hpp"
#define GEN(P, N, k)                                                                                                     \
  extern "C" {                                                                                                           \
  void k##_face(Vs<P, N> const & v, Cs<P, N> const & c, Int i, F * o, Int * n)                                           \
  { Mk<P, N> const s(v, c); auto const f = s.m.getFace(i); auto const & q = s.m.getFaceConn(i);                          \
    for (Int j = 0; j < N; ++j) { o[2 * j] = f[j][0]; o[2 * j + 1] = f[j][1]; n[j] = q[j]; } n[N] = s.m.numVertices(); n[N + 1] = s.m.numFaces(); } \
  void k##_edge(Vs<P, N> const & v, Cs<P, N> const & c, Int i, Int e, F * o, Int * n)                                    \
  { Mk<P, N> const s(v, c); auto const g = s.m.getEdge(i, e); auto const q = s.m.getEdgeConn(i, e);                      \
    for (Int j = 0; j < P + 1; ++j) { o[2 * j] = g[j][0]; o[2 * j + 1] = g[j][1]; n[j] = q[j]; } }                       \
  void k##_vert(Vs<P, N> const & v, Cs<P, N> const & c, Int i, F * o)                                                    \
  { Mk<P, N> const s(v, c); auto const p = s.m.getVertex(i); o[0] = p[0]; o[1] = p[1]; }                                 \
  void k##_flip(Vs<P, N> & v, Cs<P, N> & c, Int i)                               \
  { Mk<P, N> s(v, c); s.m.flipFace(i); }            \
  void k##_addv(Vs<P, N> const & v, Cs<P, N> const & c, typename FVM<P, N>::Vertex const & p) \
  { Mk<P, N> s(v, c); s.m.addVertex(p); }                                  \
  void k##_addf(Vs<P, N> const & v, Cs<P, N> const & c, Vec<N, Int> const & f)               \
  { Mk<P, N> s(v, c); s.m.addFace(f); }                                    \
  void k##_box(Vs<P, N> const & v, Cs<P, N> const & c, Int g, F * o)                                                     \
  { Mk<P, N> const s(v, c); auto const b = s.m.boundingBox(); auto const f = s.m.getFace(g).boundingBox();               \
    for (Int j = 0; j < 2; ++j) { o[j] = b.minima(j); o[2 + j] = b.maxima(j); o[4 + j] = f.minima(j); o[6 + j] = f.maxima(j); } } \
  Int k##_find(Vs<P, N> const & v, Cs<P, N> const & c, Point2F const & p, Int g, bool * o)                               \
  { Mk<P, N> const s(v, c); Int const r = s.m.faceContaining(p); o[0] = r >= 0 && s.m.getFace(r).contains(p); o[1] = s.m.getFace(g).contains(p); return r; } \
  void k##_vf(Vs<P, N> const & v, Cs<P, N> const & c, Vector<Int> & o, Vector<Int> & f)                                  \
  { Mk<P, N> s(v, c); s.m.populateVF(); o = s.m.vertexFaceOffsets(); f = s.m.vertexFaceConn(); }                         \
  void k##_vfagain(Vs<P, N> const & v, Cs<P, N> const & c, Vs<P, N> const & v2, Cs<P, N> const & c2, Vector<Int> & o, Vector<Int> & f) \
  { Mk<P, N> s(v, c); s.m.populateVF(); s.m.vertices() = v2; s.m.faceVertexConn() = c2; s.m.populateVF(); o = s.m.vertexFaceOffsets(); f = s.m.vertexFaceConn(); } \
  }
KINDS(GEN)
