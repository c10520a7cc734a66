#include <um2/mesh/rectilinear_grid.hpp>
using namespace um2;
using F = double;
using VF = Vector<F>;
#define GEN(D)                                                                                                           \
  using B##D = AxisAlignedBox<D, F>;                                                                                     \
  using P##D = Point<D, F>;                                                                                              \
  using I##D = Vec<D, Int>;                                                                                              \
  using G##D = RectilinearGrid<D, F>;                                                                                    \
  static I##D iv##D(Int const * n) { I##D v; for (Int i = 0; i < D; ++i) { v[i] = n[i]; } return v; }                    \
  static void out##D(G##D const & g, F * o, Int * k)                                                                     \
  {                                                                                                                      \
    for (Int i = 0; i < D; ++i) {                                                                                        \
      o[i] = g.minima()[i]; o[D + i] = g.minima(i); o[2 * D + i] = g.maxima()[i]; o[3 * D + i] = g.maxima(i);            \
      k[i] = g.numCells()[i]; k[D + i] = g.numCells(i); o[4 * D + i] = g.extents()[i]; o[5 * D + i] = g.extents(i);      \
      o[6 * D + i] = g.boundingBox().minima(i); o[7 * D + i] = g.boundingBox().maxima(i);                                \
    }                                                                                                                    \
    k[2 * D] = g.totalNumCells();                                                                                        \
  }                                                                                                                      \
  extern "C" {                                                                                                           \
  void r##D##_make(A##D, F * o, Int * k) { G##D g; S##D out##D(g, o, k); }                                               \
  void r##D##_flat(A##D, Int const * ix, Int const * jx, Int * o)                                                        \
  { G##D g; S##D G##D const & c = g; o[0] = c.getFlatIndex(iv##D(ix)); o[1] = c.getFlatIndex(iv##D(jx)); o[2] = FL##D(c, ix); } \
  void r##D##_cell(A##D, Int const * ix, F * o)                                                                          \
  { G##D g; S##D auto const b = BX##D(g, ix); for (Int i = 0; i < D; ++i) { o[i] = b.minima(i); o[D + i] = b.maxima(i); } } \
  void r##D##_divs(A##D, W##D) { G##D h; { G##D & g = h; S##D } G##D const & g = h; U##D }                               \
  void r##D##_clear(A##D, W##D) { G##D g; S##D g.clear(); U##D }                                                         \
  void r##D##_box(P##D const & lo, P##D const & hi, F * o, Int * k) { out##D(G##D(B##D(lo, hi)), o, k); }                \
  void r##D##_boxes(Vector<B##D> const & b, V##D) { G##D g(b); T##D }                                                    \
  }
#define A1 VF const & x
#define A2 VF const & x, VF const & y
#define A3 VF const & x, VF const & y, VF const & z
#define S1 g.divs(0) = x;
#define S2 g.divs(0) = x; g.divs(1) = y;
#define S3 g.divs(0) = x; g.divs(1) = y; g.divs(2) = z;
#define V1 VF & x
#define V2 VF & x, VF & y
#define V3 VF & x, VF & y, VF & z
#define T1 x = g.divs(0);
#define T2 x = g.divs(0); y = g.divs(1);
#define T3 x = g.divs(0); y = g.divs(1); z = g.divs(2);
#define W1 VF & u
#define W2 VF & u, VF & v
#define W3 VF & u, VF & v, VF & w
#define U1 u = g.divs(0);
#define U2 u = g.divs(0); v = g.divs(1);
#define U3 u = g.divs(0); v = g.divs(1); w = g.divs(2);
#define FL1(g, i) g.getFlatIndex(i[0])
#define FL2(g, i) g.getFlatIndex(i[0], i[1])
#define FL3(g, i) g.getFlatIndex(i[0], i[1], i[2])
#define BX1(g, i) g.getBox(i[0])
#define BX2(g, i) g.getBox(i[0], i[1])
#define BX3(g, i) g.getBox(i[0], i[1], i[2])
GEN(1) GEN(2) GEN(3)
extern "C" {
void r2_ids(Vector<Vec2<F>> const & dxdy, Vector<Vector<Int>> const & ids, VF & x, VF & y) { G2 g(dxdy, ids); x = g.divs(0); y = g.divs(1); }
}
