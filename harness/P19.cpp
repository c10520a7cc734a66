#include <um2/mesh/regular_grid.hpp>
using namespace um2;
using F = double;
#define GEN(D)                                                                                                           \
  using P##D = Point<D, F>;                                                                                              \
  using V##D = Vec<D, F>;                                                                                                \
  using I##D = Vec<D, Int>;                                                                                              \
  using G##D = RegularGrid<D, F>;                                                                                        \
  static I##D iv##D(Int const * n) { I##D v; for (Int i = 0; i < D; ++i) { v[i] = n[i]; } return v; }                    \
  static G##D mk##D(P##D const & m, V##D const & s, Int const * n) { return G##D(m, s, iv##D(n)); }                      \
  static void out##D(G##D const & g, F * o, Int * k)                                                                     \
  {                                                                                                                      \
    for (Int i = 0; i < D; ++i) {                                                                                        \
      o[i] = g.minima()[i]; o[D + i] = g.minima(i); o[2 * D + i] = g.spacing()[i]; o[3 * D + i] = g.spacing(i);          \
      k[i] = g.numCells()[i]; k[D + i] = g.numCells(i);                                                                  \
      o[4 * D + i] = g.extents()[i]; o[5 * D + i] = g.extents(i); o[6 * D + i] = g.maxima()[i]; o[7 * D + i] = g.maxima(i); \
      o[8 * D + i] = g.boundingBox().minima(i); o[9 * D + i] = g.boundingBox().maxima(i);                                \
    }                                                                                                                    \
  }                                                                                                                      \
  extern "C" {                                                                                                           \
  void g##D##_make(P##D const & m, V##D const & s, Int const * n, F * o, Int * k) { out##D(mk##D(m, s, n), o, k); }      \
  void g##D##_frombox(P##D const & lo, P##D const & hi, F * o, Int * k) { out##D(G##D(AxisAlignedBox<D, F>(lo, hi)), o, k); } \
  Int g##D##_total(P##D const & m, V##D const & s, Int const * n) { return mk##D(m, s, n).totalNumCells(); }             \
  void g##D##_flat(P##D const & m, V##D const & s, Int const * n, Int const * ix, Int const * jx, Int * o)               \
  { G##D const g = mk##D(m, s, n); o[0] = g.getFlatIndex(iv##D(ix)); o[1] = g.getFlatIndex(iv##D(jx)); o[2] = FL##D(g, ix); } \
  void g##D##_cell(P##D const & m, V##D const & s, Int const * n, Int const * ix, F * o)                                 \
  { G##D const g = mk##D(m, s, n); auto const b = BX##D(g, ix); auto const c = CT##D(g, ix);                             \
    for (Int i = 0; i < D; ++i) { o[i] = b.minima(i); o[D + i] = b.maxima(i); o[2 * D + i] = c[i]; } }                   \
  void g##D##_find(P##D const & m, V##D const & s, Int const * n, P##D const & p, Int * o)                               \
  { auto const r = mk##D(m, s, n).getCellIndexContaining(p); for (Int i = 0; i < D; ++i) { o[i] = r[i]; } }              \
  void g##D##_range(P##D const & m, V##D const & s, Int const * n, P##D const & lo, P##D const & hi, Int q, Int * o)     \
  { (void)q; auto const r = mk##D(m, s, n).getCellIndicesIntersecting(AxisAlignedBox<D, F>(lo, hi)); for (Int i = 0; i < 2 * D; ++i) { o[i] = r[i]; } } \
  }
#define FL1(g, i) g.getFlatIndex(i[0])
#define FL2(g, i) g.getFlatIndex(i[0], i[1])
#define FL3(g, i) g.getFlatIndex(i[0], i[1], i[2])
#define BX1(g, i) g.getBox(i[0])
#define BX2(g, i) g.getBox(i[0], i[1])
#define BX3(g, i) g.getBox(i[0], i[1], i[2])
#define CT1(g, i) g.getCellCentroid(i[0])
#define CT2(g, i) g.getCellCentroid(i[0], i[1])
#define CT3(g, i) g.getCellCentroid(i[0], i[1], i[2])
GEN(1) GEN(2) GEN(3)
