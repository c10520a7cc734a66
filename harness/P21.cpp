#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_partition.hpp>
using namespace um2;
using F = Float;
using VF = Vector<F>;
#define GEN(D, P, c)                                                                                                     \
  extern "C" {                                                                                                           \
  P u##D##c##_get(Point<D, F> const & m, Vec<D, F> const & s, Int const * n, Vector<P> const & v, Int const * ix)        \
  { RegularPartition<D, P> const q(ug##D(m, s, n), v); return q.getChild(IX##D); }                                       \
  void u##D##c##_set(Point<D, F> const & m, Vec<D, F> const & s, Int const * n, Vector<P> const & v, Int const * ix, P x, Vector<P> & o) \
  { RegularPartition<D, P> q(ug##D(m, s, n), v); q.getChild(IX##D) = x; o = q.children(); }                              \
  P t##D##c##_get(A##D, Vector<P> const & v, Int const * ix) { RectilinearGrid<D, F> g; S##D RectilinearPartition<D, P> const q(g, v); return q.getChild(IX##D); } \
  void t##D##c##_set(A##D, Vector<P> const & v, Int const * ix, P e, Vector<P> & o)                                      \
  { RectilinearGrid<D, F> g; S##D RectilinearPartition<D, P> q(g, v); q.getChild(IX##D) = e; o = q.children(); }         \
  }
#define GRD(D)                                                                                                           \
  static RegularGrid<D, F> ug##D(Point<D, F> const & m, Vec<D, F> const & s, Int const * n)                              \
  { Vec<D, Int> k; for (Int i = 0; i < D; ++i) { k[i] = n[i]; } return RegularGrid<D, F>(m, s, k); }                     \
  extern "C" {                                                                                                           \
  void u##D##_grid(Point<D, F> const & m, Vec<D, F> const & s, Int const * n, Vector<Int> const & v, F * o, Int * k)     \
  { RegularPartition<D, Int> const q(ug##D(m, s, n), v); auto const & g = q.grid();                                      \
    for (Int i = 0; i < D; ++i) { o[i] = g.minima(i); o[D + i] = g.maxima(i); k[i] = g.numCells(i); } k[D] = g.totalNumCells(); } \
  void t##D##_grid(A##D, Vector<Int> const & v, F * o, Int * k)                                                          \
  { RectilinearGrid<D, F> h; { auto & g = h; S##D } RectilinearPartition<D, Int> const q(h, v); auto const & g = q.grid(); \
    for (Int i = 0; i < D; ++i) { o[i] = g.divs(i).front(); o[D + i] = g.divs(i).back(); k[i] = g.numCells(i); } k[D] = g.totalNumCells(); } \
  void t##D##_clear(A##D, Vector<Int> const & v, Int * k)                                                                \
  { RectilinearGrid<D, F> g; S##D RectilinearPartition<D, Int> q(g, v); q.clear(); k[0] = q.children().size(); for (Int i = 0; i < D; ++i) { k[i + 1] = q.grid().divs(i).size(); } } \
  }
#define A1 VF const & x
#define A2 VF const & x, VF const & y
#define A3 VF const & x, VF const & y, VF const & z
#define S1 g.divs(0) = x;
#define S2 g.divs(0) = x; g.divs(1) = y;
#define S3 g.divs(0) = x; g.divs(1) = y; g.divs(2) = z;
#define IX1 ix[0]
#define IX2 ix[0], ix[1]
#define IX3 ix[0], ix[1], ix[2]
GRD(1) GRD(2) GRD(3)
GEN(1, Int, i) GEN(2, Int, i) GEN(3, Int, i) GEN(2, F, f)
extern "C" void t2_ids(Vector<Vec2F> const & dxdy, Vector<Vector<Int>> const & ids, VF & x, VF & y, Vector<Int> & v)
{ RectilinearPartition<2, Int> const q(dxdy, ids); x = q.grid().divs(0); y = q.grid().divs(1); v = q.children(); }
