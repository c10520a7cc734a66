#include "quiet.hpp"
#include "src/mpact/model.cpp"
#include <cstring>
using namespace um2;
using F = Float;
using um2::mpact::Model;
using IDs = Vector<Vector<Int>>;
template <class V>
static void
grow(V & v, Int n)
{
  if (n > 0) { v.resize(n); }
}
// A script of additions to a model: integers s and numbers f; results go to o and g
struct Run {
  Int const * s;
  F const * f;
  Int * o;
  F * g;
  Int i() { return *s++; }
  F x() { return *f++; }
  void put(Int v) { *o++ = v; }
  void put(F v) { *g++ = v; }
  auto rows() -> IDs
  {
    IDs r;
    grow(r, i());
    for (auto & row : r) {
      grow(row, i());
      for (auto & id : row) { id = i(); }
    }
    return r;
  }
  auto ints() -> Vector<Int>
  {
    Vector<Int> v;
    grow(v, i());
    for (auto & e : v) { e = i(); }
    return v;
  }
  auto reals() -> Vector<F>
  {
    Vector<F> v;
    grow(v, i());
    for (auto & e : v) { e = x(); }
    return v;
  }
};
static auto
material(Run & r, bool data) -> Material
{
  Material m;
  char name[3] = {'m', static_cast<char>('a' + r.i()), 0};
  m.setName(String(name));
  if (data) {
    XSec x(2);
    x.isMacro() = true;
    for (Int g = 0; g < 2; ++g) {
      x.a()[g] = r.x(); x.f()[g] = r.x(); x.nuf()[g] = r.x(); x.tr()[g] = r.x(); x.s()[g] = r.x();
      for (Int h = 0; h < 2; ++h) { x.ss()(h, g) = r.x(); }
    }
    m.xsec() = x;
  }
  return m;
}
static auto
step(Model & m, Run & r) -> Int
{
  switch (r.i()) {
  case 1: {
    F const ex = r.x(), ey = r.x();
    auto const t = static_cast<MeshType>(r.i());
    Int const mesh = r.i();
    Vector<MatID> ids;
    grow(ids, r.i());
    for (auto & e : ids) { e = static_cast<MatID>(r.i()); }
    return m.addCoarseCell({ex, ey}, t, mesh, ids);
  }
  case 2: return m.addRTM(r.rows());
  case 3: return m.addLattice(r.rows());
  case 4: {
    auto const ids = r.ints();
    return m.addAssembly(ids, r.reals());
  }
  case 5: return m.addCore(r.rows());
  case 6: {
    F const ex = r.x(), ey = r.x();
    Int const nx = r.i(), ny = r.i();
    return m.addRectangularPinMesh({ex, ey}, nx, ny);
  }
  case 7: return m.addMaterial(material(r, true), false);
  case 8: {
    F const p = r.x();
    auto const rings = r.ints();
    auto const radii = r.reals();
    Int const na = r.i(), ord = r.i();
    return m.addCylindricalPinMesh(p, radii, rings, na, ord);
  }
  case 9: {
    F const p = r.x();
    auto const rings = r.ints();
    auto const radii = r.reals();
    Int const na = r.i(), ord = r.i();
    Vector<Material> mats;
    grow(mats, r.i());
    for (auto & e : mats) { e = material(r, false); }
    return m.addCylindricalPinCell(p, radii, mats, rings, na, ord);
  }
  case 10: {
    F const ex = r.x(), ey = r.x();
    Int const nx = r.i(), ny = r.i();
    m.addCoarseGrid({ex, ey}, {nx, ny});
    return 0;
  }
  case 11: {
    // a row of rectangles, each cut into two triangles
    auto const w = r.reals();
    TriFVM t;
    auto & v = t.vertices();
    auto & c = t.faceVertexConn();
    v.resize(2 * (w.size() + 1));
    c.resize(2 * w.size());
    F at = 0;
    for (Int q = 0; q <= w.size(); ++q) {
      v[2 * q] = Point2F(at, F(0));
      v[2 * q + 1] = Point2F(at, F(1));
      if (q == w.size()) { break; }
      at += w[q];
      c[2 * q] = Vec<3, Int>(2 * q, 2 * q + 2, 2 * q + 1);
      c[2 * q + 1] = Vec<3, Int>(2 * q + 2, 2 * q + 3, 2 * q + 1);
    }
    t.validate();
    return m.addTriMesh(t);
  }
  default: m.clear(); return 0;
  }
}
static void
counts(Model const & m, Run & r, Int ret)
{
  r.put(ret);
  r.put(m.numCoarseCells());
  r.put(m.numRTMs());
  r.put(m.numLattices());
  r.put(m.numAssemblies());
  r.put(m.triMeshes().size());
  r.put(m.quadMeshes().size());
  r.put(m.quad8Meshes().size());
  r.put(m.materials().size());
  r.put(m.core().children().size());
}
template <class M>
static void
mesh(M const & x, Run & r)
{
  Int const n = x.numFaces();
  r.put(n);
  for (Int i = 0; i < n; ++i) {
    auto const f = x.getFace(i);
    auto const c = f.centroid();
    r.put(f.area());
    r.put(c[0]);
    r.put(c[1]);
    r.put(f.meanChordLength());
  }
}
template <class P>
static void
part2(P const & p, Run & r)
{
  for (Int d = 0; d < 2; ++d) {
    Int const n = p.grid().numCells(d);
    r.put(n);
    r.put(p.grid().minima(d));
    r.put(p.grid().maxima(d));
  }
  r.put(p.children().size());
  for (auto const & c : p.children()) { r.put(c); }
}
extern "C" {
void m_hist(Int const * s, Int n, F const * f, Int k, Int * o, Int no, F * g, Int ng)
{
  QUIET;
  Model m;
  Run r{s, f, o, g};
  while (r.s < s + n) {
    Int const ret = step(m, r);
    counts(m, r, ret);
  }
  for (auto const & c : m.coarseCells()) {
    r.put(c.xy_extents[0]);
    r.put(c.xy_extents[1]);
    r.put(static_cast<Int>(c.mesh_type));
    r.put(c.mesh_id);
    r.put(c.numFaces());
    for (auto const & e : c.material_ids) { r.put(static_cast<Int>(e)); }
  }
  for (auto const & x : m.rtms()) {
    part2(x, r);
    for (Int d = 0; d < 2; ++d) { for (auto const & z : x.grid().divs(d)) { r.put(z); } }
  }
  for (auto const & x : m.lattices()) {
    part2(x, r);
    r.put(x.grid().spacing(0));
    r.put(x.grid().spacing(1));
  }
  for (auto const & x : m.assemblies()) {
    r.put(x.children().size());
    for (auto const & c : x.children()) { r.put(c); }
    for (auto const & z : x.grid().divs(0)) { r.put(z); }
  }
  if (!m.core().children().empty()) {
    part2(m.core(), r);
    for (Int d = 0; d < 2; ++d) { for (auto const & z : m.core().grid().divs(d)) { r.put(z); } }
  }
  r.put(m.numAssembliesTotal());
  r.put(m.numLatticesTotal());
  r.put(m.numRTMsTotal());
  r.put(m.numCoarseCellsTotal());
  r.put(m.numFineCellsTotal());
  for (auto const & x : m.triMeshes()) { mesh(x, r); }
  for (auto const & x : m.quadMeshes()) { mesh(x, r); }
  for (auto const & x : m.quad8Meshes()) { mesh(x, r); }
  // one number per fine cell
  bool meshed = m.numFineCellsTotal() > 0;
  for (auto const & c : m.coarseCells()) { meshed = meshed && c.mesh_id >= 0; }
  if (meshed) {
    auto const l = m.getMeanChordLengths();
    r.put(l.size());
    for (auto const & e : l) { r.put(e); }
  }
  for (Int c = 0; c < m.numCoarseCells(); ++c) {
    if (m.getCoarseCell(c).mesh_id < 0) { continue; }
    auto const x = m.getCoarseCellHomogenizedXSec(c);
    r.put(x.numGroups());
    r.put(Int(x.isMacro()));
    r.put(Int(x.isFissile()));
    for (Int q = 0; q < 2; ++q) {
      r.put(x.a()[q]); r.put(x.f()[q]); r.put(x.nuf()[q]); r.put(x.tr()[q]); r.put(x.s()[q]);
      for (Int h = 0; h < 2; ++h) { r.put(x.ss()(h, q)); }
    }
  }
  r.put(Int(-77));
}
Int p_rect(F ex, F ey, Int nx, Int ny, Vector<Point2F> & v, Vector<Vec<4, Int>> & c, Int * w)
{
  QUIET;
  Model m;
  Int const r = m.addRectangularPinMesh({ex, ey}, nx, ny);
  w[0] = m.quadMeshes().size();
  if (r == 0 && w[0] > 0) {
    auto & q = const_cast<QuadFVM &>(m.getQuadMesh(0));
    v = um2::move(q.vertices());
    c = um2::move(q.faceVertexConn());
  }
  return r;
}
Int c_new(F ex, F ey, Int t, Int id, Vector<MatID> const & a, F * o, Int * w)
{
  QUIET;
  Model m;
  Int const r = m.addCoarseCell({ex, ey}, static_cast<MeshType>(t), id, a);
  w[0] = m.numCoarseCells();
  if (r == 0 && w[0] > 0) {
    auto const & c = m.getCoarseCell(0);
    o[0] = c.xy_extents[0];
    o[1] = c.xy_extents[1];
    w[1] = static_cast<Int>(c.mesh_type);
    w[2] = c.mesh_id;
    w[3] = c.numFaces();
  }
  return r;
}
}
