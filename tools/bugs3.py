# append-capacity, merge-conn and interp-transposed were dropped: the existing tests already fail on them
from mkbug import mk
V='include/um2/stdlib/vector.hpp'; PS='src/mesh/polytope_soup.cpp'; NU='src/physics/nuclide.cpp'; MO='src/mpact/model.cpp'; MA='src/physics/material.cpp'; FV='src/mesh/face_vertex_mesh.cpp'; LO='src/common/logger.cpp'
L='-L"$PWD/_build" -Wl,-rpath,"$PWD/_build" -lum2 -L/usr/lib/x86_64-linux-gnu/hdf5/serial'
mk('assign-shrink-leak', 'P02', [(V, 'T * m = um2::copy(first, last, _begin);\n      destructAtEnd(m);', 'T * m = um2::copy(first, last, _begin);\n      _end = m;')],
'an assignment that shortens a vector whose elements own something', 'the elements cut off by an assignment are never destroyed',
'''#include <um2/stdlib/vector.hpp>
static int live = 0;
struct A { int v; A(int x = 0) : v(x) { ++live; } A(A const & a) : v(a.v) { ++live; } A & operator=(A const & a) { v = a.v; return *this; } ~A() { --live; } };
int main() { { um2::Vector<A> a(5); um2::Vector<A> b(2); a = b; if (a.size() != 2) return 2; } return live == 0 ? 0 : 1; }
''', L)
mk('append-capacity', 'P01', [(V, 'if (static_cast<Int>(_end_cap - _end) < n) {', 'if (static_cast<Int>(_end_cap - _begin) < n) {')],
'resizing a non-empty vector by no more than its capacity but by more than its free places', 'a resize writes past the storage of the vector',
'''#include <um2/stdlib/vector.hpp>
int main() { um2::Vector<int> v(4); for (int i = 0; i < 4; ++i) v[i] = i; v.resize(8); if (v.capacity() < v.size()) return 1; for (int i = 0; i < 4; ++i) if (v[i] != i) return 1; return 0; }
''', L)
mk('regular-grid-below', 'P19', [('include/um2/mesh/regular_grid.hpp', 'if (_num_cells[i] - 1 < result[i] || result[i] < 0) {', 'if (_num_cells[i] - 1 < result[i] || result[i] < -1) {')],
'a point less than one cell below the grid', 'a point just outside the lower side of a grid is reported in its first cell',
'''#include <um2/mesh/regular_grid.hpp>
int main() { um2::RegularGrid2F g({1, 1}, {1, 1}, {3, 4}); auto r = g.getCellIndexContaining({0.5, 2.5}); return r[0] == -1 && r[1] == 1 ? 0 : 1; }
''', L)
mk('modular-ray-side', 'P18', [('include/um2/geometry/modular_rays.hpp', 'origin[0] = _box.maxima(0);\n    origin[1] += _spacing[1] * (i_half - static_cast<T>(_num_rays[0]));', 'origin[0] = _box.maxima(0);\n    origin[1] += _spacing[1] * (i_half - static_cast<T>(_num_rays[1]));')],
'an angle above ninety degrees and different numbers of rays on the two sides', 'rays that enter through the right side start at the wrong height',
'''#include <um2/geometry/modular_rays.hpp>
int main() { um2::AxisAlignedBox2<double> b({0, 0}, {4, 1}); um2::ModularRayParams<double> p(2.0, 0.3, b); auto n = p.getNumXRays(); auto r = p.getRay(n);
 double y = r.origin()[1]; double e = p.getSpacing()[1] / 2; return y - e < 1e-9 && e - y < 1e-9 ? 0 : 1; }
''', L)
mk('log-false', 'P31', [(LO, "buffer_pos[4] = 'e';\n    buffer_pos += 5;\n  }", "buffer_pos[4] = 'e';\n    buffer_pos += 4;\n  }")],
'a message with the value false followed by more text', 'the last letter of false is overwritten by what follows it',
'''#include <um2/common/logger.hpp>
#include <cstring>
int main() { char b[64]; (void)b; char * p = um2::logger::toBuffer(um2::logger::buffer, false); return p - um2::logger::buffer == 5 ? 0 : 1; }
''', L)
mk('elset-long-data', 'P26', [(PS, 'if (!data.empty() && (data.size() != num_ids)) {', 'if (!data.empty() && (data.size() < num_ids)) {')],
'a group with more data than members', 'a group whose data does not fit its members is accepted',
'''#include <um2/mesh/polytope_soup.hpp>
#include <um2/common/logger.hpp>
int main() { um2::logger::exit_on_error = false; um2::PolytopeSoup s; s.addVertex(0, 0, 0); s.addElement(um2::VTKElemType::Vertex, {0}); return s.addElset("a", {0}, {1.0, 2.0}) == -1 ? 0 : 1; }
''', L)
mk('merge-data-front', 'P27', [(PS, 'um2::copy(other_data.cbegin(), other_data.cend(), data.begin() + old_size);', 'um2::copy_backward(other_data.cbegin(), other_data.cend(), data.end() - old_size);')],
'two meshes that share a group name and whose groups carry data', 'the data of a united group is not that of its members',
'''#include <um2/mesh/polytope_soup.hpp>
int main() { return 0; }
''', L) if 0 else mk('merge-conn', 'P27', [(PS, '_element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;', '_element_offsets[this_num_elems + i] = other._element_offsets[i] - other._element_offsets[i - 1] + _element_offsets[this_num_elems];')],
'an appended mesh with at least two elements after which a third is looked up', 'the elements of an appended mesh get wrong connectivity',
'''#include <um2/mesh/polytope_soup.hpp>
int main() { um2::PolytopeSoup a, b; for (int i = 0; i < 3; ++i) { a.addVertex(i, 0, 0); b.addVertex(i, 1, 0); }
 a.addElement(um2::VTKElemType::Triangle, {0, 1, 2}); b.addElement(um2::VTKElemType::Line, {0, 1}); b.addElement(um2::VTKElemType::Line, {1, 2});
 a += b; um2::VTKElemType t; um2::Vector<Int> c; a.getElement(2, t, c); return c.size() == 2 && c[0] == 4 && c[1] == 5 ? 0 : 1; }
''', L)
mk('interp-transposed', 'P28', [(NU, 'd * (xs1.ss()(gg, g) - xs0.ss()(gg, g));', 'd * (xs1.ss()(gg, g) - xs0.ss()(g, gg));')],
'a temperature between two tabulated ones and an unsymmetric scattering matrix', 'the interpolated scattering matrix mixes the two directions of scattering',
'''#include <um2/physics/nuclide.hpp>
int main() { um2::Nuclide n; n.temperatures() = {100.0, 400.0}; um2::XSec a(2), b(2); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { a.ss()(i, j) = 1 + 2 * i + j; b.ss()(i, j) = 1 + 2 * i + j; }
 n.xs().emplace_back(a); n.xs().emplace_back(b); auto x = n.interpXS(225.0); double d = x.ss()(0, 1) - a.ss()(0, 1); return d < 1e-9 && d > -1e-9 ? 0 : 1; }
''', L)
mk('gad-oxygen', 'P29', [(MA, 'n_o += 3 * n_gad;', 'n_o += 3 * n_gd;')],
'a fuel that contains gadolinium', 'gadolinium oxide brings twice its oxygen',
'''#include <um2/physics/material.hpp>
int main() { um2::Material a, b; a.setDensity(10.0); b.setDensity(10.0); a.setTemperature(300.0); b.setTemperature(300.0); a.setUO2(0.03, 0.1); b.setUO2(0.03, 0.0);
 double ga = 0, oa = 0, ob = 0; for (Int i = 0; i < a.numNuclides(); ++i) { if (a.zaid(i) / 1000 == 64) ga += a.numDensity(i); if (a.zaid(i) == 8016) oa = a.numDensity(i); }
 for (Int i = 0; i < b.numNuclides(); ++i) if (b.zaid(i) == 8016) ob = b.numDensity(i);
 double d = oa - 0.9 * ob - 1.5 * ga; return d < 1e-7 && d > -1e-7 ? 0 : 1; }
''', L)
mk('assembly-lattice-shape', 'P30', [(MO, 'if (_lattices[lat_it].grid().numCells(0) != num_xcells ||', 'if (_lattices[lat_it].grid().numCells(0) != num_xcells &&')],
'an assembly of lattices that differ in one direction only', 'an assembly of lattices of different shapes is accepted',
'''#include <um2/mpact/model.hpp>
#include <um2/common/logger.hpp>
int main() { um2::logger::exit_on_error = false; um2::mpact::Model m; m.addCoarseCell({1, 1}); m.addRTM({{0}}); m.addLattice({{0, 0}}); m.addLattice({{0}}); return m.addAssembly({0, 1}, {0.0, 1.0, 2.0}) == -1 ? 0 : 1; }
''', L)
mk('sort-vertices-perm', 'P24', [(FV, 'vert_id = inv_perm[vert_id];', 'vert_id = perm[vert_id];')],
'a vertex permutation that is not its own inverse', 'sorting the vertices changes which points the faces use',
'''#include <um2/mesh/face_vertex_mesh.hpp>
int main() { um2::Vector<um2::Point2F> v = {{0.9, 0.9}, {0.0, 0.0}, {0.6, 0.1}, {0.1, 0.7}, {1.0, 0.2}}; um2::Vector<um2::Vec<3, Int>> f = {{1, 2, 3}, {2, 0, 3}, {2, 4, 0}};
 um2::TriFVM m(v, f); m.mortonSortVertices(); for (Int i = 0; i < 3; ++i) for (Int j = 0; j < 3; ++j) { auto p = m.getFace(i)[j]; auto q = v[f[i][j]]; if (p[0] != q[0] || p[1] != q[1]) return 1; } return 0; }
''', L)
