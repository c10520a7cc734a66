#include <um2/geometry/triangle.hpp>
#include <um2/geometry/quadrilateral.hpp>
using namespace um2;
using F = double;
using T2 = Triangle2<F>;
using T3 = Triangle3<F>;
using Q2 = Quadrilateral2<F>;
using P2 = Point2<F>;
using P3 = Point3<F>;
static_assert(sizeof(T2) == 48 && sizeof(T3) == 72 && sizeof(Q2) == 64);
extern "C" {
void tri2_at(T2 const & t, F r, F s, P2 * o) { *o = t(r, s); }
void tri3_at(T3 const & t, F r, F s, P3 * o) { *o = t(r, s); }
void tri2_jac(T2 const & t, F r, F s, Mat<2, 2, F> * o) { *o = t.jacobian(r, s); }
void tri2_edge(T2 const & t, Int i, LineSegment<2, F> * o) { *o = t.getEdge(i); }
F tri2_perimeter(T2 const & t) { return t.perimeter(); }
void tri2_bb(T2 const & t, P2 * lo, P2 * hi) { auto b = t.boundingBox(); *lo = b.minima(); *hi = b.maxima(); }
F tri2_area(T2 const & t) { return t.area(); }
F tri3_area(T3 const & t) { return t.area(); }
void tri2_centroid(T2 const & t, P2 * o) { *o = t.centroid(); }
void tri3_centroid(T3 const & t, P3 * o) { *o = t.centroid(); }
bool tri2_isccw(T2 const & t) { return t.isCCW(); }
void tri2_flip(T2 & t) { t.flip(); }
bool tri2_contains(T2 const & t, P2 const & p) { return t.contains(p); }
F tri2_mcl(T2 const & t) { return t.meanChordLength(); }
Int tri2_intersect(T2 const & t, P2 const & o, P2 const & d, F * buf) { return t.intersect(Ray2<F>(o, d), buf); }

void quad_at(Q2 const & t, F r, F s, P2 * o) { *o = t(r, s); }
void quad_jac(Q2 const & t, F r, F s, Mat<2, 2, F> * o) { *o = t.jacobian(r, s); }
void quad_edge(Q2 const & t, Int i, LineSegment<2, F> * o) { *o = t.getEdge(i); }
F quad_perimeter(Q2 const & t) { return t.perimeter(); }
void quad_bb(Q2 const & t, P2 * lo, P2 * hi) { auto b = t.boundingBox(); *lo = b.minima(); *hi = b.maxima(); }
bool quad_isconvex(Q2 const & t) { return t.isConvex(); }
bool quad_isapproxconvex(Q2 const & t) { return t.isApproxConvex(); }
F quad_area(Q2 const & t) { return t.area(); }
void quad_centroid(Q2 const & t, P2 * o) { *o = t.centroid(); }
bool quad_isccw(Q2 const & t) { return t.isCCW(); }
void quad_flip(Q2 & t) { t.flip(); }
bool quad_contains(Q2 const & t, P2 const & p) { return t.contains(p); }
F quad_mcl(Q2 const & t) { return t.meanChordLength(); }
Int quad_intersect(Q2 const & t, P2 const & o, P2 const & d, F * buf) { return t.intersect(Ray2<F>(o, d), buf); }
}
