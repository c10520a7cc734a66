#include "soup.hpp"
extern "C" {
auto s_addp(VP & v, VT const & t, VI const & o, VI const & c, Point3F const & p) -> Int { Sp s(v, t, o, c); return s.s.addVertex(p); }
auto s_addv(VP & v, VT const & t, VI const & o, VI const & c, F x, F y, F z) -> Int { Sp s(v, t, o, c); return s.s.addVertex(x, y, z); }
auto s_adde(VP const & v, VT & t, VI & o, VI & c, int8_t ty, VI const & conn) -> Int { Sp s(v, t, o, c); return s.s.addElement(static_cast<VTKElemType>(ty), conn); }
auto s_adde0(VP const & v, VT & t, VI & o, VI & c, int8_t ty, VI const & conn) -> Int { Sp s(v, t, o, c); return s.s.addElement(static_cast<VTKElemType>(ty), conn); }
void s_getv(VP const & v, VT const & t, VI const & o, VI const & c, Int i, Point3F & p) { Sp s(v, t, o, c); p = s.s.getVertex(i); }
void s_gete(VP const & v, VT const & t, VI const & o, VI const & c, Int i, int8_t & ty, VI & conn)
{ Sp s(v, t, o, c); VTKElemType y = VTKElemType::Invalid; s.s.getElement(i, y, conn); ty = static_cast<int8_t>(y); }
void s_num(VP const & v, VT const & t, VI const & o, VI const & c, Int * w) { Sp s(v, t, o, c); w[0] = s.s.numVertices(); w[1] = s.s.numElements(); w[2] = s.s.numElsets(); }
void s_rese(VP const & v, VT & t, VI & o, VI & c, int8_t ty, Int n) { Sp s(v, t, o, c); s.s.reserveMoreElements(static_cast<VTKElemType>(ty), n); }
void s_resv(VP & v, VT const & t, VI const & o, VI const & c, Int n) { Sp s(v, t, o, c); s.s.reserveMoreVertices(n); }
void s_types(VP const & v, VT const & t, VI const & o, VI const & c, VT & w) { Sp s(v, t, o, c); w = s.s.getElemTypes(); }
auto g_first(VT const & t, VI const & ids, VF const & data, VI & go, VI & gi) -> Int
{
  QUIET; VP v; VI o; VI c; Sp s(v, t, o, c);
  Int const r = s.s.addElset(String("a"), ids, data);
  go = s.s.elsetOffsets(); gi = s.s.elsetIDs();
  return r;
}
auto s_cmp(VP const & v, VT const & t, VI const & o, VI const & c, VP const & v2, VT const & t2, VI const & o2, VI const & c2) -> Int
{ Sp s(v, t, o, c); Sp q(v2, t2, o2, c2); return s.s.compare(q.s); }
void s_hist(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, VI & r, VI & w, VF & x)
{ QUIET; PolytopeSoup s; fill(s, v, t, c, g, ids, data, &r); dump(s, w, x); }
// the groups of one soup against those of the same soup with one entry changed
auto s_same(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, VP const & v2, VI const & t2, Vector<VI> const & c2, VI const & g2, Vector<VI> const & ids2, Vector<VF> const & data2) -> Int
{ QUIET; PolytopeSoup s; PolytopeSoup q; fill(s, v, t, c, g, ids, data, nullptr); fill(q, v2, t2, c2, g2, ids2, data2, nullptr); return s.compare(q); }
}
