#include "soup.hpp"
extern "C" {
void s_trans(VP & v, VT const & t, VI const & o, VI const & c, Point3F const & p) { Sp s(v, t, o, c); s.s.translate(p); }
void s_merge(VP & v, VT & t, VI & o, VI & c, VP const & v2, VT const & t2, VI const & o2, VI const & c2) { Sp s(v, t, o, c); Sp q(v2, t2, o2, c2); s.s += q.s; }
void s_merge1(VP & v, VT & t, VI & o, VI & c, VP const & v2, VT const & t2, VI const & o2, VI const & c2) { Sp s(v, t, o, c); Sp q(v2, t2, o2, c2); s.s += q.s; }
void s_merge2(VP & v, VT & t, VI & o, VI & c, VP const & v2, VT const & t2, VI const & o2, VI const & c2) { Sp s(v, t, o, c); Sp q(v2, t2, o2, c2); s.s += q.s; }
void g_merge(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, VP const & v2, VI const & t2, Vector<VI> const & c2, VI const & g2, Vector<VI> const & ids2, Vector<VF> const & data2, VI & w, VF & x, VI & w2, VF & x2)
{ QUIET; PolytopeSoup s; PolytopeSoup q; fill(s, v, t, c, g, ids, data, nullptr); fill(q, v2, t2, c2, g2, ids2, data2, nullptr); s.sortElsets(); q.sortElsets(); s += q; dump(s, w, x); dump(q, w2, x2); }
void g_sort(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, VI & w, VF & x)
{ QUIET; PolytopeSoup s; fill(s, v, t, c, g, ids, data, nullptr); s.sortElsets(); dump(s, w, x); }
void g_trans(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, Point3F const & p, VI & w, VF & x)
{ QUIET; PolytopeSoup s; fill(s, v, t, c, g, ids, data, nullptr); s.translate(p); dump(s, w, x); }
void g_sub(VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, Int name, VI & w, VF & x, VI & w2, VF & x2)
{ QUIET; PolytopeSoup s; PolytopeSoup q; fill(s, v, t, c, g, ids, data, nullptr); s.getSubset(gname(name), q); dump(q, w, x); dump(s, w2, x2); }
}
