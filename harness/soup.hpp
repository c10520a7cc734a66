#pragma once
#include "quiet.hpp"
#include "src/mesh/polytope_soup.cpp"
#include <cstring>
using namespace um2;
using F = Float;
using VT = Vector<VTKElemType>;
using VI = Vector<Int>;
using VF = Vector<F>;
using VP = Vector<Point3F>;
// A soup holding the given vertices and elements, with no groups; the storage is lent to it and handed back
struct Sp {
  PolytopeSoup s;
  VP & v;
  VT & t;
  VI & o;
  VI & c;
  template <class T> static auto mut(T const & x) -> T & { return const_cast<T &>(x); }
  Sp(VP const & v_, VT const & t_, VI const & o_, VI const & c_) : v(mut(v_)), t(mut(t_)), o(mut(o_)), c(mut(c_))
  { mut(s.vertices()) = um2::move(v); mut(s.elementTypes()) = um2::move(t); mut(s.elementOffsets()) = um2::move(o); mut(s.elementConnectivity()) = um2::move(c); }
  ~Sp() { v = um2::move(mut(s.vertices())); t = um2::move(mut(s.elementTypes())); o = um2::move(mut(s.elementOffsets())); c = um2::move(mut(s.elementConnectivity())); }
};
// names of groups: short ones, long ones, one a prefix of the other
inline auto gname(Int i) -> String
{
  switch (i) {
  case 0: return String("a");
  case 1: return String("Material_of_a_rather_long_name");
  case 2: return String("Material");
  case 3: return String("b");
  case 4: return String("Material_of_a_rather_long_name_2");
  case 5: return String("Cell_1");
  default: return String("Cell_10");
  }
}
inline auto gcode(String const & s) -> Int
{
  for (Int i = 0; i < 7; ++i) { if (s == gname(i)) { return i; } }
  return -1;
}
// everything a soup holds, read through its getters
inline void dump(PolytopeSoup const & s, VI & w, VF & x)
{
  w.emplace_back(s.numVertices());
  for (Int i = 0; i < s.numVertices(); ++i) { for (Int k = 0; k < 3; ++k) { x.emplace_back(s.getVertex(i)[k]); } }
  w.emplace_back(s.numElements());
  for (Int i = 0; i < s.numElements(); ++i) {
    VTKElemType t = VTKElemType::Invalid;
    VI conn;
    s.getElement(i, t, conn);
    w.emplace_back(static_cast<Int>(t));
    w.emplace_back(conn.size());
    for (auto const & e : conn) { w.emplace_back(e); }
  }
  w.emplace_back(s.numElsets());
  for (Int i = 0; i < s.numElsets(); ++i) {
    for (Int how = 0; how < 2; ++how) {
      VI ids;
      VF data;
      String nm;
      if (how == 0) { s.getElset(i, nm, ids, data); } else { nm = s.elsetNames()[i]; s.getElset(nm, ids, data); }
      w.emplace_back(gcode(nm));
      w.emplace_back(ids.size());
      for (auto const & e : ids) { w.emplace_back(e); }
      w.emplace_back(data.size());
      for (auto const & e : data) { x.emplace_back(e); }
    }
  }
}
// fill a soup; the indices returned go to r when given
inline void fill(PolytopeSoup & s, VP const & v, VI const & t, Vector<VI> const & c, VI const & g, Vector<VI> const & ids, Vector<VF> const & data, VI * r)
{
  for (Int i = 0; i < v.size(); ++i) {
    Int const k = i % 2 == 0 ? s.addVertex(v[i]) : s.addVertex(v[i][0], v[i][1], v[i][2]);
    if (r != nullptr) { r->emplace_back(k); }
  }
  for (Int i = 0; i < t.size(); ++i) {
    Int const k = s.addElement(static_cast<VTKElemType>(t[i]), c[i]);
    if (r != nullptr) { r->emplace_back(k); }
  }
  for (Int i = 0; i < g.size(); ++i) {
    Int const k = i % 2 == 0 && data[i].empty() ? s.addElset(gname(g[i]), ids[i]) : s.addElset(gname(g[i]), ids[i], data[i]);
    if (r != nullptr) { r->emplace_back(k); }
  }
}
