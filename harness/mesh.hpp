#pragma once
#include "quiet.hpp"
#include "src/mesh/face_vertex_mesh.cpp"
using namespace um2;
using F = Float;
template <Int P, Int N> using Vs = Vector<typename FVM<P, N>::Vertex>;
template <Int P, Int N> using Cs = Vector<Vec<N, Int>>;
// A mesh with the given vertices and faces, not validated; the storage is lent to the mesh and handed back
template <Int P, Int N>
struct Mk {
  FVM<P, N> m;
  Vs<P, N> & v;
  Cs<P, N> & c;
  Mk(Vs<P, N> const & v_, Cs<P, N> const & c_) : v(const_cast<Vs<P, N> &>(v_)), c(const_cast<Cs<P, N> &>(c_)) { m.vertices() = um2::move(v); m.faceVertexConn() = um2::move(c); }
  ~Mk() { v = um2::move(m.vertices()); c = um2::move(m.faceVertexConn()); }
};
#define KINDS(GEN) GEN(1, 3, t) GEN(1, 4, q) GEN(2, 6, u) GEN(2, 8, r)
