#include <new>
#include <um2/stdlib/vector.hpp>
using namespace um2;
// An element type that records its own life: `st` says whether the object exists, `trLive` how many exist.
static int32_t trLive;
static constexpr int32_t ALIVE = 1001, GONE = 2002;
struct Tr {
  int32_t v;
  int32_t st;
  Tr() noexcept : v(0), st(ALIVE) { ++trLive; }
  explicit Tr(int32_t x) noexcept : v(x), st(ALIVE) { ++trLive; }
  Tr(Tr const & o) noexcept : v(o.v), st(ALIVE) { ASSERT(o.st == ALIVE); ++trLive; }
  Tr(Tr && o) noexcept : v(o.v), st(ALIVE) { ASSERT(o.st == ALIVE); o.v = 0; ++trLive; }
  Tr & operator=(Tr const & o) noexcept { ASSERT(o.st == ALIVE); ASSERT(st == ALIVE); v = o.v; return *this; }
  Tr & operator=(Tr && o) noexcept { ASSERT(o.st == ALIVE); ASSERT(st == ALIVE); int32_t const t = o.v; o.v = 0; v = t; return *this; }
  ~Tr() noexcept { ASSERT(st == ALIVE); st = GONE; --trLive; }
  bool operator==(Tr const & o) const noexcept { ASSERT(o.st == ALIVE); ASSERT(st == ALIVE); return v == o.v; }
};
using V = Vector<Tr>;
#define BEG trLive = 0;
#define END *d = trLive;
extern "C" {
void tr_def(V & o, Int * d) { BEG new (&o) V(); END }
void tr_make(V & o, Int n, Int * d) { BEG new (&o) V(n); END }
void tr_fill(V & o, Int n, Tr const & x, Int * d) { BEG new (&o) V(n, x); END }
void tr_cctor(V & o, V const & v, Int * d) { BEG new (&o) V(v); END }
void tr_mctor(V & o, V & v, Int * d) { BEG new (&o) V(um2::move(v)); END }
void tr_range(V & o, Tr const * b, Int n, Int * d) { BEG new (&o) V(b, b + n); END }
void tr_list(V & o, Tr const * b, Int * d) { BEG new (&o) V({b[0], b[1]}); END }
void tr_casg(V & o, V const & v, Int * d) { BEG o = v; END }
void tr_masg(V & o, V & v, Int * d) { BEG o = um2::move(v); END }
void tr_cself(V & o, Int * d) { BEG V const & v = o; o = v; END }
void tr_mself(V & o, Int * d) { BEG V & v = o; o = um2::move(v); END }
void tr_lasg(V & o, Tr const * b, Int * d) { BEG o = {b[0], b[1]}; END }
void tr_assign(V & o, Tr const * b, Int n, Int * d) { BEG o.assign(b, b + n); END }
void tr_dtor(V & o, Int * d) { BEG o.~V(); new (&o) V(); END }
void tr_reserve(V & v, Int n, Int * d) { BEG v.reserve(n); END }
void tr_clear(V & v, Int * d) { BEG v.clear(); END }
void tr_push(V & v, Tr const & x, Int * d) { BEG v.push_back(x); END }
void tr_pushown(V & v, Int i, Int * d) { BEG v.push_back(v[i]); END }
void tr_pushr(V & v, Tr & x, Int * d) { BEG v.push_back(um2::move(x)); END }
void tr_emplace(V & v, Int x, Int * d) { BEG v.emplace_back(x); END }
void tr_emplaceown(V & v, Int i, Int * d) { BEG v.emplace_back(v[i]); END }
void tr_pop(V & v, Int * d) { BEG v.pop_back(); END }
void tr_resize(V & v, Int n, Int * d) { BEG v.resize(n); END }
bool tr_eq(V const & a, V const & b, Int * d) { BEG bool const r = a == b; END return r; }
// whole life of one array: everything is given back
void tr_life(Tr const * b, Int n, Int m, Int * d)
{
  BEG
  {
    V v(b, b + n);
    V w(v);
    w.reserve(m);
    V x(um2::move(v));
    v = w;
    w.clear();
  }
  END
}
}
