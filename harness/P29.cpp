#include "xsec.hpp"
#include "src/physics/material.cpp"
#include <um2/physics/cross_section_library.hpp>
extern "C" {
// a material of the given density whose composition is lent and handed back
struct Mt {
  Material m;
  VF & d;
  VI & z;
  Mt(VF & d_, VI & z_, F rho) : d(d_), z(z_) { m.setDensity(rho); m.numDensities() = um2::move(d); m.zaids() = um2::move(z); }
  ~Mt() { d = um2::move(m.numDensities()); z = um2::move(m.zaids()); }
};
void m_add(VF & d, VI & z, F rho, Int zaid, F n) { QUIET; Mt s(d, z, rho); s.m.addNuclide(zaid, n); }
void m_uo2(VF & d, VI & z, F rho, F w, F g) { QUIET; Mt s(d, z, rho); s.m.setUO2(w, g); }
void m_uo2g(VF & d, VI & z, F rho, F w, F g) { QUIET; Mt s(d, z, rho); s.m.setUO2(w, g); }
void m_wt(VF & d, VI & z, F rho, Int zaid, F w) { QUIET; Mt s(d, z, rho); s.m.addNuclideWt(zaid, w); }
auto m_num(VF & d, VI & z, F rho, Int i, F * o) -> Int
{ QUIET; Mt s(d, z, rho); o[0] = s.m.numDensity(i); o[1] = static_cast<F>(s.m.zaid(i)); o[2] = s.m.getDensity(); return s.m.numNuclides(); }
static auto symbol(Int z, Int a, char * b) -> String
{
  static char const * const el[] = {"H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr",
    "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt",
    "Au", "Hg", "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U", "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm", "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};
  char * p = b;
  for (char const * q = el[z - 1]; *q != '\0'; ++q) { *p++ = *q; }
  char t[8]; Int n = 0;
  do { t[n++] = static_cast<char>('0' + a % 10); a /= 10; } while (a > 0);
  while (n > 0) { *p++ = t[--n]; }
  *p = '\0';
  return String(b);
}
auto s_zaid(Int z, Int a) -> Int { QUIET; char b[16]; return toZAID(symbol(z, a, b)); }
void m_add_s(VF & d, VI & z, F rho, Int e, Int a, F n) { QUIET; char b[16]; Mt s(d, z, rho); s.m.addNuclide(symbol(e, a, b), n); }
void m_wt_s(VF & d, VI & z, F rho, Int e, Int a, F w) { QUIET; char b[16]; Mt s(d, z, rho); s.m.addNuclideWt(symbol(e, a, b), w); }
void m_atom(VF & d, VI & z, F rho, VI const & e, VF const & p)
{ QUIET; char b[16]; Mt s(d, z, rho); Vector<String> sy; for (auto const & q : e) { sy.emplace_back(symbol(q / 1000, q % 1000, b)); } s.m.addNuclidesAtomPercent(sy, p); }
// library nuclide i has one row of x per temperature in u, as in P28
void m_xs(VF & d, VI & z, F rho, F T, Int ng, VI const & lib, VI const & fis, VF const & u, Vector<VF> const & x, VF & o, Int * w)
{
  QUIET; Mt s(d, z, rho); s.m.setTemperature(T); s.m.setName("m");
  XSLibrary L;
  for (Int g = 0; g < ng; ++g) { L.groupBounds().emplace_back(static_cast<F>(ng - g)); L.chi().emplace_back(0.0); }
  Int const nt = u.size();
  for (Int j = 0; j < lib.size(); ++j) {
    Nuclide n; n.zaid() = lib[j]; n.mass() = 1.0; n.isFissile() = fis[j] != 0; n.temperatures() = u;
    for (Int i = 0; i < nt; ++i) {
      XSec q(ng); q.isFissile() = fis[j] != 0;
      VF const & r = x[j * nt + i];
      for (Int g = 0; g < ng; ++g) {
        q.a()[g] = r[g]; q.f()[g] = r[ng + g]; q.nuf()[g] = r[2 * ng + g]; q.tr()[g] = r[3 * ng + g]; q.s()[g] = r[4 * ng + g];
        for (Int h = 0; h < ng; ++h) { q.ss()(h, g) = r[5 * ng + g * ng + h]; }
      }
      n.xs().emplace_back(q);
    }
    L.nuclides().emplace_back(n);
  }
  s.m.populateXSec(L);
  XSec const & r = s.m.xsec();
  meta(r, w);
  w[5] = s.m.hasXSec() ? 1 : 0;
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.a()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.f()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.nuf()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.tr()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.s()[g]); }
  for (Int g = 0; g < ng; ++g) { for (Int h = 0; h < ng; ++h) { o.emplace_back(r.ss()(h, g)); } }
}
}
