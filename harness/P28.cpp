#include "xsec.hpp"
#include "src/physics/cross_section.cpp"
#include "src/physics/nuclide.cpp"
extern "C" {
auto x_total(Int ng, XS(), Int g) -> F { XSec x(ng); lend(x, XU()); F const r = x.t(g); back(x, XU()); return r; }
void x_collapse(Int ng, Int macro, Int fissile, XS(), F * o, Int * w)
{
  QUIET; XSec x(ng); x.isMacro() = macro != 0; x.isFissile() = fissile != 0; lend(x, XU());
  XSec const r = x.collapseTo1GroupAvg();
  o[0] = r.a()[0]; o[1] = r.f()[0]; o[2] = r.nuf()[0]; o[3] = r.tr()[0]; o[4] = r.s()[0]; o[5] = r.ss()(0);
  meta(r, w);
  back(x, XU());
}
void x_valid(Int ng, Int macro, Int fissile, XS(), Int * w)
{ QUIET; XSec x(ng); x.isMacro() = macro != 0; x.isFissile() = fissile != 0; lend(x, XU()); x.validate(); meta(x, w); back(x, XU()); }
void n_interp1(Int ng, Int fissile, F u0, XS(0), F T, XS(), Int * w)
{
  QUIET; Nuclide z; z.temperatures().emplace_back(u0);
  z.xs().emplace_back(ng); lend(z.xs()[0], XU(0)); z.xs()[0].isFissile() = fissile != 0;
  XSec r = z.interpXS(T);
  meta(r, w); back(r, XU()); back(z.xs()[0], XU(0));
}
void n_interp2(Int ng, Int fissile, F u0, F u1, XS(0), XS(1), F T, XS(), Int * w)
{
  QUIET; Nuclide z; z.temperatures().reserve(2); z.temperatures().emplace_back(u0); z.temperatures().emplace_back(u1);
  z.xs().reserve(2); z.xs().emplace_back(ng); z.xs().emplace_back(ng);
  lend(z.xs()[0], XU(0)); lend(z.xs()[1], XU(1)); z.xs()[0].isFissile() = fissile != 0; z.xs()[1].isFissile() = fissile != 0;
  XSec r = z.interpXS(T);
  meta(r, w); back(r, XU()); back(z.xs()[0], XU(0)); back(z.xs()[1], XU(1));
}
void n_interp3(Int ng, Int fissile, F u0, F u1, F u2, XS(0), XS(1), XS(2), F T, XS(), Int * w)
{
  QUIET; Nuclide z; z.temperatures().reserve(3); z.temperatures().emplace_back(u0); z.temperatures().emplace_back(u1); z.temperatures().emplace_back(u2);
  z.xs().reserve(3); z.xs().emplace_back(ng); z.xs().emplace_back(ng); z.xs().emplace_back(ng);
  lend(z.xs()[0], XU(0)); lend(z.xs()[1], XU(1)); lend(z.xs()[2], XU(2)); z.xs()[0].isFissile() = fissile != 0; z.xs()[1].isFissile() = fissile != 0; z.xs()[2].isFissile() = fissile != 0;
  XSec r = z.interpXS(T);
  meta(r, w); back(r, XU()); back(z.xs()[0], XU(0)); back(z.xs()[1], XU(1)); back(z.xs()[2], XU(2));
}
// tables of any length; row i of x holds the data of temperature i: a, f, nuf, tr, s, then the scattering matrix by columns
void n_table(Int ng, Int fissile, VF const & u, Vector<VF> const & x, F T, VF & o, Int * w)
{
  QUIET; Nuclide z; z.temperatures() = u;
  for (Int i = 0; i < x.size(); ++i) {
    XSec q(ng); q.isFissile() = fissile != 0;
    for (Int g = 0; g < ng; ++g) {
      q.a()[g] = x[i][g]; q.f()[g] = x[i][ng + g]; q.nuf()[g] = x[i][2 * ng + g]; q.tr()[g] = x[i][3 * ng + g]; q.s()[g] = x[i][4 * ng + g];
      for (Int h = 0; h < ng; ++h) { q.ss()(h, g) = x[i][5 * ng + g * ng + h]; }
    }
    z.xs().emplace_back(q);
  }
  XSec const r = z.interpXS(T);
  meta(r, w);
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.a()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.f()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.nuf()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.tr()[g]); }
  for (Int g = 0; g < ng; ++g) { o.emplace_back(r.s()[g]); }
  for (Int g = 0; g < ng; ++g) { for (Int h = 0; h < ng; ++h) { o.emplace_back(r.ss()(h, g)); } }
}
}
