// weight percentages with an arbitrary table of atomic masses put in place of the one in the source
#include "xsec.hpp"
#include "src/physics/material.cpp"
using Tab = Vector<Pair<Int, F>>;
extern "C" {
void m_wt_any(VF & d, VI & z, F rho, Tab const & tab, Int zaid, F w)
{
  QUIET;
  Material m; m.setDensity(rho); m.numDensities() = um2::move(d); m.zaids() = um2::move(z);
  Tab keep = um2::move(mut(ZAID_ATOMIC_MASS));
  mut(ZAID_ATOMIC_MASS) = um2::move(mut(tab));
  m.addNuclideWt(zaid, w);
  mut(tab) = um2::move(mut(ZAID_ATOMIC_MASS));
  mut(ZAID_ATOMIC_MASS) = um2::move(keep);
  d = um2::move(m.numDensities()); z = um2::move(m.zaids());
}
}
