#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>
using namespace um2;
using F = double;
extern "C" {
F rt_disc(F a, F b, F c) { return quadraticDiscriminant(a, b, c); }
void rt_quad(F a, F b, F c, F * o) { auto r = solveQuadratic(a, b, c); o[0] = r[0]; o[1] = r[1]; }
void rt_cub_lin(F b, F c, F d, F * o) { auto r = solveCubic(0.0, b, c, d); o[0] = r[0]; o[1] = r[1]; o[2] = r[2]; }
void rt_cub_zero(F a, F b, F c, F * o) { auto r = solveCubic(a, b, c, 0.0); o[0] = r[0]; o[1] = r[1]; o[2] = r[2]; }
void rt_cub_order(F a, F b, F c, F d, F * o) { auto r = solveCubic(a, b, c, d); o[0] = r[0]; o[1] = r[1]; o[2] = r[2]; }
void rt_cub(F a, F b, F c, F d, F * o) { auto r = solveCubic(a, b, c, d); o[0] = r[0]; o[1] = r[1]; o[2] = r[2]; }
}
