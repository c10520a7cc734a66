from mkbug import mk
HQ = '''#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/triangle.hpp>
#include <cstdio>
#include <cmath>
using namespace um2;
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
int main() {
  using P = Point2<double>;
'''
mk('quad-centroid-weights', 'P15', [('include/um2/geometry/quadrilateral.hpp', 'T const a2 = v20.cross(v30);', 'T const a2 = v10.cross(v30);')],
   'a quadrilateral that is not a parallelogram',
   'the centroid of a non-parallelogram quadrilateral is computed with the wrong triangle weight',
   HQ + '''  Quadrilateral2<double> q(P(0, 0), P(4, 0), P(3, 1), P(0, 1));
  auto c = q.centroid();
  // exact: area 3.5, trapezoid
  double const ax = (4.0 * 4.0 + 4.0 * 3.0 + 3.0 * 3.0) / (3 * (4.0 + 3.0));
  double const ay = (4.0 + 2 * 3.0) / (3 * (4.0 + 3.0));
  printf("%g %g expected %g %g\\n", c[0], c[1], ax, ay);
  return near(c[0], ax) && near(c[1], ay) ? 0 : 1;
}
''')
mk('quad-jacobian-param', 'P15', [('include/um2/geometry/quadrilateral.hpp', 'w2 * (q[3] - q[0]) - r * (q[1] - q[2]));', 'w2 * (q[3] - q[0]) - s * (q[1] - q[2]));')],
   'a non-parallelogram quadrilateral and r != s',
   'the second column of the Jacobian is no longer dF/ds',
   HQ + '''  Quadrilateral2<double> q(P(0, 0), P(4, 0), P(3, 2), P(0, 1));
  double r = 0.25, s = 0.75, h = 1e-6;
  auto j = q.jacobian(r, s);
  auto a = q(r, s + h), b = q(r, s - h);
  double dx = (a[0] - b[0]) / (2 * h), dy = (a[1] - b[1]) / (2 * h);
  printf("%g %g vs %g %g\\n", j(0, 1), j(1, 1), dx, dy);
  return std::fabs(j(0, 1) - dx) < 1e-5 && std::fabs(j(1, 1) - dy) < 1e-5 ? 0 : 1;
}
''')
mk('quad-convex-corner', 'P15', [('include/um2/geometry/quadrilateral.hpp', '''  bool const b3 = areCCW(q[3], q[0], q[1]);
  return b0 && b1 && b2 && b3;
}

template <Int D, class T>
PURE HOSTDEV constexpr auto
Quadrilateral<D, T>::isConvex() const''', '''  return b0 && b1 && b2;
}

template <Int D, class T>
PURE HOSTDEV constexpr auto
Quadrilateral<D, T>::isConvex() const''')],
   'a quadrilateral whose only reflex corner is vertex 0',
   'isConvex accepts a concave quadrilateral',
   HQ + '''  Quadrilateral2<double> q(P(1, 1), P(3, 0), P(4, 4), P(0, 3));
  // same shape with the reflex corner moved to vertex 0
  Quadrilateral2<double> z(P(2, 2), P(3, -3), P(4, 4), P(-3, 3));
  printf("%d %d\\n", q.isConvex(), z.isConvex());
  return z.isConvex() ? 1 : 0;
}
''')
