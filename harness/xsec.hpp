#pragma once
#include "quiet.hpp"
#include <um2/physics/nuclide.hpp>
using namespace um2;
using F = Float;
using VF = Vector<F>;
using VI = Vector<Int>;
#define XS(k) VF const & a##k, VF const & f##k, VF const & n##k, VF const & t##k, VF const & s##k, VF const & m##k
#define XU(k) a##k, f##k, n##k, t##k, s##k, m##k
template <class T> inline auto mut(T const & x) -> T & { return const_cast<T &>(x); }
// the storage of the data is lent to the cross section and handed back
inline void lend(XSec & x, XS())
{ x.a() = um2::move(mut(a)); x.f() = um2::move(mut(f)); x.nuf() = um2::move(mut(n)); x.tr() = um2::move(mut(t)); x.s() = um2::move(mut(s)); x.ss().asVector() = um2::move(mut(m)); }
inline void back(XSec & x, XS())
{ mut(a) = um2::move(x.a()); mut(f) = um2::move(x.f()); mut(n) = um2::move(x.nuf()); mut(t) = um2::move(x.tr()); mut(s) = um2::move(x.s()); mut(m) = um2::move(x.ss().asVector()); }
inline void meta(XSec const & x, Int * w)
{ w[0] = x.numGroups(); w[1] = x.isMacro() ? 1 : 0; w[2] = x.isFissile() ? 1 : 0; w[3] = x.ss().rows(); w[4] = x.ss().cols(); }
