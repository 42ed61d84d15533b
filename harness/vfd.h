// differentials, for the harnesses C18 and C19
#pragma once
#include "vfc.h"
#include <boost/units/systems/cgs.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
typedef bu::quantity<bu::si::velocity> Mps; typedef bu::quantity<bu::cgs::velocity> Cmps; typedef bu::quantity<bu::divide_typeof_helper<Km::unit_type, bu::si::time>::type> Kmps;
template <> struct uf<Mps> { static double f() { return 1; } }; template <> struct uf<Cmps> { static double f() { return 0.01; } }; template <> struct uf<Kmps> { static double f() { return 1000; } };
template <class... X> using SD = spherical_differential<double, X...>; template <class... X> using QD = spherical_equatorial_differential<double, X...>; template <class... X> using KD = spherical_coslat_differential<double, X...>; template <class... X> using CD = cartesian_differential<double, X...>;
// the second angle is named differently in the coslat differential
template <class... X> static auto lonOf(SD<X...> const& d) { return d.get_dlon(); } template <class... X> static auto lonOf(QD<X...> const& d) { return d.get_dlon(); } template <class... X> static auto lonOf(KD<X...> const& d) { return d.get_dlon_coslat(); }
template <class... X> static auto allOf(SD<X...> const& d) { return d.get_dlat_dlon_ddist(); } template <class... X> static auto allOf(QD<X...> const& d) { return d.get_dlat_dlon_ddist(); } template <class... X> static auto allOf(KD<X...> const& d) { return d.get_dlat_dlon_coslat_ddist(); }
template <class Q, class... X> static void setLon(SD<X...>& d, Q const& q) { d.set_dlon(q); } template <class Q, class... X> static void setLon(QD<X...>& d, Q const& q) { d.set_dlon(q); } template <class Q, class... X> static void setLon(KD<X...>& d, Q const& q) { d.set_dlon_coslat(q); }
template <class A, class B, class C, class... X> static void setAll(SD<X...>& d, A const& a, B const& b, C const& c) { d.set_dlat_dlon_ddist(a, b, c); } template <class A, class B, class C, class... X> static void setAll(QD<X...>& d, A const& a, B const& b, C const& c) { d.set_dlat_dlon_ddist(a, b, c); } template <class A, class B, class C, class... X> static void setAll(KD<X...>& d, A const& a, B const& b, C const& c) { d.set_dlat_dlon_coslat_ddist(a, b, c); }
// which motion a differential stands for, in metres per second, from the values its own accessors report
template <class... X> static V mo(SD<X...> const& s) { return ofS(base(s.get_dlat()), base(s.get_dlon()), base(s.get_ddist())); }
template <class... X> static V mo(QD<X...> const& s) { return ofQ(base(s.get_dlat()), base(s.get_dlon()), base(s.get_ddist())); }
template <class... X> static V mo(KD<X...> const& s) { double a = base(s.get_dlat()); return ofS(a, base(s.get_dlon_coslat()) / std::cos(a), base(s.get_ddist())); }
template <class... X> static V mo(CD<X...> const& s) { return {base(s.get_dx()), base(s.get_dy()), base(s.get_dz())}; }
