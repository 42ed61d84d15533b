// shared by the coordinate harnesses
#pragma once
#include "vfh.h"
#include <cmath>
#include <boost/units/quantity.hpp>
#include <boost/units/io.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/cgs/length.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
using namespace boost::astronomy::coordinate; namespace bu = boost::units; namespace bg = boost::geometry;
typedef bu::quantity<bu::degree::plane_angle> Deg; typedef bu::quantity<bu::si::plane_angle> Rad; typedef bu::quantity<bu::si::length> Met; typedef bu::quantity<bu::cgs::length> Cm; typedef decltype(1.0 * bu::si::kilo * bu::si::meter) Km; typedef bu::quantity<bu::si::dimensionless> One;
// the size of angles in the unit of a component: 7 radian or 420 degree
template <class Q> struct vf_amp { static double m() { return 7; } }; template <> struct vf_amp<Deg> { static double m() { return 420; } };
static const double PI = 3.141592653589793238462643383279502884;
template <class Q> struct uf { static double f() { return Met(Q::from_value(1.0)).value(); } }; template <> struct uf<Deg> { static double f() { return Rad(Deg::from_value(1.0)).value(); } }; /* the units library's own degree */ template <> struct uf<Rad> { static double f() { return 1; } }; template <> struct uf<Met> { static double f() { return 1; } }; template <> struct uf<Cm> { static double f() { return 0.01; } }; template <> struct uf<Km> { static double f() { return 1000; } }; template <> struct uf<One> { static double f() { return 1; } };
template <class U> struct uf<bu::quantity<U, float>> { static double f() { return uf<bu::quantity<U, double>>::f(); } };
template <class Q> static Q mk(double v) { return Q::from_value(static_cast<typename Q::value_type>(v)); }
template <class Q> static double base(Q const& q) { return q.value() * uf<Q>::f(); }   // value in radian / metre / pure number
struct V { double x, y, z; };
static V ofS(double a, double t, double r) { return {r * std::sin(t) * std::cos(a), r * std::sin(t) * std::sin(a), r * std::cos(t)}; }
static V ofQ(double a, double d, double r) { return {r * std::cos(d) * std::cos(a), r * std::cos(d) * std::sin(a), r * std::sin(d)}; }
// where an object points, in metres, from the values its own accessors report
template <class T, class... X> static V pl(spherical_representation<T, X...> const& s) { return ofS(base(s.get_lat()), base(s.get_lon()), base(s.get_dist())); }
template <class T, class... X> static V pl(spherical_equatorial_representation<T, X...> const& s) { return ofQ(base(s.get_lat()), base(s.get_lon()), base(s.get_dist())); }
template <class T, class... X> static V pl(cartesian_representation<T, X...> const& s) { return {base(s.get_x()), base(s.get_y()), base(s.get_z())}; }
template <class Q> static double num(Q const& q) { return q.value(); }
// 1e-7, or 1e-9 where the result needs no inverse function (near a pole acos gives only half of the digits): a result that went through single precision is outside
static double vf_tol = 1e-7; template <class R> struct vf_isC { static const bool v = false; }; template <class... X> struct vf_isC<boost::astronomy::coordinate::cartesian_representation<X...>> { static const bool v = true; };
static void nearly(double a, double b, double scale, const char* id) { if (vf_symbolic()) vf_close(a, b, vf_tol, id); else vf_assert(std::fabs(a - b) <= vf_tol * (1 + scale + std::fabs(b)), id); }   // scale: size of the operands (replay: rounding is relative to it)
static void eq(V a, V b, const char* id, double scale = 0) { if (!vf_symbolic()) scale += std::sqrt(b.x * b.x + b.y * b.y + b.z * b.z); nearly(a.x, b.x, scale, id); nearly(a.y, b.y, scale, id); nearly(a.z, b.z, scale, id); }
