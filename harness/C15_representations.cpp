// C15: position objects keep what they are given
// @bounds every component an exact real: angles in [-1e5,1e5] degree or radian, lengths in [-1e12,1e12]; components in degree, radian, metre, centimetre, kilometre and pure numbers in mixed combinations; construction, single and joint setters in any order, copies, tuples, change of units
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfc.h"
#define A(n) vf_real(n, -100000, 100000)
#define L(n) vf_real(n, -1000000000000., 1000000000000.)
template <class R, class Q1, class Q2, class Q3> static void sph_get(R const& r, double a, double b, double c, const char* id) { vf_close(r.get_lat().value(), a, 1e-9, id); vf_close(r.get_lon().value(), b, 1e-9, id); vf_close(r.get_dist().value(), c, 1e-9, id); auto t = r.get_lat_lon_dist(); vf_close(std::get<0>(t).value(), a, 1e-9, "tuple"); vf_close(std::get<1>(t).value(), b, 1e-9, "tuple"); vf_close(std::get<2>(t).value(), c, 1e-9, "tuple"); }
template <template <class...> class R, class Q1, class Q2, class Q3> static void sph() {
  typedef R<double, Q1, Q2, Q3> T; double a = A("a"), b = A("b"), c = L("c"); T p(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); sph_get<T, Q1, Q2, Q3>(p, a, b, c, "constructed"); vf_close(bg::get<0>(p.get_point()), a * uf<Q1>::f(), 1e-9, "point-in-radian"); vf_close(bg::get<1>(p.get_point()), b * uf<Q2>::f(), 1e-9, "point-in-radian"); vf_close(bg::get<2>(p.get_point()), c, 1e-9, "point-distance");
  T q; q.set_lat_lon_dist(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); sph_get<T, Q1, Q2, Q3>(q, a, b, c, "set-together"); T k(p); double d = A("d"); int w = vf_pick("which", 0, 2); if (w == 0) { p.set_lat(mk<Q1>(d)); sph_get<T, Q1, Q2, Q3>(p, d, b, c, "set-one"); } if (w == 1) { p.set_lon(mk<Q2>(d)); sph_get<T, Q1, Q2, Q3>(p, a, d, c, "set-one"); } if (w == 2) { p.set_dist(mk<Q3>(d)); sph_get<T, Q1, Q2, Q3>(p, a, b, d, "set-one"); } sph_get<T, Q1, Q2, Q3>(k, a, b, c, "copy-independent"); k = p; if (w == 0) sph_get<T, Q1, Q2, Q3>(k, d, b, c, "assigned"); vf_reach("end"); }
// @entry h_sph_rad reach=end
VF_HARNESS(h_sph_rad) { sph<spherical_representation, Rad, Rad, Met>(); }
// @entry h_sph_deg reach=end
VF_HARNESS(h_sph_deg) { sph<spherical_representation, Deg, Deg, Cm>(); }
// @entry h_sph_mix reach=end
VF_HARNESS(h_sph_mix) { sph<spherical_representation, Deg, Rad, One>(); }
// @entry h_equ_rad reach=end
VF_HARNESS(h_equ_rad) { sph<spherical_equatorial_representation, Rad, Rad, Km>(); }
// @entry h_equ_deg reach=end
VF_HARNESS(h_equ_deg) { sph<spherical_equatorial_representation, Deg, Deg, Met>(); }
// @entry h_equ_mix reach=end
VF_HARNESS(h_equ_mix) { sph<spherical_equatorial_representation, Rad, Deg, One>(); }
template <class R> static void car_get(R const& r, double a, double b, double c, const char* id) { vf_close(r.get_x().value(), a, 1e-9, id); vf_close(r.get_y().value(), b, 1e-9, id); vf_close(r.get_z().value(), c, 1e-9, id); auto t = r.get_x_y_z(); vf_close(std::get<0>(t).value(), a, 1e-9, "tuple"); vf_close(std::get<1>(t).value(), b, 1e-9, "tuple"); vf_close(std::get<2>(t).value(), c, 1e-9, "tuple"); }
template <class Q1, class Q2, class Q3> static void car() {
  typedef cartesian_representation<double, Q1, Q2, Q3> T; double a = L("a"), b = L("b"), c = L("c"), d = L("d"); T p(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); car_get(p, a, b, c, "constructed"); T q; q.set_x_y_z(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); car_get(q, a, b, c, "set-together"); T k(p); int w = vf_pick("which", 0, 2); if (w == 0) { p.set_x(mk<Q1>(d)); car_get(p, d, b, c, "set-one"); } if (w == 1) { p.set_y(mk<Q2>(d)); car_get(p, a, d, c, "set-one"); } if (w == 2) { p.set_z(mk<Q3>(d)); car_get(p, a, b, d, "set-one"); } car_get(k, a, b, c, "copy-independent"); auto m = make_cartesian_representation(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); car_get(m, a, b, c, "made"); auto u = make_cartesian_representation(m); car_get(u, a, b, c, "made-from-same"); vf_reach("end"); }
// @entry h_car_same reach=end
VF_HARNESS(h_car_same) { car<Met, Met, Met>(); }
// @entry h_car_mix reach=end
VF_HARNESS(h_car_mix) { car<Met, Cm, Km>(); }
// @entry h_car_one reach=end
VF_HARNESS(h_car_one) { car<One, One, One>(); }
// @entry h_units reach=end
VF_HARNESS(h_units) {   // a change of units keeps the point
  double a = L("a"), b = L("b"), c = L("c"); auto m = make_cartesian_representation(mk<Met>(a), mk<Cm>(b), mk<Km>(c)); auto n = make_cartesian_representation<double, Cm, Km, Met>(m); vf_close(n.get_x().value(), a * 100, 1e-9, "metre-to-centimetre"); vf_close(n.get_y().value() * 100000, b, 1e-9, "centimetre-to-kilometre"); vf_close(n.get_z().value(), c * 1000, 1e-9, "kilometre-to-metre"); cartesian_representation<double, Km, Met, Cm> o(m); vf_close(o.get_x().value() * 1000, a, 1e-9, "constructed-metre-to-kilometre"); vf_close(o.get_y().value() * 100, b, 1e-9, "constructed-centimetre-to-metre"); vf_close(o.get_z().value(), c * 100000, 1e-9, "constructed-kilometre-to-centimetre"); vf_reach("end"); }
// @entry h_sph_units reach=end
VF_HARNESS(h_sph_units) { double a = A("a"), b = A("b"), c = L("c"); auto m = make_spherical_representation(mk<Deg>(a), mk<Rad>(b), mk<Km>(c)); sph_get<decltype(m), Deg, Rad, Km>(m, a, b, c, "made"); auto s = make_spherical_representation(m); sph_get<decltype(m), Deg, Rad, Km>(s, a, b, c, "made-from-same"); auto n = make_spherical_representation<double, Rad, Deg, Met>(m); vf_close(n.get_lat().value() * 180, a * PI, 1e-9, "degree-to-radian"); vf_close(n.get_lon().value() * PI, b * 180, 1e-9, "radian-to-degree"); vf_close(n.get_dist().value(), c * 1000, 1e-9, "kilometre-to-metre"); spherical_representation<double, Rad, Deg, Cm> o(m); vf_close(o.get_lat().value() * 180, a * PI, 1e-9, "constructed-degree-to-radian"); vf_close(o.get_lon().value() * PI, b * 180, 1e-9, "constructed-radian-to-degree"); vf_close(o.get_dist().value(), c * 100000, 1e-9, "constructed-kilometre-to-centimetre"); vf_reach("end"); }
// @entry h_equ_units reach=end
VF_HARNESS(h_equ_units) { double a = A("a"), b = A("b"), c = L("c"); auto m = make_spherical_equatorial_representation(mk<Deg>(a), mk<Rad>(b), mk<Km>(c)); sph_get<decltype(m), Deg, Rad, Km>(m, a, b, c, "made"); auto s = make_spherical_equatorial_representation(m); sph_get<decltype(m), Deg, Rad, Km>(s, a, b, c, "made-from-same"); auto n = make_spherical_equatorial_representation<double, Rad, Deg, Met>(m); vf_close(n.get_lat().value() * 180, a * PI, 1e-9, "degree-to-radian"); vf_close(n.get_lon().value() * PI, b * 180, 1e-9, "radian-to-degree"); vf_close(n.get_dist().value(), c * 1000, 1e-9, "kilometre-to-metre"); spherical_equatorial_representation<double, Rad, Deg, Cm> o(m); vf_close(o.get_lat().value() * 180, a * PI, 1e-9, "constructed-degree-to-radian"); vf_close(o.get_lon().value() * PI, b * 180, 1e-9, "constructed-radian-to-degree"); vf_close(o.get_dist().value(), c * 100000, 1e-9, "constructed-kilometre-to-centimetre"); vf_reach("end"); }
// @entry h_equal reach=same,differ
VF_HARNESS(h_equal) {   // equality of two points is equality of the places
  auto p = make_cartesian_representation(mk<Met>(L("a")), mk<Met>(L("b")), mk<Met>(L("c"))), q = make_cartesian_representation(mk<Met>(L("d")), mk<Met>(L("e")), mk<Met>(L("f"))); bool same = p.get_x() == q.get_x() && p.get_y() == q.get_y() && p.get_z() == q.get_z(); vf_assert((p == q) == same, "equality"); vf_assert((q == p) == same, "equality-symmetric"); if (same) vf_reach("same"); else vf_reach("differ"); }
// the documented defaults: double, radian, pure numbers; and single precision
template <class T> static void dbl(T const&) { vf_assert(sizeof(typename T::type) == sizeof(double), "default-number"); }
// @entry h_defaults reach=end
VF_HARNESS(h_defaults) { double a = A("a"), b = A("b"), c = L("c"); spherical_representation<> s(mk<typename spherical_representation<>::quantity1>(a), mk<typename spherical_representation<>::quantity2>(b), mk<typename spherical_representation<>::quantity3>(c)); dbl(s); sph_get<decltype(s), Rad, Rad, One>(s, a, b, c, "spherical-default"); typedef spherical_equatorial_representation<> E; E q(mk<E::quantity1>(a), mk<E::quantity2>(b), mk<E::quantity3>(c)); dbl(q); sph_get<decltype(q), Rad, Rad, One>(q, a, b, c, "equatorial-default"); vf_close(bg::get<0>(s.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(q.get_point()), b, 1e-9, "default-radian"); typedef cartesian_representation<> K; K k(mk<K::quantity1>(a), mk<K::quantity2>(b), mk<K::quantity3>(c)); dbl(k); car_get(k, a, b, c, "cartesian-default"); spherical_representation<double, Deg> t(mk<Deg>(a), mk<Rad>(b), mk<One>(c)); sph_get<decltype(t), Deg, Rad, One>(t, a, b, c, "spherical-default"); spherical_equatorial_representation<double, Deg, Deg> u(mk<Deg>(a), mk<Deg>(b), mk<One>(c)); sph_get<decltype(u), Deg, Deg, One>(u, a, b, c, "equatorial-default"); vf_reach("end"); }
template <class U> using F = bu::quantity<U, float>; template <class U> static F<U> mf(float v) { return F<U>::from_value(v); }
typedef F<bu::si::plane_angle> FR; typedef F<bu::si::length> FM; typedef F<bu::cgs::length> FC;
template <template <class...> class R> static void fsph() { float a = (float)A("a"), b = (float)A("b"), c = (float)L("c"); R<float, FR, FR, FM> r(mf<bu::si::plane_angle>(a), mf<bu::si::plane_angle>(b), mf<bu::si::length>(c)); vf_assert(r.get_lat().value() == a && r.get_lon().value() == b && r.get_dist().value() == c, "single-precision"); R<float, FR, FR, FM> k(r); k.set_lat(mf<bu::si::plane_angle>(b)); k.set_dist(mf<bu::si::length>(a)); vf_assert(k.get_lat().value() == b && k.get_lon().value() == b && k.get_dist().value() == a && r.get_lat().value() == a, "single-precision-set"); vf_reach("end"); }
// @entry h_float_sph reach=end
VF_HARNESS(h_float_sph) { fsph<spherical_representation>(); }
// @entry h_float_equ reach=end
VF_HARNESS(h_float_equ) { fsph<spherical_equatorial_representation>(); }
// @entry h_float_car reach=end
VF_HARNESS(h_float_car) { float a = (float)L("a"), b = (float)L("b"), c = (float)L("c"); cartesian_representation<float, FM, FC, FM> r(mf<bu::si::length>(a), mf<bu::cgs::length>(b), mf<bu::si::length>(c)); vf_assert(r.get_x().value() == a && r.get_y().value() == b && r.get_z().value() == c, "single-precision"); auto m = make_cartesian_representation(mf<bu::si::length>(a), mf<bu::cgs::length>(b), mf<bu::si::length>(c)); vf_assert(m.get_x().value() == a && m.get_y().value() == b && m.get_z().value() == c, "single-precision-made"); vf_reach("end"); }
