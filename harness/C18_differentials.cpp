// C18: differentials keep what they are given
// @bounds every component an exact real: angles in [-1e5,1e5] degree or radian, speeds in [-1e12,1e12]; degree, radian, metre, centimetre, kilometre per second and pure numbers in mixed combinations; construction, single and joint setters, copies, tuples, make functions, change of units
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfd.h"
#define A(n) vf_real(n, -100000, 100000)
#define L(n) vf_real(n, -1000000000000., 1000000000000.)
template <class D> static void got(D const& r, double a, double b, double c, const char* id) { vf_close(r.get_dlat().value(), a, 1e-9, id); vf_close(lonOf(r).value(), b, 1e-9, id); vf_close(r.get_ddist().value(), c, 1e-9, id); auto t = allOf(r); vf_close(std::get<0>(t).value(), a, 1e-9, "tuple"); vf_close(std::get<1>(t).value(), b, 1e-9, "tuple"); vf_close(std::get<2>(t).value(), c, 1e-9, "tuple"); }
template <class T> static void sph() { typedef typename T::quantity1 Q1; typedef typename T::quantity2 Q2; typedef typename T::quantity3 Q3; double a = A("a"), b = A("b"), c = L("c"), d = A("d"); T p(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); got(p, a, b, c, "constructed"); auto g = p.get_differential(); vf_close(bg::get<0>(g), a * uf<Q1>::f(), 1e-9, "point-in-radian"); vf_close(bg::get<1>(g), b * uf<Q2>::f(), 1e-9, "point-in-radian"); vf_close(bg::get<2>(g), c, 1e-9, "point-distance"); T q; setAll(q, mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); got(q, a, b, c, "set-together"); T k(p); int w = vf_pick("which", 0, 2); if (w == 0) { p.set_dlat(mk<Q1>(d)); got(p, d, b, c, "set-one"); } if (w == 1) { setLon(p, mk<Q2>(d)); got(p, a, d, c, "set-one"); } if (w == 2) { p.set_ddist(mk<Q3>(d)); got(p, a, b, d, "set-one"); } got(k, a, b, c, "copy-independent"); k = p; if (w == 1) got(k, a, d, c, "assigned"); vf_reach("end"); }
// @entry h_sph_rad reach=end
VF_HARNESS(h_sph_rad) { sph<SD<Rad, Rad, Mps>>(); }
// @entry h_sph_mix reach=end
VF_HARNESS(h_sph_mix) { sph<SD<Deg, Rad, Cmps>>(); }
// @entry h_sph_one reach=end
VF_HARNESS(h_sph_one) { sph<SD<Rad, Deg, One>>(); }
// @entry h_equ_rad reach=end
VF_HARNESS(h_equ_rad) { sph<QD<Rad, Rad, Mps>>(); }
// @entry h_equ_mix reach=end
VF_HARNESS(h_equ_mix) { sph<QD<Deg, Rad, Kmps>>(); }
// @entry h_equ_one reach=end
VF_HARNESS(h_equ_one) { sph<QD<Rad, Deg, One>>(); }
// @entry h_cos_rad reach=end
VF_HARNESS(h_cos_rad) { sph<KD<Rad, Rad, Mps>>(); }
// @entry h_cos_mix reach=end
VF_HARNESS(h_cos_mix) { sph<KD<Deg, Rad, Kmps>>(); }
// @entry h_cos_one reach=end
VF_HARNESS(h_cos_one) { sph<KD<Rad, Deg, One>>(); }
template <class R> static void cgot(R const& r, double a, double b, double c, const char* id) { vf_close(r.get_dx().value(), a, 1e-9, id); vf_close(r.get_dy().value(), b, 1e-9, id); vf_close(r.get_dz().value(), c, 1e-9, id); auto t = r.get_dx_dy_dz(); vf_close(std::get<0>(t).value(), a, 1e-9, "tuple"); vf_close(std::get<1>(t).value(), b, 1e-9, "tuple"); vf_close(std::get<2>(t).value(), c, 1e-9, "tuple"); }
template <class Q1, class Q2, class Q3> static void car() { typedef CD<Q1, Q2, Q3> T; double a = L("a"), b = L("b"), c = L("c"), d = L("d"); T p(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); cgot(p, a, b, c, "constructed"); T q; q.set_dx_dy_dz(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); cgot(q, a, b, c, "set-together"); T k(p); int w = vf_pick("which", 0, 2); if (w == 0) { p.set_dx(mk<Q1>(d)); cgot(p, d, b, c, "set-one"); } if (w == 1) { p.set_dy(mk<Q2>(d)); cgot(p, a, d, c, "set-one"); } if (w == 2) { p.set_dz(mk<Q3>(d)); cgot(p, a, b, d, "set-one"); } cgot(k, a, b, c, "copy-independent"); auto m = make_cartesian_differential(mk<Q1>(a), mk<Q2>(b), mk<Q3>(c)); cgot(m, a, b, c, "made"); auto u = make_cartesian_differential(m); cgot(u, a, b, c, "made-from-same"); vf_reach("end"); }
// @entry h_car_same reach=end
VF_HARNESS(h_car_same) { car<Mps, Mps, Mps>(); }
// @entry h_car_mix reach=end
VF_HARNESS(h_car_mix) { car<Mps, Cmps, Kmps>(); }
// @entry h_car_one reach=end
VF_HARNESS(h_car_one) { car<One, One, One>(); }
// @entry h_units reach=end
VF_HARNESS(h_units) { double a = L("a"), b = L("b"), c = L("c"); auto m = make_cartesian_differential(mk<Mps>(a), mk<Cmps>(b), mk<Kmps>(c)); auto n = make_cartesian_differential<double, Cmps, Kmps, Mps>(m); vf_close(n.get_dx().value(), a * 100, 1e-9, "metre-to-centimetre"); vf_close(n.get_dy().value() * 100000, b, 1e-9, "centimetre-to-kilometre"); vf_close(n.get_dz().value(), c * 1000, 1e-9, "kilometre-to-metre"); CD<Kmps, Mps, Cmps> o(m); vf_close(o.get_dx().value() * 1000, a, 1e-9, "constructed-metre-to-kilometre"); vf_close(o.get_dy().value() * 100, b, 1e-9, "constructed-centimetre-to-metre"); vf_close(o.get_dz().value(), c * 100000, 1e-9, "constructed-kilometre-to-centimetre"); vf_reach("end"); }
template <class N, class O, class M> static void units(M const& m, N const& n, O const& o, double a, double b, double c) { got(m, a, b, c, "made"); vf_close(n.get_dlat().value() * 180, a * PI, 1e-9, "degree-to-radian"); vf_close(lonOf(n).value() * PI, b * 180, 1e-9, "radian-to-degree"); vf_close(n.get_ddist().value(), c * 1000, 1e-9, "kilometre-to-metre"); vf_close(o.get_dlat().value() * 180, a * PI, 1e-9, "constructed-degree-to-radian"); vf_close(lonOf(o).value() * PI, b * 180, 1e-9, "constructed-radian-to-degree"); vf_close(o.get_ddist().value(), c * 100000, 1e-9, "constructed-kilometre-to-centimetre"); vf_reach("end"); }
// @entry h_sph_units reach=end
VF_HARNESS(h_sph_units) { double a = A("a"), b = A("b"), c = L("c"); auto m = make_spherical_differential(mk<Deg>(a), mk<Rad>(b), mk<Kmps>(c)); got(make_spherical_differential(m), a, b, c, "made-from-same"); units(m, make_spherical_differential<double, Rad, Deg, Mps>(m), SD<Rad, Deg, Cmps>(m), a, b, c); }
// @entry h_equ_units reach=end
VF_HARNESS(h_equ_units) { double a = A("a"), b = A("b"), c = L("c"); auto m = make_spherical_equatorial_differential(mk<Deg>(a), mk<Rad>(b), mk<Kmps>(c)); got(make_spherical_equatorial_differential(m), a, b, c, "made-from-same"); units(m, make_spherical_equatorial_differential<double, Rad, Deg, Mps>(m), QD<Rad, Deg, Cmps>(m), a, b, c); }
// @entry h_cos_units reach=end
VF_HARNESS(h_cos_units) { double a = A("a"), b = A("b"), c = L("c"); auto m = make_spherical_coslat_differential(mk<Deg>(a), mk<Rad>(b), mk<Kmps>(c)); got(make_spherical_coslat_differential(m), a, b, c, "made-from-same"); units(m, make_spherical_coslat_differential<double, Rad, Deg, Mps>(m), KD<Rad, Deg, Cmps>(m), a, b, c); }
// @entry h_equal reach=same,differ
VF_HARNESS(h_equal) { auto p = make_cartesian_differential(mk<Mps>(L("a")), mk<Mps>(L("b")), mk<Mps>(L("c"))), q = make_cartesian_differential(mk<Mps>(L("d")), mk<Mps>(L("e")), mk<Mps>(L("f"))); bool same = p.get_dx() == q.get_dx() && p.get_dy() == q.get_dy() && p.get_dz() == q.get_dz(); vf_assert((p == q) == same, "equality"); vf_assert((q == p) == same, "equality-symmetric"); if (same) vf_reach("same"); else vf_reach("differ"); }
// the documented defaults: double, radian, pure numbers
template <class T, class F1, class F2, class F3> static void dflt(F1 f1, F2 f2, F3 f3) { double a = A("a"), b = A("b"), c = L("c"); T d(mk<typename T::quantity1>(a), mk<typename T::quantity2>(b), mk<typename T::quantity3>(c)); vf_assert(sizeof(typename T::type) == sizeof(double), "default-number"); vf_close(f1(d).value(), a, 1e-9, "default"); vf_close(f2(d).value(), b, 1e-9, "default"); vf_close(f3(d).value(), c, 1e-9, "default"); auto g = d.get_differential(); vf_close(bg::get<0>(g), a, 1e-9, "default-unit"); vf_close(bg::get<1>(g), b, 1e-9, "default-unit"); vf_close(bg::get<2>(g), c, 1e-9, "default-unit"); vf_reach("end"); }
#define G(f) [](auto const& d) { return d.get_##f(); }
// @entry h_default_sph reach=end
VF_HARNESS(h_default_sph) { dflt<spherical_differential<>>(G(dlat), G(dlon), G(ddist)); }
// @entry h_default_equ reach=end
VF_HARNESS(h_default_equ) { dflt<spherical_equatorial_differential<>>(G(dlat), G(dlon), G(ddist)); }
// @entry h_default_cos reach=end
VF_HARNESS(h_default_cos) { dflt<spherical_coslat_differential<>>(G(dlat), G(dlon_coslat), G(ddist)); }
// @entry h_default_car reach=end
VF_HARNESS(h_default_car) { dflt<cartesian_differential<>>(G(dx), G(dy), G(dz)); }
