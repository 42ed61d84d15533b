// C20: two-angle coordinates of the sky keep what they are given
// @bounds both angles exact reals in [-1e5,1e5] radian or degree, in equal and different units; the five coordinate systems (horizon, equatorial with right ascension and with hour angle, ecliptic, galactic); construction, make function, joint and single setters in every order, copies
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfc.h"
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#define SYS(T, G1, G2, G12, MK) \
template <class Q1, class Q2> static void T##_is(T##_coord<double, Q1, Q2> const& c, double a, double b, const char* id) { vf_close(c.get_##G1().value(), a, 1e-9, id); vf_close(c.get_##G2().value(), b, 1e-9, id); auto t = c.get_##G12(); vf_close(std::get<0>(t).value(), a, 1e-9, "pair"); vf_close(std::get<1>(t).value(), b, 1e-9, "pair"); \
  Rad r1(c.get_##G1()), r2(c.get_##G2()); vf_close(bg::get<0>(c.get_point()), r1.value(), 1e-9, "point"); vf_close(bg::get<1>(c.get_point()), r2.value(), 1e-9, "point"); } \
template <class Q1, class Q2> static void T##_all() { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000), d = vf_real("d", -100000, 100000), e = vf_real("e", -100000, 100000); typedef T##_coord<double, Q1, Q2> K; \
  K c(mk<Q1>(a), mk<Q2>(b)); T##_is<Q1, Q2>(c, a, b, "constructed"); K m = MK(mk<Q1>(a), mk<Q2>(b)); T##_is<Q1, Q2>(m, a, b, "made"); K s; s.set_##G12(mk<Q1>(a), mk<Q2>(b)); T##_is<Q1, Q2>(s, a, b, "set-together"); \
  K k(c); c.set_##G1(mk<Q1>(d)); T##_is<Q1, Q2>(c, d, b, "set-first"); c.set_##G2(mk<Q2>(e)); T##_is<Q1, Q2>(c, d, e, "set-second"); T##_is<Q1, Q2>(k, a, b, "copy-independent"); \
  K w; w.set_##G2(mk<Q2>(b)); w.set_##G1(mk<Q1>(a)); T##_is<Q1, Q2>(w, a, b, "set-other-order"); k.set_##G2(mk<Q2>(e)); T##_is<Q1, Q2>(k, a, e, "set-second-only"); c = m; T##_is<Q1, Q2>(c, a, b, "assigned"); vf_reach("end"); }
SYS(horizon, altitude, azimuth, altitude_azimuth, make_horizon_coord)
SYS(galactic, lat, lon, lat_lon, make_galactic_coord)
SYS(ecliptic, lat, lon, lat_lon, make_ecliptic_coord)
SYS(equatorial_ra, ra, dec, ra_dec, make_equatorial_ra_coord)
SYS(equatorial_ha, ha, dec, ha_dec, make_equatorial_ha_coord)
// @entry h_horizon_rr reach=end
VF_HARNESS(h_horizon_rr) { horizon_all<Rad, Rad>(); }
// @entry h_horizon_dd reach=end
VF_HARNESS(h_horizon_dd) { horizon_all<Deg, Deg>(); }
// @entry h_horizon_rd reach=end
VF_HARNESS(h_horizon_rd) { horizon_all<Rad, Deg>(); }
// @entry h_horizon_dr reach=end
VF_HARNESS(h_horizon_dr) { horizon_all<Deg, Rad>(); }
// @entry h_galactic_rr reach=end
VF_HARNESS(h_galactic_rr) { galactic_all<Rad, Rad>(); }
// @entry h_galactic_dd reach=end
VF_HARNESS(h_galactic_dd) { galactic_all<Deg, Deg>(); }
// @entry h_galactic_rd reach=end
VF_HARNESS(h_galactic_rd) { galactic_all<Rad, Deg>(); }
// @entry h_galactic_dr reach=end
VF_HARNESS(h_galactic_dr) { galactic_all<Deg, Rad>(); }
// @entry h_ecliptic_rr reach=end
VF_HARNESS(h_ecliptic_rr) { ecliptic_all<Rad, Rad>(); }
// @entry h_ecliptic_dd reach=end
VF_HARNESS(h_ecliptic_dd) { ecliptic_all<Deg, Deg>(); }
// @entry h_ecliptic_rd reach=end
VF_HARNESS(h_ecliptic_rd) { ecliptic_all<Rad, Deg>(); }
// @entry h_ecliptic_dr reach=end
VF_HARNESS(h_ecliptic_dr) { ecliptic_all<Deg, Rad>(); }
// @entry h_equatorial_ra_rr reach=end
VF_HARNESS(h_equatorial_ra_rr) { equatorial_ra_all<Rad, Rad>(); }
// @entry h_equatorial_ra_dd reach=end
VF_HARNESS(h_equatorial_ra_dd) { equatorial_ra_all<Deg, Deg>(); }
// @entry h_equatorial_ra_rd reach=end
VF_HARNESS(h_equatorial_ra_rd) { equatorial_ra_all<Rad, Deg>(); }
// @entry h_equatorial_ra_dr reach=end
VF_HARNESS(h_equatorial_ra_dr) { equatorial_ra_all<Deg, Rad>(); }
// @entry h_equatorial_ha_rr reach=end
VF_HARNESS(h_equatorial_ha_rr) { equatorial_ha_all<Rad, Rad>(); }
// @entry h_equatorial_ha_dd reach=end
VF_HARNESS(h_equatorial_ha_dd) { equatorial_ha_all<Deg, Deg>(); }
// @entry h_equatorial_ha_rd reach=end
VF_HARNESS(h_equatorial_ha_rd) { equatorial_ha_all<Rad, Deg>(); }
// @entry h_equatorial_ha_dr reach=end
VF_HARNESS(h_equatorial_ha_dr) { equatorial_ha_all<Deg, Rad>(); }
// the documented defaults: double, radian
// @entry h_horizon_default reach=end
VF_HARNESS(h_horizon_default) { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000); typedef horizon_coord<> K; typedef decltype(K().get_altitude()) Q1; typedef decltype(K().get_azimuth()) Q2; K c(mk<Q1>(a), mk<Q2>(b)); vf_close(num(c.get_altitude()), a, 1e-9, "default"); vf_close(num(c.get_azimuth()), b, 1e-9, "default"); vf_close(bg::get<0>(c.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(c.get_point()), b, 1e-9, "default-radian"); horizon_coord<double, Deg> d(mk<Deg>(a), mk<Rad>(b)); vf_close(Deg(d.get_altitude()).value(), a, 1e-9, "default-second"); vf_close(Rad(d.get_azimuth()).value(), b, 1e-9, "default-second"); vf_reach("end"); }
typedef bu::quantity<bu::si::plane_angle, float> horizon_F;
// @entry h_horizon_float reach=end
VF_HARNESS(h_horizon_float) { float a = (float)vf_real("a", -100000, 100000), b = (float)vf_real("b", -100000, 100000); horizon_coord<float> c(horizon_F::from_value(a), horizon_F::from_value(b)); vf_assert(c.get_altitude().value() == a && c.get_azimuth().value() == b, "single-precision"); c.set_altitude_azimuth(horizon_F::from_value(b), horizon_F::from_value(a)); vf_assert(c.get_altitude().value() == b && c.get_azimuth().value() == a, "single-precision-set"); vf_reach("end"); }
// @entry h_galactic_default reach=end
VF_HARNESS(h_galactic_default) { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000); typedef galactic_coord<> K; typedef decltype(K().get_lat()) Q1; typedef decltype(K().get_lon()) Q2; K c(mk<Q1>(a), mk<Q2>(b)); vf_close(num(c.get_lat()), a, 1e-9, "default"); vf_close(num(c.get_lon()), b, 1e-9, "default"); vf_close(bg::get<0>(c.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(c.get_point()), b, 1e-9, "default-radian"); galactic_coord<double, Deg> d(mk<Deg>(a), mk<Rad>(b)); vf_close(Deg(d.get_lat()).value(), a, 1e-9, "default-second"); vf_close(Rad(d.get_lon()).value(), b, 1e-9, "default-second"); vf_reach("end"); }
typedef bu::quantity<bu::si::plane_angle, float> galactic_F;
// @entry h_galactic_float reach=end
VF_HARNESS(h_galactic_float) { float a = (float)vf_real("a", -100000, 100000), b = (float)vf_real("b", -100000, 100000); galactic_coord<float> c(galactic_F::from_value(a), galactic_F::from_value(b)); vf_assert(c.get_lat().value() == a && c.get_lon().value() == b, "single-precision"); c.set_lat_lon(galactic_F::from_value(b), galactic_F::from_value(a)); vf_assert(c.get_lat().value() == b && c.get_lon().value() == a, "single-precision-set"); vf_reach("end"); }
// @entry h_ecliptic_default reach=end
VF_HARNESS(h_ecliptic_default) { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000); typedef ecliptic_coord<> K; typedef decltype(K().get_lat()) Q1; typedef decltype(K().get_lon()) Q2; K c(mk<Q1>(a), mk<Q2>(b)); vf_close(num(c.get_lat()), a, 1e-9, "default"); vf_close(num(c.get_lon()), b, 1e-9, "default"); vf_close(bg::get<0>(c.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(c.get_point()), b, 1e-9, "default-radian"); ecliptic_coord<double, Deg> d(mk<Deg>(a), mk<Rad>(b)); vf_close(Deg(d.get_lat()).value(), a, 1e-9, "default-second"); vf_close(Rad(d.get_lon()).value(), b, 1e-9, "default-second"); vf_reach("end"); }
typedef bu::quantity<bu::si::plane_angle, float> ecliptic_F;
// @entry h_ecliptic_float reach=end
VF_HARNESS(h_ecliptic_float) { float a = (float)vf_real("a", -100000, 100000), b = (float)vf_real("b", -100000, 100000); ecliptic_coord<float> c(ecliptic_F::from_value(a), ecliptic_F::from_value(b)); vf_assert(c.get_lat().value() == a && c.get_lon().value() == b, "single-precision"); c.set_lat_lon(ecliptic_F::from_value(b), ecliptic_F::from_value(a)); vf_assert(c.get_lat().value() == b && c.get_lon().value() == a, "single-precision-set"); vf_reach("end"); }
// @entry h_equatorial_ra_default reach=end
VF_HARNESS(h_equatorial_ra_default) { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000); typedef equatorial_ra_coord<> K; typedef decltype(K().get_ra()) Q1; typedef decltype(K().get_dec()) Q2; K c(mk<Q1>(a), mk<Q2>(b)); vf_close(num(c.get_ra()), a, 1e-9, "default"); vf_close(num(c.get_dec()), b, 1e-9, "default"); vf_close(bg::get<0>(c.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(c.get_point()), b, 1e-9, "default-radian"); equatorial_ra_coord<double, Deg> d(mk<Deg>(a), mk<Rad>(b)); vf_close(Deg(d.get_ra()).value(), a, 1e-9, "default-second"); vf_close(Rad(d.get_dec()).value(), b, 1e-9, "default-second"); vf_reach("end"); }
typedef bu::quantity<bu::si::plane_angle, float> equatorial_ra_F;
// @entry h_equatorial_ra_float reach=end
VF_HARNESS(h_equatorial_ra_float) { float a = (float)vf_real("a", -100000, 100000), b = (float)vf_real("b", -100000, 100000); equatorial_ra_coord<float> c(equatorial_ra_F::from_value(a), equatorial_ra_F::from_value(b)); vf_assert(c.get_ra().value() == a && c.get_dec().value() == b, "single-precision"); c.set_ra_dec(equatorial_ra_F::from_value(b), equatorial_ra_F::from_value(a)); vf_assert(c.get_ra().value() == b && c.get_dec().value() == a, "single-precision-set"); vf_reach("end"); }
// @entry h_equatorial_ha_default reach=end
VF_HARNESS(h_equatorial_ha_default) { double a = vf_real("a", -100000, 100000), b = vf_real("b", -100000, 100000); typedef equatorial_ha_coord<> K; typedef decltype(K().get_ha()) Q1; typedef decltype(K().get_dec()) Q2; K c(mk<Q1>(a), mk<Q2>(b)); vf_close(num(c.get_ha()), a, 1e-9, "default"); vf_close(num(c.get_dec()), b, 1e-9, "default"); vf_close(bg::get<0>(c.get_point()), a, 1e-9, "default-radian"); vf_close(bg::get<1>(c.get_point()), b, 1e-9, "default-radian"); equatorial_ha_coord<double, Deg> d(mk<Deg>(a), mk<Rad>(b)); vf_close(Deg(d.get_ha()).value(), a, 1e-9, "default-second"); vf_close(Rad(d.get_dec()).value(), b, 1e-9, "default-second"); vf_reach("end"); }
typedef bu::quantity<bu::si::plane_angle, float> equatorial_ha_F;
// @entry h_equatorial_ha_float reach=end
VF_HARNESS(h_equatorial_ha_float) { float a = (float)vf_real("a", -100000, 100000), b = (float)vf_real("b", -100000, 100000); equatorial_ha_coord<float> c(equatorial_ha_F::from_value(a), equatorial_ha_F::from_value(b)); vf_assert(c.get_ha().value() == a && c.get_dec().value() == b, "single-precision"); c.set_ha_dec(equatorial_ha_F::from_value(b), equatorial_ha_F::from_value(a)); vf_assert(c.get_ha().value() == b && c.get_dec().value() == a, "single-precision-set"); vf_reach("end"); }
