// C29: printing shows the components with their units
// @bounds every component an exact real: angles in [-1e5,1e5] radian or degree, lengths in [-1e12,1e12]; metre, centimetre, kilometre, pure numbers, radian and degree in equal and mixed combinations; the three representations, the five coordinates of the sky, decimal hours in [-1000,1000]; one or two objects printed one after the other into a stream with default flags
// @outside the decimal text of a number (a number in the text is compared by value, precision and flags); streams with other flags than the default ones
// @nostreams
#include "vfc.h"
#include <ostream>
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/time/parser.hpp>
extern "C" { void* vf_os_new(); bool vf_os_same(void*, void*); }
static std::ostream& os(void* p) { return *static_cast<std::ostream*>(p); }
template <class Q> struct sy; template <> struct sy<Deg> { static const char* s() { return " deg"; } }; template <> struct sy<Rad> { static const char* s() { return " rad"; } }; template <> struct sy<Met> { static const char* s() { return " m"; } }; template <> struct sy<Cm> { static const char* s() { return " cm"; } }; template <> struct sy<Km> { static const char* s() { return " km"; } }; template <> struct sy<One> { static const char* s() { return " dimensionless"; } };
static double A(const char* n) { return vf_real(n, -100000, 100000); } static double L(const char* n) { return vf_real(n, -1000000000000., 1000000000000.); }
template <class Q> static void q(std::ostream& o, Q const& v, const char* after) { double d = v.value(); o << d << sy<Q>::s() << after; }
#define REP(T, G1, G2, G3, NAME, F) template <class Q1, class Q2, class Q3> static void T##_p() { typedef T##_representation<double, Q1, Q2, Q3> R; R r(mk<Q1>(F("a")), mk<Q2>(F("b")), mk<Q3>(L("c"))), t(mk<Q1>(F("d")), mk<Q2>(F("e")), mk<Q3>(L("f"))); void *x = vf_os_new(), *y = vf_os_new(); std::ostream& z = (os(x) << r); vf_assert(&z == &os(x), "stream-returned"); int two = vf_pick("two", 0, 1); \
  std::ostream& o = os(y); o << NAME " Representation ( "; q(o, r.G1(), " , "); q(o, r.G2(), " , "); q(o, r.G3(), " )"); if (two) { z << t; o << NAME " Representation ( "; q(o, t.G1(), " , "); q(o, t.G2(), " , "); q(o, t.G3(), " )"); } vf_assert(vf_os_same(x, y), "text"); vf_reach("end"); }
REP(cartesian, get_x, get_y, get_z, "Cartesian", L) REP(spherical, get_lat, get_lon, get_dist, "Spherical", A) REP(spherical_equatorial, get_lat, get_lon, get_dist, "Spherical Equatorial", A)
// @entry h_car_same reach=end
VF_HARNESS(h_car_same) { cartesian_p<Met, Met, Met>(); }
// @entry h_car_mix reach=end
VF_HARNESS(h_car_mix) { cartesian_p<Met, Cm, Km>(); }
// @entry h_car_one reach=end
VF_HARNESS(h_car_one) { cartesian_p<One, One, One>(); }
// @entry h_sph_mix reach=end
VF_HARNESS(h_sph_mix) { spherical_p<Rad, Deg, Cm>(); }
// @entry h_sph_one reach=end
VF_HARNESS(h_sph_one) { spherical_p<Deg, Rad, One>(); }
// @entry h_equ_mix reach=end
VF_HARNESS(h_equ_mix) { spherical_equatorial_p<Deg, Rad, Km>(); }
// @entry h_equ_one reach=end
VF_HARNESS(h_equ_one) { spherical_equatorial_p<Rad, Deg, One>(); }
#define SKY(T, G1, G2, N1, N2) template <class Q1, class Q2> static void T##_p() { T##_coord<double, Q1, Q2> r(mk<Q1>(A("a")), mk<Q2>(A("b"))), t(mk<Q1>(A("d")), mk<Q2>(A("e"))); void *x = vf_os_new(), *y = vf_os_new(); std::ostream& z = (os(x) << r); vf_assert(&z == &os(x), "stream-returned"); int two = vf_pick("two", 0, 1); std::ostream& o = os(y); o << N1; q(o, r.G1(), N2); q(o, r.G2(), ")"); if (two) { z << t; o << N1; q(o, t.G1(), N2); q(o, t.G2(), ")"); } vf_assert(vf_os_same(x, y), "text"); vf_reach("end"); }
SKY(horizon, get_altitude, get_azimuth, "Horizon Coordinate (Altitude: ", ", Azimuth: ")
SKY(galactic, get_lat, get_lon, "Galactic Coordinate (Galactic Latitude: ", ", Galactic Longitude: ")
SKY(ecliptic, get_lat, get_lon, "Ecliptic Coordinate (Ecliptic Latitude: ", ", Ecliptic Longitude: ")
SKY(equatorial_ra, get_ra, get_dec, "Equatorial Coordinate (Right Ascension: ", ", Declination: ")
SKY(equatorial_ha, get_ha, get_dec, "Equatorial Coordinate (Hour Angle: ", ", Declination: ")
// @entry h_horizon_rd reach=end
VF_HARNESS(h_horizon_rd) { horizon_p<Rad, Deg>(); }
// @entry h_horizon_dr reach=end
VF_HARNESS(h_horizon_dr) { horizon_p<Deg, Rad>(); }
// @entry h_horizon_rr reach=end
VF_HARNESS(h_horizon_rr) { horizon_p<Rad, Rad>(); }
// @entry h_galactic_rd reach=end
VF_HARNESS(h_galactic_rd) { galactic_p<Rad, Deg>(); }
// @entry h_galactic_dr reach=end
VF_HARNESS(h_galactic_dr) { galactic_p<Deg, Rad>(); }
// @entry h_galactic_rr reach=end
VF_HARNESS(h_galactic_rr) { galactic_p<Rad, Rad>(); }
// @entry h_ecliptic_rd reach=end
VF_HARNESS(h_ecliptic_rd) { ecliptic_p<Rad, Deg>(); }
// @entry h_ecliptic_dr reach=end
VF_HARNESS(h_ecliptic_dr) { ecliptic_p<Deg, Rad>(); }
// @entry h_ecliptic_rr reach=end
VF_HARNESS(h_ecliptic_rr) { ecliptic_p<Rad, Rad>(); }
// @entry h_equatorial_ra_rd reach=end
VF_HARNESS(h_equatorial_ra_rd) { equatorial_ra_p<Rad, Deg>(); }
// @entry h_equatorial_ra_dr reach=end
VF_HARNESS(h_equatorial_ra_dr) { equatorial_ra_p<Deg, Rad>(); }
// @entry h_equatorial_ra_rr reach=end
VF_HARNESS(h_equatorial_ra_rr) { equatorial_ra_p<Rad, Rad>(); }
// @entry h_equatorial_ha_rd reach=end
VF_HARNESS(h_equatorial_ha_rd) { equatorial_ha_p<Rad, Deg>(); }
// @entry h_equatorial_ha_dr reach=end
VF_HARNESS(h_equatorial_ha_dr) { equatorial_ha_p<Deg, Rad>(); }
// @entry h_equatorial_ha_rr reach=end
VF_HARNESS(h_equatorial_ha_rr) { equatorial_ha_p<Rad, Rad>(); }
static void hours(decimal_hour const& d) { void *x = vf_os_new(), *y = vf_os_new(); std::ostream& z = (os(x) << d); vf_assert(&z == &os(x), "stream-returned"); std::ostream& o = os(y); double s = d.get_seconds(); o << "Hours: " << std::to_string((long)vf_concretize(d.get_hours())) << "h " << std::to_string((long)vf_concretize(d.get_minutes())) << "m " << std::to_string(s) << "s "; vf_assert(vf_os_same(x, y), "text"); vf_reach("end"); }
static const int MI[] = {0, 9, 10, 59};
// @entry h_hours reach=end
VF_HARNESS(h_hours) { decimal_hour d((double)vf_pick("h", 0, 23), (double)MI[vf_pick("m", 0, 3)], vf_real("s", 0, 59)); hours(d); }
// @entry h_hours_neg reach=end
VF_HARNESS(h_hours_neg) { decimal_hour d(-(double)vf_pick("h", 0, 23), -(double)MI[vf_pick("m", 0, 3)], -vf_real("s", 0, 59)); hours(d); }
