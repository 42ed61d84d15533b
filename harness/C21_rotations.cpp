// C21: the rotations between coordinate systems of the sky
// @bounds all directions (both angles exact reals in [-7,7] radian, and in degree), all observer latitudes, sidereal times and obliquities in [-7,7] radian; obliquity of the ecliptic for every day of the years 1400 to 9999
// @assume the galactic pole constants are given to seven digits: the two galactic matrices are inverse, and preserve lengths, within 1e-6
// @outside floating point rounding (encoded as exact reals) except that unit vectors may be longer than one by 1e-6
// @nostreams
// @calendar
#include "vfh.h"
#include <cmath>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
namespace ac = boost::astronomy::coordinate; namespace ub = boost::numeric::ublas;
typedef bu::quantity<bu::degree::plane_angle> Deg; typedef bu::quantity<bu::si::plane_angle> Rad; typedef ub::matrix<double> Mat;
static double deg() { return Rad(Deg::from_value(1.0)).value(); }
#define ANG(n) vf_real(n, -7, 7)
static Mat mul(Mat const& a, Mat const& b) { return ub::prod(a, b); }
static void ident(Mat const& m, const char* id) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vf_close(m(i, j), i == j ? 1 : 0, 1e-9, id); }
static void entries(Mat const& m, const double (&w)[9], const char* id) { vf_assert(m.size1() == 3 && m.size2() == 3, "size"); for (int i = 0; i < 9; i++) vf_close(m(i / 3, i % 3), w[i], 1e-9, id); }
// @entry h_vector reach=end
VF_HARNESS(h_vector) { double a = ANG("a"), b = ANG("b"); Mat m = ac::column_vector<>(Rad::from_value(a), Rad::from_value(b)).get(); vf_assert(m.size1() == 3 && m.size2() == 1, "size"); vf_close(m(0, 0), std::cos(a) * std::cos(b), 1e-9, "direction"); vf_close(m(1, 0), std::sin(a) * std::cos(b), 1e-9, "direction"); vf_close(m(2, 0), std::sin(b), 1e-9, "direction"); vf_reach("end"); }
// @entry h_vector_deg reach=end
VF_HARNESS(h_vector_deg) { double a = vf_real("a", -400, 400), b = vf_real("b", -400, 400), k = deg(); Mat m = ac::column_vector<double, Deg>(Deg::from_value(a), Deg::from_value(b)).get(); vf_close(m(0, 0), std::cos(a * k) * std::cos(b * k), 1e-9, "direction"); vf_close(m(1, 0), std::sin(a * k) * std::cos(b * k), 1e-9, "direction"); vf_close(m(2, 0), std::sin(b * k), 1e-9, "direction"); vf_reach("end"); }
// @entry h_extract reach=end
// the angles of a direction are found again
VF_HARNESS(h_extract) { double a = ANG("a"), b = ANG("b"); Mat m = ac::column_vector<>(Rad::from_value(a), Rad::from_value(b)).get(); auto c = ac::extract_coordinates(m).get_coordinates(); double u = c.first.value(), v = c.second.value(); vf_close(std::sin(v), std::sin(b), 1e-6, "height"); vf_close(std::cos(v) * std::cos(u), std::cos(b) * std::cos(a), 1e-6, "direction-again"); vf_close(std::cos(v) * std::sin(u), std::cos(b) * std::sin(a), 1e-6, "direction-again"); vf_assert(v >= -1.5708 && v <= 1.5708, "latitude-range"); vf_assert(u >= -3.1416 && u <= 3.1416, "longitude-range"); vf_reach("end"); }
// @entry h_extract_exact reach=end
// angles inside of the normal range are returned as they are
VF_HARNESS(h_extract_exact) { double a = vf_real("a", -3.14, 3.14), b = vf_real("b", -1.57, 1.57); vf_assume(std::cos(b) > 0.0001); Mat m = ac::column_vector<>(Rad::from_value(a), Rad::from_value(b)).get(); auto c = ac::extract_coordinates(m).get_coordinates(); vf_close(c.first.value(), a, 1e-9, "longitude"); vf_close(c.second.value(), b, 1e-9, "latitude"); vf_reach("end"); }
// @entry h_extract_rounded reach=end
// a third component which rounding (or the seven digit galactic matrix) made larger than one still has coordinates
VF_HARNESS(h_extract_rounded) { Mat m(3, 1); m(0, 0) = vf_real("x", -0.001, 0.001); m(1, 0) = vf_real("y", -0.001, 0.001); m(2, 0) = vf_real("z", -1.000001, 1.000001); vf_assume(m(2, 0) > 0.9999 || m(2, 0) < -0.9999); auto c = ac::extract_coordinates(m).get_coordinates(); double v = c.second.value(); vf_assert(v >= -1.5708 && v <= 1.5708, "latitude-range"); vf_assert((v > 0) == (m(2, 0) > 0), "hemisphere"); vf_reach("end"); }
template <class R> static Mat rot(double p) { return R(Rad::from_value(p)).get(); }
// @entry h_horizon reach=end
VF_HARNESS(h_horizon) { double p = ANG("p"), s = std::sin(p), c = std::cos(p); const double w[9] = {-s, 0, c, 0, -1, 0, c, 0, s}; Mat m = rot<ac::ha_dec_horizon<>>(p); entries(m, w, "matrix"); ident(mul(m, m), "inverse-of-itself"); vf_reach("end"); }
// @entry h_horizon_deg reach=end
VF_HARNESS(h_horizon_deg) { double q = vf_real("q", -400, 400), p = q * deg(), s = std::sin(p), c = std::cos(p); const double w[9] = {-s, 0, c, 0, -1, 0, c, 0, s}; entries(ac::ha_dec_horizon<double, Deg>(Deg::from_value(q)).get(), w, "matrix"); vf_reach("end"); }
// @entry h_hour_angle reach=end
VF_HARNESS(h_hour_angle) { double p = ANG("p"), s = std::sin(p), c = std::cos(p); const double w[9] = {c, s, 0, s, -c, 0, 0, 0, 1}; Mat m = rot<ac::ha_dec_ra_dec<>>(p); entries(m, w, "matrix"); ident(mul(m, m), "inverse-of-itself"); vf_reach("end"); }
// @entry h_hour_angle_deg reach=end
VF_HARNESS(h_hour_angle_deg) { double q = vf_real("q", -400, 400), p = q * deg(), s = std::sin(p), c = std::cos(p); const double w[9] = {c, s, 0, s, -c, 0, 0, 0, 1}; entries(ac::ha_dec_ra_dec<double, Deg>(Deg::from_value(q)).get(), w, "matrix"); vf_reach("end"); }
// @entry h_hour_angle_meaning reach=end
// hour angle = sidereal time - right ascension, declination unchanged
VF_HARNESS(h_hour_angle_meaning) { double st = ANG("st"), ra = ANG("ra"), dec = ANG("dec"); Mat v = ac::column_vector<>(Rad::from_value(ra), Rad::from_value(dec)).get(); Mat r = mul(rot<ac::ha_dec_ra_dec<>>(st), v); double h = st - ra; vf_close(r(0, 0), std::cos(h) * std::cos(dec), 1e-9, "hour-angle"); vf_close(r(1, 0), std::sin(h) * std::cos(dec), 1e-9, "hour-angle"); vf_close(r(2, 0), std::sin(dec), 1e-9, "declination-unchanged"); vf_reach("end"); }
// @entry h_horizon_meaning reach=end
// sin(altitude) = sin(dec) sin(latitude) + cos(dec) cos(latitude) cos(hour angle)
VF_HARNESS(h_horizon_meaning) { double p = ANG("p"), ha = ANG("ha"), dec = ANG("dec"); Mat v = ac::column_vector<>(Rad::from_value(ha), Rad::from_value(dec)).get(); Mat r = mul(rot<ac::ha_dec_horizon<>>(p), v); vf_close(r(2, 0), std::sin(dec) * std::sin(p) + std::cos(dec) * std::cos(p) * std::cos(ha), 1e-9, "altitude"); vf_close(r(1, 0), -std::sin(ha) * std::cos(dec), 1e-9, "azimuth"); vf_close(r(0, 0), std::sin(dec) * std::cos(p) - std::cos(dec) * std::sin(p) * std::cos(ha), 1e-9, "azimuth"); vf_reach("end"); }
// @entry h_ecliptic reach=end
VF_HARNESS(h_ecliptic) { double p = ANG("p"), s = std::sin(p), c = std::cos(p); const double w[9] = {1, 0, 0, 0, c, -s, 0, s, c}, b[9] = {1, 0, 0, 0, c, s, 0, -s, c}; Mat m = rot<ac::ecliptic_to_ra_dec<>>(p), n = rot<ac::ra_dec_to_ecliptic<>>(p); entries(m, w, "to-equatorial"); entries(n, b, "to-ecliptic"); ident(mul(m, n), "inverse"); ident(mul(n, m), "inverse"); vf_reach("end"); }
// @entry h_ecliptic_deg reach=end
VF_HARNESS(h_ecliptic_deg) { double q = vf_real("q", -400, 400), p = q * deg(), s = std::sin(p), c = std::cos(p); const double w[9] = {1, 0, 0, 0, c, -s, 0, s, c}, b[9] = {1, 0, 0, 0, c, s, 0, -s, c}; entries(ac::ecliptic_to_ra_dec<double, Deg>(Deg::from_value(q)).get(), w, "to-equatorial"); entries(ac::ra_dec_to_ecliptic<double, Deg>(Deg::from_value(q)).get(), b, "to-ecliptic"); vf_reach("end"); }
// @entry h_galactic reach=end
// to galactic coordinates and back is the same direction; the galactic pole is at 192.25 degree, 27.4 degree (B1950)
VF_HARNESS(h_galactic) { double a = ANG("a"), b = ANG("b"); Mat v = ac::column_vector<>(Rad::from_value(a), Rad::from_value(b)).get(); Mat g = mul(ac::ra_dec_to_galactic<>().get(), v), r = mul(ac::galactic_to_ra_dec<>().get(), g); for (int i = 0; i < 3; i++) vf_assert(r(i, 0) - v(i, 0) < 0.000001 && v(i, 0) - r(i, 0) < 0.000001, "there-and-back"); vf_reach("end"); }
// @entry h_galactic_lengths reach=end
VF_HARNESS(h_galactic_lengths) { Mat g = ac::ra_dec_to_galactic<>().get(), e = ac::galactic_to_ra_dec<>().get(); Mat p = mul(g, e), q = mul(e, g); double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double k = 0; for (int l = 0; l < 3; l++) k += g(i, l) * g(j, l); vf_assert(std::fabs(k - (i == j)) < 1e-6, "rotation"); vf_assert(std::fabs(p(i, j) - (i == j)) < 1e-6 && std::fabs(q(i, j) - (i == j)) < 1e-6, "inverse"); } d = g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)); vf_assert(std::fabs(d - 1) < 1e-6, "right-handed"); const double z = 0.017453292519943295; double pa = 192.25 * z, pd = 27.4 * z; vf_assert(std::fabs(g(2, 0) - std::cos(pd) * std::cos(pa)) < 1e-5 && std::fabs(g(2, 1) - std::cos(pd) * std::sin(pa)) < 1e-5 && std::fabs(g(2, 2) - std::sin(pd)) < 1e-5, "galactic-pole"); double ca = 265.61 * z, cd = -28.917 * z; vf_assert(std::fabs(g(0, 0) - std::cos(cd) * std::cos(ca)) < 1e-3 && std::fabs(g(0, 1) - std::cos(cd) * std::sin(ca)) < 1e-3 && std::fabs(g(0, 2) - std::sin(cd)) < 1e-3, "galactic-centre"); vf_reach("end"); }
// @entry h_obliquity reach=end
VF_HARNESS(h_obliquity) { int64_t n = vf_int("day", -219145, 2921938); boost::gregorian::date d(boost::gregorian::date(2000, 1, 1) + boost::gregorian::days((long)n)); double e = ac::obliquity_of_ecliptic(d).get().value() * 180.0 / 3.141592653589793238462643383279502884; double T = (double)n / 36525.0; double w = 23.439292 - (46.815 * T + 0.0006 * T * T - 0.00181 * T * T * T) / 3600.0; vf_close(e, w, 1e-9, "obliquity"); vf_reach("end"); }
