// C26: units of length
// @bounds all lengths in [-1e12,1e12] of the unit (exact reals), all ordered pairs of the nine units
// @assume parsec and light year are defined by Boost.Units to ten digits; factors are compared with 1e-6 relative
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfh.h"
#include <cmath>
#include <boost/astronomy/units/length.hpp>
#include <boost/units/quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/cgs.hpp>
namespace au = boost::astronomy::units; namespace bq = boost::units;
#define LEN(n) vf_real(n, -1000000000000., 1000000000000.)
template <class A, class B> static void conv(double fa, double fb, const char* id) { double x = LEN("x"), y = LEN("y"); bq::quantity<A> a(x * A()); bq::quantity<B> b(a); double w = x * (fa / fb), t = 1e-6 * std::fabs(w); vf_assert(b.value() - w <= t && w - b.value() <= t, id); bq::quantity<A> c(b); double u = 1e-9 * std::fabs(x); vf_assert(c.value() - x <= u && x - c.value() <= u, "there-and-back"); bq::quantity<B> d(bq::quantity<A>(y * A())), e(bq::quantity<A>((x + y) * A())); if (vf_symbolic()) vf_close(b.value() + d.value(), e.value(), 1e-9, "linear"); else vf_assert(std::fabs(b.value() + d.value() - e.value()) <= 1e-9 * (std::fabs(b.value()) + std::fabs(d.value())), "linear"); }
static const double M = 1, CM = 0.01, AU = 149597870700.0, LS = 299792458.0, LM = 60 * LS, LH = 3600 * LS, LD = 86400 * LS, LY = 31557600.0 * LS, PC = 3.0856775814913673e16;
template <class A> static void all(double f) { conv<A, au::length_meter>(f, M, "metre"); conv<A, au::length_centimeter>(f, CM, "centimetre"); conv<A, au::length_astronomical_unit>(f, AU, "astronomical-unit"); conv<A, au::length_light_second>(f, LS, "light-second"); conv<A, au::length_light_minute>(f, LM, "light-minute"); conv<A, au::length_light_hour>(f, LH, "light-hour"); conv<A, au::length_light_day>(f, LD, "light-day"); conv<A, au::length_light_year>(f, LY, "light-year"); conv<A, au::length_parsec>(f, PC, "parsec"); vf_reach("end"); }
// @entry h_meter reach=end
VF_HARNESS(h_meter) { all<au::length_meter>(M); }
// @entry h_centimeter reach=end
VF_HARNESS(h_centimeter) { all<au::length_centimeter>(CM); }
// @entry h_astronomical_unit reach=end
VF_HARNESS(h_astronomical_unit) { all<au::length_astronomical_unit>(AU); }
// @entry h_light_second reach=end
VF_HARNESS(h_light_second) { all<au::length_light_second>(LS); }
// @entry h_light_minute reach=end
VF_HARNESS(h_light_minute) { all<au::length_light_minute>(LM); }
// @entry h_light_hour reach=end
VF_HARNESS(h_light_hour) { all<au::length_light_hour>(LH); }
// @entry h_light_day reach=end
VF_HARNESS(h_light_day) { all<au::length_light_day>(LD); }
// @entry h_light_year reach=end
VF_HARNESS(h_light_year) { all<au::length_light_year>(LY); }
// @entry h_parsec reach=end
VF_HARNESS(h_parsec) { all<au::length_parsec>(PC); }
// @entry h_constants reach=end
// the unit objects stand for one of their unit
VF_HARNESS(h_constants) { double x = LEN("x"); vf_assert((x * au::parsec).value() == x && (x * au::parsecs).value() == x && (x * au::light_year).value() == x && (x * au::light_years).value() == x && (x * au::light_day).value() == x && (x * au::light_days).value() == x && (x * au::light_hour).value() == x && (x * au::light_hours).value() == x && (x * au::light_minute).value() == x && (x * au::light_minutes).value() == x && (x * au::light_second).value() == x && (x * au::light_seconds).value() == x && (x * au::astronomical_unit).value() == x && (x * au::astronomical_units).value() == x && (x * au::meter).value() == x && (x * au::metres).value() == x && (x * au::centimeter).value() == x && (x * au::centimetres).value() == x, "value"); bq::quantity<au::length_meter> a(x * au::parsec), b(x * au::parsecs), c(x * au::light_year), d(x * au::light_years), e(x * au::light_day), f(x * au::light_days), g(x * au::light_hour), h(x * au::light_hours), i(x * au::light_minute), j(x * au::light_minutes), k(x * au::light_second), l(x * au::light_seconds), m(x * au::astronomical_unit), n(x * au::astronomical_units), o(x * au::centimetre), p(x * au::centimeters); double q[] = {a.value(), b.value(), c.value(), d.value(), e.value(), f.value(), g.value(), h.value(), i.value(), j.value(), k.value(), l.value(), m.value(), n.value(), o.value(), p.value()}; const double w[] = {PC, LY, LD, LH, LM, LS, AU, CM}; for (int z = 0; z < 16; z++) { double v = x * w[z / 2], t = 1e-6 * std::fabs(v); vf_assert(q[z] - v <= t && v - q[z] <= t, "stands-for-its-unit"); } vf_reach("end"); }
