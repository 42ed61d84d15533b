// C24: Julian date and sidereal time
// @bounds every day from 1400-01-01 to 9999-12-31, every microsecond of the day, longitudes in [-360,360] degree
// @assume Boost.DateTime's conversion of a day number to year, month and day inverts its day_number (modelled)
// @outside the days 1582-10-05 to 1582-10-14, which no calendar in use at the time had; floating point rounding (encoded as exact reals)
// @nostreams
// @calendar
#include "vfh.h"
#include <cmath>
#include <boost/astronomy/time/time_conversions.hpp>
namespace at = boost::astronomy::time; namespace bg = boost::gregorian; namespace bp = boost::posix_time;
static bp::ptime when(bg::date const& d, int64_t us) { return bp::ptime(d, bp::microseconds(us)); }
static bg::date ymd(int64_t y, int64_t m, int64_t d) { vf_assume(d <= bg::gregorian_calendar::end_of_month_day((unsigned short)y, (unsigned short)m)); return bg::date((unsigned short)y, (unsigned short)m, (unsigned short)d); }
static int64_t us() { return vf_int("microsecond", 0, 86399999999L); }
// @entry h_jd_gregorian reach=end
VF_HARNESS(h_jd_gregorian) { int64_t m = vf_pick("month", 1, 12), y = vf_int("year", 1582, 9999), d = vf_int("day", 1, 31); bg::date g = ymd(y, m, d); int64_t n = g.day_number(); vf_assume(n >= 2299161); double j = at::julian_date(when(g, us())); vf_assert(j == (double)n - 0.5, "julian-date"); vf_reach("end"); }
// @entry h_jd_julian reach=end
VF_HARNESS(h_jd_julian) { int64_t m = vf_pick("month", 1, 12), y = vf_int("year", 1400, 1582), d = vf_int("day", 1, 31); bg::date g = ymd(y, m, d); vf_assume(y < 1582 || m < 10 || (m == 10 && d <= 4)); double j = at::julian_date(when(g, us())); int64_t a = (14 - m) / 12, yy = y + 4800 - a, mm = m + 12 * a - 3; int64_t n = d + (153 * mm + 2) / 5 + 365 * yy + yy / 4 - 32083; vf_assert(j == (double)n - 0.5, "julian-date-before-1582"); vf_reach("end"); }
// @entry h_jd_change reach=end
// 4 October is followed by 15 October 1582
VF_HARNESS(h_jd_change) { int64_t u = us(); double j = at::julian_date(when(bg::date(1582, 10, 4), u)), k = at::julian_date(when(bg::date(1582, 10, 15), u)); vf_assert(j == 2299159.5 && k == 2299160.5, "calendar-change"); vf_assert(at::julian_date(when(bg::date(2000, 1, 1), u)) == 2451544.5, "J2000"); vf_reach("end"); }
static double formula(double n, int64_t u) { double T = (n - 0.5 - 2451545.0) / 36525.0; return 6.697374558 + 2400.051336 * T + 0.000025862 * T * T + (double)u / 3600000000.0 * 1.002737909; }
// g is f, brought into the range 0 to 24
static void mod24(double g, double f, const char* id) { vf_assert(g >= 0 && g < 24, "range"); double k = std::floor((f - g) / 24.0 + 0.5); vf_close(f - g, 24.0 * k, 1e-9, id); }
// @entry h_gst reach=end
VF_HARNESS(h_gst) { int64_t m = vf_pick("month", 1, 12), y = vf_int("year", 1583, 9999), d = vf_int("day", 1, 31), u = us(); bg::date g = ymd(y, m, d); decimal_hour t = at::GST(when(g, u)); mod24(t.get(), formula((double)(int64_t)g.day_number(), u), "sidereal-time"); vf_reach("end"); }
// @entry h_gst_julian reach=end
VF_HARNESS(h_gst_julian) { int64_t m = vf_pick("month", 1, 12), y = vf_int("year", 1400, 1581), d = vf_int("day", 1, 31), u = us(); bg::date g = ymd(y, m, d); decimal_hour t = at::GST(when(g, u)); mod24(t.get(), formula(at::julian_date(when(g, 0)) + 0.5, u), "sidereal-time"); vf_reach("end"); }
static void lst(double lon, at::DIRECTION w) { int64_t m = vf_pick("month", 1, 12), y = vf_int("year", 1583, 9999), d = vf_int("day", 1, 31), u = us(); bg::date g = ymd(y, m, d); bp::ptime p = when(g, u); double s = at::GST(p).get(); decimal_hour t = at::LST(lon, w, p); mod24(t.get(), s + (w == at::DIRECTION::EAST ? lon : -lon) / 15.0, "local-sidereal-time"); vf_reach("end"); }
// @entry h_lst_east reach=end
VF_HARNESS(h_lst_east) { lst(vf_real("longitude", -360, 360), at::DIRECTION::EAST); }
// @entry h_lst_west reach=end
VF_HARNESS(h_lst_west) { lst(vf_real("longitude", -360, 360), at::DIRECTION::WEST); }
// @entry h_lst_zero reach=end
VF_HARNESS(h_lst_zero) { lst(0, vf_pick("west", 0, 1) ? at::DIRECTION::WEST : at::DIRECTION::EAST); }
