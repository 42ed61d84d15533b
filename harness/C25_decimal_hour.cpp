// C25: decimal hours
// @bounds decimal hours in [-100000,100000], and hours in [-1000,1000], minutes in [-1000,1000], seconds in [-100000,100000] (exact reals)
// @outside floating point rounding (encoded as exact reals); the text of operator<< (C29)
// @nostreams
#include "vfh.h"
#include <cmath>
#include <boost/astronomy/time/parser.hpp>
static double sum(decimal_hour const& d) { return (double)d.get_hours() + (double)d.get_minutes() / 60.0 + d.get_seconds() / 3600.0; }
// @entry h_value reach=end
VF_HARNESS(h_value) { double x = vf_real("x", -100000, 100000); decimal_hour d(x); vf_assert(d.get() == x, "value"); vf_close(sum(d), x, 1e-9, "parts-add-up"); vf_assert(d.get_minutes() > -60 && d.get_minutes() < 60 && d.get_seconds() > -60 && d.get_seconds() < 60, "range"); if (x >= 0) vf_assert(d.get_hours() >= 0 && d.get_minutes() >= 0 && d.get_seconds() >= 0, "not-negative"); if (x <= 0) vf_assert(d.get_hours() <= 0 && d.get_minutes() <= 0 && d.get_seconds() <= 0, "not-positive"); vf_reach("end"); }
// @entry h_parts reach=end
// hours, minutes and seconds in their ranges are returned as they were given
VF_HARNESS(h_parts) { int64_t h = vf_int("h", 0, 1000), m = vf_int("m", 0, 59); double s = vf_real("s", 0, 60); vf_assume(s < 60); decimal_hour d((double)h, (double)m, s); vf_close(d.get(), (double)h + (double)m / 60.0 + s / 3600.0, 1e-9, "value"); vf_assert(d.get_hours() == h, "hours"); vf_assert(d.get_minutes() == m, "minutes"); vf_assert(d.get_seconds() == s, "seconds"); vf_reach("end"); }
// @entry h_any_parts reach=end
VF_HARNESS(h_any_parts) { double h = vf_real("h", -1000, 1000), m = vf_real("m", -1000, 1000), s = vf_real("s", -100000, 100000); decimal_hour d(h, m, s); vf_close(d.get(), h + m / 60.0 + s / 3600.0, 1e-9, "value"); vf_close(sum(d), d.get(), 1e-9, "parts-add-up"); vf_reach("end"); }
// @entry h_both reach=end
// the two ways to make the same time agree
VF_HARNESS(h_both) { int64_t h = vf_int("h", 0, 1000), m = vf_int("m", 0, 59); double s = vf_real("s", 0, 59.999); decimal_hour d((double)h, (double)m, s); decimal_hour e((double)h + (double)m / 60.0 + s / 3600.0); vf_close(d.get(), e.get(), 1e-9, "same-value"); vf_close(sum(d), sum(e), 1e-9, "same-parts"); vf_reach("end"); }
