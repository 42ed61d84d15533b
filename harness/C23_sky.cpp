// C23: angular separation and position angle of two points of the sky
// @bounds angles in [-7,7] radian or [-420,420] degree, distances in [0.01,1000] metre or kilometre, exact reals; icrs, galactic and alt_az with equal and mixed units, the other frames with one set each
// @assume distances are positive; the position angle is asked of two different directions
// @outside floating point rounding (encoded as exact reals); which of the frame's two angles is the polar one, as far as separation goes, is the convention of the frame's representation (first angle in the xy plane, second angle from the z axis); the position angle takes the first angle for the latitude
// @nostreams
#include "vfd.h"
#include <boost/astronomy/coordinate/sky_point.hpp>
template <class... X> using SR = spherical_representation<double, X...>;
typedef KD<Rad, Rad, Mps> D0; typedef SR<Rad, Rad, Met> R0; typedef SR<Deg, Rad, Km> R1; typedef SR<Rad, Deg, Met> R2; typedef SR<Deg, Deg, Km> R3;
template <class R> static R at(const char* a, const char* b, const char* r) { return R(mk<typename R::quantity1>(vf_real(a, -vf_amp<typename R::quantity1>::m(), vf_amp<typename R::quantity1>::m())), mk<typename R::quantity2>(vf_real(b, -vf_amp<typename R::quantity2>::m(), vf_amp<typename R::quantity2>::m())), mk<typename R::quantity3>(vf_real(r, 0.01, 1000))); }
template <class F> static F fr(typename F::representation const& r) { return F(r.get_lat(), r.get_lon(), r.get_dist()); }
// |u.v| <= 1 for unit vectors, from u.v^2 + |u x v|^2 = u^2 v^2: each step is asserted before it is used
static void step(double a, double b) { vf_close(a, b, 1e-9, "lemma"); vf_assume(a == b); }
static void lagrange(V u, V v, double d) { double cx = u.y * v.z - u.z * v.y, cy = u.z * v.x - u.x * v.z, cz = u.x * v.y - u.y * v.x, U = u.x * u.x + u.y * u.y + u.z * u.z, W = v.x * v.x + v.y * v.y + v.z * v.z; step(U, 1); step(W, 1); step(d * d + (cx * cx + cy * cy + cz * cz), U * W); vf_assert(d >= -1 && d <= 1, "lemma"); vf_assume(d >= -1 && d <= 1); }
template <class F> static void sep() {
  typedef typename F::representation R; R p = at<R>("a1", "b1", "r1"), q = at<R>("a2", "b2", "r2"); V u = ofS(base(p.get_lat()), base(p.get_lon()), 1), v = ofS(base(q.get_lat()), base(q.get_lon()), 1);
  double d = u.x * v.x + u.y * v.y + u.z * v.z; if (vf_symbolic()) lagrange(u, v, d);
  F f = fr<F>(p), g = fr<F>(q); double s = f.get_angular_separation(g).value(); vf_close(std::cos(s), u.x * v.x + u.y * v.y + u.z * v.z, 1e-9, "angle-between"); vf_assert(s >= 0 && s <= 3.1415927, "range");
  sky_point<F> x(f), y(g); vf_close(x.separation(y).value(), s, 1e-9, "of-sky-points"); vf_reach("end"); }
template <class F> static void pos() {
  typedef typename F::representation R; R p = at<R>("a1", "b1", "r1"), q = at<R>("a2", "b2", "r2"); double a = base(p.get_lat()), b = base(q.get_lat()), d = base(q.get_lon()) - base(p.get_lon());
  double n = std::sin(b) * std::cos(a) - std::cos(b) * std::sin(a) * std::cos(d), e = std::sin(d) * std::cos(b), h = std::sqrt(n * n + e * e); vf_assume(h > 0.001);
  sky_point<F> x(fr<F>(p)), y(fr<F>(q)); double t = x.positional_angle(y).value(); vf_close(h * std::cos(t), n, 1e-9, "towards-the-pole"); vf_close(h * std::sin(t), e, 1e-9, "towards-the-east"); vf_assert(t >= -3.1415927 && t <= 3.1415927, "range"); vf_assert(x.is_equivalent_system(y), "same-frame"); vf_reach("end"); }
// a point and itself: the quotient under the inverse cosine may be rounded to just above one
template <class F> static void self() { typedef typename F::representation R; R p = at<R>("a", "b", "r"); F f = fr<F>(p); vf_rounding(1); double s = f.get_angular_separation(f).value(); vf_rounding(0); vf_assert(s >= 0 && s <= 3.1415927, "a-number-in-range"); if (vf_symbolic()) vf_close(std::cos(s), 1, 1e-6, "none-from-itself"); else vf_assert(std::fabs(s) <= 1e-6, "none-from-itself"); vf_reach("end"); }
// @entry h_sep_icrs_R0 reach=end
VF_HARNESS(h_sep_icrs_R0) { sep<icrs<R0, D0>>(); }
// @entry h_pos_icrs_R0 reach=end
VF_HARNESS(h_pos_icrs_R0) { pos<icrs<R0, D0>>(); }
// @entry h_self_icrs_R0 reach=end
VF_HARNESS(h_self_icrs_R0) { self<icrs<R0, D0>>(); }
// @entry h_sep_icrs_R1 reach=end
VF_HARNESS(h_sep_icrs_R1) { sep<icrs<R1, D0>>(); }
// @entry h_pos_icrs_R1 reach=end
VF_HARNESS(h_pos_icrs_R1) { pos<icrs<R1, D0>>(); }
// @entry h_self_icrs_R1 reach=end
VF_HARNESS(h_self_icrs_R1) { self<icrs<R1, D0>>(); }
// @entry h_sep_cirs_R2 reach=end
VF_HARNESS(h_sep_cirs_R2) { sep<cirs<R2, D0>>(); }
// @entry h_pos_cirs_R2 reach=end
VF_HARNESS(h_pos_cirs_R2) { pos<cirs<R2, D0>>(); }
// @entry h_self_cirs_R2 reach=end
VF_HARNESS(h_self_cirs_R2) { self<cirs<R2, D0>>(); }
// @entry h_sep_geocentric_R3 reach=end
VF_HARNESS(h_sep_geocentric_R3) { sep<geocentric<R3, D0>>(); }
// @entry h_pos_geocentric_R3 reach=end
VF_HARNESS(h_pos_geocentric_R3) { pos<geocentric<R3, D0>>(); }
// @entry h_self_geocentric_R3 reach=end
VF_HARNESS(h_self_geocentric_R3) { self<geocentric<R3, D0>>(); }
// @entry h_sep_heliocentric_R0 reach=end
VF_HARNESS(h_sep_heliocentric_R0) { sep<heliocentric<R0, D0>>(); }
// @entry h_pos_heliocentric_R0 reach=end
VF_HARNESS(h_pos_heliocentric_R0) { pos<heliocentric<R0, D0>>(); }
// @entry h_self_heliocentric_R0 reach=end
VF_HARNESS(h_self_heliocentric_R0) { self<heliocentric<R0, D0>>(); }
// @entry h_sep_galactic_R0 reach=end
VF_HARNESS(h_sep_galactic_R0) { sep<galactic<R0, D0>>(); }
// @entry h_pos_galactic_R0 reach=end
VF_HARNESS(h_pos_galactic_R0) { pos<galactic<R0, D0>>(); }
// @entry h_self_galactic_R0 reach=end
VF_HARNESS(h_self_galactic_R0) { self<galactic<R0, D0>>(); }
// @entry h_sep_galactic_R2 reach=end
VF_HARNESS(h_sep_galactic_R2) { sep<galactic<R2, D0>>(); }
// @entry h_pos_galactic_R2 reach=end
VF_HARNESS(h_pos_galactic_R2) { pos<galactic<R2, D0>>(); }
// @entry h_self_galactic_R2 reach=end
VF_HARNESS(h_self_galactic_R2) { self<galactic<R2, D0>>(); }
// @entry h_sep_supergalactic_R1 reach=end
VF_HARNESS(h_sep_supergalactic_R1) { sep<supergalactic<R1, D0>>(); }
// @entry h_pos_supergalactic_R1 reach=end
VF_HARNESS(h_pos_supergalactic_R1) { pos<supergalactic<R1, D0>>(); }
// @entry h_self_supergalactic_R1 reach=end
VF_HARNESS(h_self_supergalactic_R1) { self<supergalactic<R1, D0>>(); }
// @entry h_sep_alt_az_R0 reach=end
VF_HARNESS(h_sep_alt_az_R0) { sep<alt_az<R0, D0>>(); }
// @entry h_pos_alt_az_R0 reach=end
VF_HARNESS(h_pos_alt_az_R0) { pos<alt_az<R0, D0>>(); }
// @entry h_self_alt_az_R0 reach=end
VF_HARNESS(h_self_alt_az_R0) { self<alt_az<R0, D0>>(); }
// @entry h_sep_alt_az_R3 reach=end
VF_HARNESS(h_sep_alt_az_R3) { sep<alt_az<R3, D0>>(); }
// @entry h_pos_alt_az_R3 reach=end
VF_HARNESS(h_pos_alt_az_R3) { pos<alt_az<R3, D0>>(); }
// @entry h_self_alt_az_R3 reach=end
VF_HARNESS(h_self_alt_az_R3) { self<alt_az<R3, D0>>(); }
// @entry h_frames reach=end
VF_HARNESS(h_frames) { sky_point<icrs<R0, D0>> i(icrs<R0, D0>(at<R0>("a", "b", "r"))); sky_point<galactic<R0, D0>> g(galactic<R0, D0>(at<R0>("c", "d", "s"))); sky_point<icrs<R1, D0>> k(icrs<R1, D0>(at<R1>("e", "f", "t"))); vf_assert(!i.is_equivalent_system(g) && !g.is_equivalent_system(i) && i.is_equivalent_system(i), "different-frames"); vf_reach("end"); }
