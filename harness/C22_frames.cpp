// C22: reference frames keep the position, the motion and the parameters they were given
// @bounds every component an exact real: angles in [-1e5,1e5] degree or radian, distances and speeds in [-1e12,1e12] (frames made from other representations: distances in [0.01,1000], angles in [-7,7] radian); the seven frames; one set of equal and one of mixed units; construction, single and joint setters, copies, tuples; construction from each of the three representations and four differentials; observation times any microsecond within 100 years of 2000-01-01; positional angle and separation of any two points of a frame
// @assume frames made from another representation or differential: its position (motion) is not the origin (zero), and as a coslat differential is asked for, the x component of the motion is not zero
// @outside floating point rounding (encoded as exact reals); which of the frame's two angles is the polar one is the convention of the frame's representation (first angle in the xy plane, second angle from the z axis)
// @nostreams
#include "vfd.h"
#include <boost/astronomy/coordinate/sky_point.hpp>
#define A(n) vf_real(n, -100000, 100000)
#define L(n) vf_real(n, -1000000000000., 1000000000000.)
template <class... X> using SR = spherical_representation<double, X...>; template <class... X> using QR = spherical_equatorial_representation<double, X...>; template <class... X> using CR = cartesian_representation<double, X...>;
typedef SR<Deg, Rad, Km> R1; typedef KD<Rad, Deg, Cmps> D1; typedef SR<Rad, Rad, Met> R0; typedef KD<Rad, Rad, Mps> D0; typedef SR<Rad, Deg, Met> R2; typedef KD<Deg, Rad, Kmps> D2;
// one set of names for the accessors of every frame
template <class F> struct fa;
#define FRAME(F, LAT, LON, ALL, PLAT, PLON, PALL) template <class R, class D> struct fa<F<R, D>> { typedef F<R, D> T; \
  static auto lat(T const& f) { return f.get_##LAT(); } static auto lon(T const& f) { return f.get_##LON(); } static auto all(T const& f) { return f.get_##ALL(); } static auto plat(T const& f) { return f.get_##PLAT(); } static auto plon(T const& f) { return f.get_##PLON(); } static auto pall(T const& f) { return f.get_##PALL(); } \
  template <class Q> static void slat(T& f, Q q) { f.set_##LAT(q); } template <class Q> static void slon(T& f, Q q) { f.set_##LON(q); } template <class Q> static void splat(T& f, Q q) { f.set_##PLAT(q); } template <class Q> static void splon(T& f, Q q) { f.set_##PLON(q); } \
  template <class X, class Y, class Z> static void sall(T& f, X x, Y y, Z z) { f.set_##ALL(x, y, z); } template <class X, class Y, class Z> static void spall(T& f, X x, Y y, Z z) { f.set_##PALL(x, y, z); } };
FRAME(icrs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(cirs, dec, ra, dec_ra_dist, pm_dec, pm_ra_cosdec, pm_dec_ra_radial)
FRAME(geocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(heliocentric, lat, lon, lat_lon_dist, pm_lat, pm_lon_coslat, pm_lat_lon_radial)
FRAME(galactic, b, l, b_l_dist, pm_b, pm_l_cosb, pm_b_l_radial)
FRAME(supergalactic, sgb, sgl, sgb_sgl_dist, pm_sgb, pm_sgl_cossgb, pm_sgb_sgl_radial)
FRAME(alt_az, alt, az, alt_az_dist, pm_alt, pm_az_cosalt, pm_alt_az_radial)
struct P3 { double a, b, c; };
template <class F> static void where(F const& f, P3 p, const char* id) {
  typedef fa<F> X; vf_close(X::lat(f).value(), p.a, 1e-9, id); vf_close(X::lon(f).value(), p.b, 1e-9, id); vf_close(f.get_distance().value(), p.c, 1e-9, id);
  auto t = X::all(f); vf_close(std::get<0>(t).value(), p.a, 1e-9, "tuple"); vf_close(std::get<1>(t).value(), p.b, 1e-9, "tuple"); vf_close(std::get<2>(t).value(), p.c, 1e-9, "tuple");
  auto d = f.get_data(); vf_close(d.get_lat().value(), p.a, 1e-9, "data"); vf_close(d.get_lon().value(), p.b, 1e-9, "data"); vf_close(d.get_dist().value(), p.c, 1e-9, "data"); }
template <class F> static void moves(F const& f, P3 p, const char* id) {
  typedef fa<F> X; vf_close(X::plat(f).value(), p.a, 1e-9, id); vf_close(X::plon(f).value(), p.b, 1e-9, id); vf_close(f.get_radial_velocity().value(), p.c, 1e-9, id);
  auto t = X::pall(f); vf_close(std::get<0>(t).value(), p.a, 1e-9, "motion-tuple"); vf_close(std::get<1>(t).value(), p.b, 1e-9, "motion-tuple"); vf_close(std::get<2>(t).value(), p.c, 1e-9, "motion-tuple");
  auto d = f.get_differential(); vf_close(d.get_dlat().value(), p.a, 1e-9, "differential"); vf_close(d.get_dlon_coslat().value(), p.b, 1e-9, "differential"); vf_close(d.get_ddist().value(), p.c, 1e-9, "differential");
  base_frame<typename F::representation, typename F::differential> const& g = f; auto m = g.get_proper_motion(); vf_close(std::get<0>(m).value(), p.a, 1e-9, "proper-motion"); vf_close(std::get<1>(m).value(), p.b, 1e-9, "proper-motion"); vf_close(g.get_radial_velocity().value(), p.c, 1e-9, "radial-velocity"); }
template <class F> struct q6 { typedef typename F::representation R; typedef typename F::differential D; typedef typename R::quantity1 A1; typedef typename R::quantity2 A2; typedef typename R::quantity3 A3; typedef typename D::quantity1 B1; typedef typename D::quantity2 B2; typedef typename D::quantity3 B3; };
template <class F> static void kept() {
  typedef q6<F> Q; typedef fa<F> X; P3 p = {A("a"), A("b"), L("c")}, m = {A("pa"), A("pb"), L("pc")}; double e = A("e");
  F f(mk<typename Q::A1>(p.a), mk<typename Q::A2>(p.b), mk<typename Q::A3>(p.c), mk<typename Q::B1>(m.a), mk<typename Q::B2>(m.b), mk<typename Q::B3>(m.c)); where(f, p, "constructed"); moves(f, m, "constructed-motion");
  F n(mk<typename Q::A1>(p.a), mk<typename Q::A2>(p.b), mk<typename Q::A3>(p.c)); where(n, p, "constructed-position");
  F s; X::sall(s, mk<typename Q::A1>(p.a), mk<typename Q::A2>(p.b), mk<typename Q::A3>(p.c)); X::spall(s, mk<typename Q::B1>(m.a), mk<typename Q::B2>(m.b), mk<typename Q::B3>(m.c)); where(s, p, "set-together"); moves(s, m, "set-motion-together");
  F k(f), g; g = f; where(k, p, "copied"); moves(k, m, "copied-motion");
  P3 q = p, r = m; switch (vf_pick("which", 0, 5)) {
    case 0: X::slat(f, mk<typename Q::A1>(e)); q.a = e; break; case 1: X::slon(f, mk<typename Q::A2>(e)); q.b = e; break; case 2: f.set_distance(mk<typename Q::A3>(e)); q.c = e; break;
    case 3: X::splat(f, mk<typename Q::B1>(e)); r.a = e; break; case 4: X::splon(f, mk<typename Q::B2>(e)); r.b = e; break; default: f.set_radial_velocity(mk<typename Q::B3>(e)); r.c = e; }
  where(f, q, "set-one"); moves(f, r, "set-one-motion"); where(k, p, "copy-independent"); moves(k, m, "copy-independent-motion"); where(g, p, "assigned"); moves(g, m, "assigned-motion");
  g.set_differential(f.get_differential()); moves(g, r, "set-differential"); where(g, p, "set-differential-position");
  sky_point<F> u(f), w(mk<typename Q::A1>(p.a), mk<typename Q::A2>(p.b), mk<typename Q::A3>(p.c), mk<typename Q::B1>(m.a), mk<typename Q::B2>(m.b), mk<typename Q::B3>(m.c)), v(mk<typename Q::A1>(p.a), mk<typename Q::A2>(p.b), mk<typename Q::A3>(p.c)), x;
  where(u.get_point(), q, "sky-point"); moves(u.get_point(), r, "sky-point-motion"); where(w.get_point(), p, "sky-point-made"); moves(w.get_point(), m, "sky-point-made-motion"); where(v.get_point(), p, "sky-point-position"); x.set_point(f); where(x.get_point(), q, "sky-point-set"); moves(x.get_point(), r, "sky-point-set-motion");
  vf_reach("end"); }
template <class F> static V fpl(F const& f) { return ofS(base(fa<F>::lat(f)), base(fa<F>::lon(f)), base(f.get_distance())); }
template <class F> static V fmo(F const& f) { double a = base(fa<F>::plat(f)); return ofS(a, base(fa<F>::plon(f)) / std::cos(a), base(f.get_radial_velocity())); }
static double n2(V v) { return v.x * v.x + v.y * v.y + v.z * v.z; }
static double sc(V a) { return vf_symbolic() ? 0 : std::sqrt(n2(a)); }
template <class T> struct mr { static T r() { return T(mk<typename T::quantity1>(vf_real("a", -7, 7)), mk<typename T::quantity2>(vf_real("t", -7, 7)), mk<typename T::quantity3>(vf_real("r", 0.01, 1000))); } };
template <class... X> struct mr<CR<X...>> { typedef CR<X...> T; static T r() { return T(mk<typename T::quantity1>(vf_real("x", -1000, 1000)), mk<typename T::quantity2>(vf_real("y", -1000, 1000)), mk<typename T::quantity3>(vf_real("z", -1000, 1000))); } };
template <class T> struct md { static T r() { return T(mk<typename T::quantity1>(vf_real("ma", -7, 7)), mk<typename T::quantity2>(vf_real("mt", -7, 7)), mk<typename T::quantity3>(vf_real("mr", 0.01, 1000))); } };
template <class... X> struct md<CD<X...>> { typedef CD<X...> T; static T r() { return T(mk<typename T::quantity1>(vf_real("mx", -1000, 1000)), mk<typename T::quantity2>(vf_real("my", -1000, 1000)), mk<typename T::quantity3>(vf_real("mz", -1000, 1000))); } };
template <class... X> static void fine(KD<X...> const& d) { double c = std::cos(base(d.get_dlat())); vf_assume(c > 0.001 || c < -0.001); } template <class T> static void fine(T const&) {}
template <class F, class R, class D> static void from() {
  R p = mr<R>::r(); D d = md<D>::r(); fine(d); V v = pl(p), w = mo(d); vf_assume(n2(v) > 0.0001); vf_assume(n2(w) > 0.0001 && (w.x > 0.001 || w.x < -0.001));
  F f(p, d); eq(fpl(f), v, "made-from-both", sc(v)); eq(fmo(f), w, "made-from-both-motion", sc(w));
  F g(p); eq(fpl(g), v, "made-from-position", sc(v));
  sky_point<F> s(p, d); eq(fpl(s.get_point()), v, "sky-point-from-both", sc(v)); eq(fmo(s.get_point()), w, "sky-point-from-both-motion", sc(w)); vf_reach("end"); }
namespace pt = boost::posix_time;
static pt::ptime when(const char* n) { return pt::ptime(boost::gregorian::date(2000, 1, 1), pt::microseconds(vf_int(n, -3155760000000000ll, 3155760000000000ll))); }
// @entry h_icrs_same reach=end
VF_HARNESS(h_icrs_same) { kept<icrs<R0, D0>>(); }
// @entry h_icrs_mix reach=end
VF_HARNESS(h_icrs_mix) { kept<icrs<R1, D1>>(); }
// @entry h_icrs_from_spherical reach=end
VF_HARNESS(h_icrs_from_spherical) { from<icrs<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_icrs_from_equatorial reach=end
VF_HARNESS(h_icrs_from_equatorial) { from<icrs<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_icrs_from_cartesian reach=end
VF_HARNESS(h_icrs_from_cartesian) { from<icrs<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_icrs_from_coslat reach=end
VF_HARNESS(h_icrs_from_coslat) { from<icrs<R0, D0>, R2, D2>(); }
// @entry h_cirs_same reach=end
VF_HARNESS(h_cirs_same) { kept<cirs<R0, D0>>(); }
// @entry h_cirs_mix reach=end
VF_HARNESS(h_cirs_mix) { kept<cirs<R1, D1>>(); }
// @entry h_cirs_from_spherical reach=end
VF_HARNESS(h_cirs_from_spherical) { from<cirs<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_cirs_from_equatorial reach=end
VF_HARNESS(h_cirs_from_equatorial) { from<cirs<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_cirs_from_cartesian reach=end
VF_HARNESS(h_cirs_from_cartesian) { from<cirs<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_cirs_from_coslat reach=end
VF_HARNESS(h_cirs_from_coslat) { from<cirs<R0, D0>, R2, D2>(); }
// @entry h_geocentric_same reach=end
VF_HARNESS(h_geocentric_same) { kept<geocentric<R0, D0>>(); }
// @entry h_geocentric_mix reach=end
VF_HARNESS(h_geocentric_mix) { kept<geocentric<R1, D1>>(); }
// @entry h_geocentric_from_spherical reach=end
VF_HARNESS(h_geocentric_from_spherical) { from<geocentric<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_geocentric_from_equatorial reach=end
VF_HARNESS(h_geocentric_from_equatorial) { from<geocentric<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_geocentric_from_cartesian reach=end
VF_HARNESS(h_geocentric_from_cartesian) { from<geocentric<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_geocentric_from_coslat reach=end
VF_HARNESS(h_geocentric_from_coslat) { from<geocentric<R0, D0>, R2, D2>(); }
// @entry h_heliocentric_same reach=end
VF_HARNESS(h_heliocentric_same) { kept<heliocentric<R0, D0>>(); }
// @entry h_heliocentric_mix reach=end
VF_HARNESS(h_heliocentric_mix) { kept<heliocentric<R1, D1>>(); }
// @entry h_heliocentric_from_spherical reach=end
VF_HARNESS(h_heliocentric_from_spherical) { from<heliocentric<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_heliocentric_from_equatorial reach=end
VF_HARNESS(h_heliocentric_from_equatorial) { from<heliocentric<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_heliocentric_from_cartesian reach=end
VF_HARNESS(h_heliocentric_from_cartesian) { from<heliocentric<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_heliocentric_from_coslat reach=end
VF_HARNESS(h_heliocentric_from_coslat) { from<heliocentric<R0, D0>, R2, D2>(); }
// @entry h_galactic_same reach=end
VF_HARNESS(h_galactic_same) { kept<galactic<R0, D0>>(); }
// @entry h_galactic_mix reach=end
VF_HARNESS(h_galactic_mix) { kept<galactic<R1, D1>>(); }
// @entry h_galactic_from_spherical reach=end
VF_HARNESS(h_galactic_from_spherical) { from<galactic<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_galactic_from_equatorial reach=end
VF_HARNESS(h_galactic_from_equatorial) { from<galactic<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_galactic_from_cartesian reach=end
VF_HARNESS(h_galactic_from_cartesian) { from<galactic<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_galactic_from_coslat reach=end
VF_HARNESS(h_galactic_from_coslat) { from<galactic<R0, D0>, R2, D2>(); }
// @entry h_supergalactic_same reach=end
VF_HARNESS(h_supergalactic_same) { kept<supergalactic<R0, D0>>(); }
// @entry h_supergalactic_mix reach=end
VF_HARNESS(h_supergalactic_mix) { kept<supergalactic<R1, D1>>(); }
// @entry h_supergalactic_from_spherical reach=end
VF_HARNESS(h_supergalactic_from_spherical) { from<supergalactic<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_supergalactic_from_equatorial reach=end
VF_HARNESS(h_supergalactic_from_equatorial) { from<supergalactic<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_supergalactic_from_cartesian reach=end
VF_HARNESS(h_supergalactic_from_cartesian) { from<supergalactic<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_supergalactic_from_coslat reach=end
VF_HARNESS(h_supergalactic_from_coslat) { from<supergalactic<R0, D0>, R2, D2>(); }
// @entry h_alt_az_same reach=end
VF_HARNESS(h_alt_az_same) { kept<alt_az<R0, D0>>(); }
// @entry h_alt_az_mix reach=end
VF_HARNESS(h_alt_az_mix) { kept<alt_az<R1, D1>>(); }
// @entry h_alt_az_from_spherical reach=end
VF_HARNESS(h_alt_az_from_spherical) { from<alt_az<R1, D1>, SR<Rad, Deg, Met>, SD<Deg, Rad, Mps>>(); }
// @entry h_alt_az_from_equatorial reach=end
VF_HARNESS(h_alt_az_from_equatorial) { from<alt_az<R2, D2>, QR<Deg, Rad, Cm>, QD<Rad, Deg, Mps>>(); }
// @entry h_alt_az_from_cartesian reach=end
VF_HARNESS(h_alt_az_from_cartesian) { from<alt_az<R1, D1>, CR<Met, Cm, Km>, CD<Mps, Kmps, Cmps>>(); }
// @entry h_alt_az_from_coslat reach=end
VF_HARNESS(h_alt_az_from_coslat) { from<alt_az<R0, D0>, R2, D2>(); }
typedef QR<Deg, Deg, One> Loc; typedef bu::quantity<bu::si::pressure> Pa; typedef bu::quantity<bu::celsius::temperature> Ce;
struct Par { double a, b, c, p, t, h; pt::ptime w; };
template <class F> static void par(F const& f, Par const& q, const char* id) { auto l = f.get_location(); vf_close(l.get_lat().value(), q.a, 1e-9, id); vf_close(l.get_lon().value(), q.b, 1e-9, id); vf_close(l.get_dist().value(), q.c, 1e-9, id); vf_close(f.get_pressure().value(), q.p, 1e-9, id); vf_close(f.get_temprature().value(), q.t, 1e-9, id); vf_close(f.get_relative_humidity().value(), q.h, 1e-9, id); vf_assert(f.get_obs_time() == q.w, id);
  auto t = f.get_frame_parameters(); vf_close(std::get<0>(t).get_lat().value(), q.a, 1e-9, "parameters"); vf_close(std::get<0>(t).get_lon().value(), q.b, 1e-9, "parameters"); vf_close(std::get<0>(t).get_dist().value(), q.c, 1e-9, "parameters"); vf_close(std::get<1>(t).value(), q.p, 1e-9, "parameters"); vf_close(std::get<2>(t).value(), q.t, 1e-9, "parameters"); vf_assert(std::get<3>(t) == q.w, "parameters"); vf_close(std::get<4>(t).value(), q.h, 1e-9, "parameters"); }
// @entry h_alt_az_parameters reach=end
VF_HARNESS(h_alt_az_parameters) { typedef alt_az<R1, D1> F; Par q = {A("a"), A("b"), L("c"), L("p"), L("t"), L("h"), when("w")}; double e = A("e"); P3 p = {A("x"), A("y"), L("z")}, m = {A("mx"), A("my"), L("mz")};
  F f(mk<Deg>(p.a), mk<Rad>(p.b), mk<Km>(p.c), mk<Rad>(m.a), mk<Deg>(m.b), mk<Cmps>(m.c)); F z(f); vf_assert(z.get_pressure().value() == 0 && z.get_temprature().value() == 0 && z.get_relative_humidity().value() == 0, "zero-at-first");
  f.set_frame_parameters(Loc(mk<Deg>(q.a), mk<Deg>(q.b), mk<One>(q.c)), mk<Pa>(q.p), mk<Ce>(q.t), q.w, mk<One>(q.h)); par(f, q, "set-together"); F k(f), g; g = f; par(k, q, "copied"); where(k, p, "copied-position"); moves(k, m, "copied-motion"); Par r = q;
  switch (vf_pick("which", 0, 4)) { case 0: f.set_location(Loc(mk<Deg>(e), mk<Deg>(q.a), mk<One>(q.b))); r.a = e; r.b = q.a; r.c = q.b; break; case 1: f.set_pressure(mk<Pa>(e)); r.p = e; break; case 2: f.set_temprature(mk<Ce>(e)); r.t = e; break; case 3: r.w = when("w2"); f.set_obs_time(r.w); break; default: f.set_relative_humidity(mk<One>(e)); r.h = e; }
  par(f, r, "set-one"); where(f, p, "set-one-position"); moves(f, m, "set-one-motion"); par(k, q, "copy-independent"); par(g, q, "assigned"); F n; par(F(f), r, "copied-again"); n = f; par(n, r, "assigned-again"); vf_reach("end"); }
// @entry h_times reach=end
VF_HARNESS(h_times) { pt::ptime w = when("w"); P3 p = {A("x"), A("y"), L("z")}; cirs<R1, D1> c(mk<Deg>(p.a), mk<Rad>(p.b), mk<Km>(p.c)); c.set_obs_time(w); vf_assert(c.get_obs_time() == w, "observation-time"); cirs<R1, D1> k(c); vf_assert(k.get_obs_time() == w, "observation-time-copied"); where(k, p, "position");
  geocentric<R1, D1> g(mk<Deg>(p.a), mk<Rad>(p.b), mk<Km>(p.c)); g.set_equinox(w); vf_assert(g.get_equinox() == w, "equinox"); geocentric<R1, D1> h(g); vf_assert(h.get_equinox() == w, "equinox-copied"); where(h, p, "position"); heliocentric<R1, D1> i; i.set_equinox(w); vf_assert(i.get_equinox() == w, "equinox"); vf_reach("end"); }
