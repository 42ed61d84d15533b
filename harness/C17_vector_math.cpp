// C17: vector arithmetic on positions
// @bounds all components exact reals: Cartesian components in [-1000,1000] in equal or mixed units, spherical angles in [-7,7] radian or [-420,420] degree and distances in [0.01,1000] (metre, centimetre, kilometre); every combination of the three representations as first and second operand
// @assume distances of spherical operands are positive, unit vectors and spherical results are asked of vectors that are not zero
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfc.h"
typedef spherical_representation<double, Rad, Rad, Met> S; typedef spherical_equatorial_representation<double, Rad, Rad, Met> Q; typedef cartesian_representation<double, Met, Met, Met> C; typedef cartesian_representation<double, Met, Cm, Km> M;
#define L(n) vf_real(n, -1000, 1000)
template <class T> struct mkr;
template <> struct mkr<C> { static C a() { return C(mk<Met>(vf_real("ax", -1000, 1000)), mk<Met>(vf_real("ay", -1000, 1000)), mk<Met>(vf_real("az", -1000, 1000))); } static C b() { return C(mk<Met>(vf_real("bx", -1000, 1000)), mk<Met>(vf_real("by", -1000, 1000)), mk<Met>(vf_real("bz", -1000, 1000))); } };
template <> struct mkr<M> { static M a() { return M(mk<Met>(vf_real("ax", -1000, 1000)), mk<Cm>(vf_real("ay", -1000, 1000)), mk<Km>(vf_real("az", -1000, 1000))); } static M b() { return M(mk<Met>(vf_real("bx", -1000, 1000)), mk<Cm>(vf_real("by", -1000, 1000)), mk<Km>(vf_real("bz", -1000, 1000))); } };
template <class T> struct mks { static T a() { return T(mk<Rad>(vf_real("aa", -7, 7)), mk<Rad>(vf_real("at", -7, 7)), mk<Met>(vf_real("ar", 0.01, 1000))); } static T b() { return T(mk<Rad>(vf_real("ba", -7, 7)), mk<Rad>(vf_real("bt", -7, 7)), mk<Met>(vf_real("br", 0.01, 1000))); } };
typedef spherical_representation<double, Deg, Rad, Met> X; typedef spherical_equatorial_representation<double, Rad, Deg, Met> Y; typedef spherical_equatorial_representation<double, Deg, Deg, Km> W; typedef spherical_representation<double, Rad, Rad, Cm> U;
template <class T> struct mku { typedef typename T::quantity1 P; typedef typename T::quantity2 R; typedef typename T::quantity3 D; static T one(const char* a, const char* t, const char* r) { return T(mk<P>(vf_real(a, -vf_amp<P>::m(), vf_amp<P>::m())), mk<R>(vf_real(t, -vf_amp<R>::m(), vf_amp<R>::m())), mk<D>(vf_real(r, 0.01, 1000))); } static T a() { return one("aa", "at", "ar"); } static T b() { return one("ba", "bt", "br"); } };
template <> struct mkr<X> : mku<X> {}; template <> struct mkr<Y> : mku<Y> {}; template <> struct mkr<W> : mku<W> {}; template <> struct mkr<U> : mku<U> {};
template <class T> struct fl { static double k() { return 1; } }; template <> struct fl<U> { static double k() { return uf<Cm>::f(); } }; template <> struct fl<W> { static double k() { return uf<Km>::f(); } };
template <> struct mkr<S> : mks<S> {}; template <> struct mkr<Q> : mks<Q> {};
static double sc(V a, V b) { return vf_symbolic() ? 0 : (1 + std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z)) * (1 + std::sqrt(b.x * b.x + b.y * b.y + b.z * b.z)); }
// A value in the metre based unit of its own dimension
template <class R> static void three(R const& r, double x, double y, double z, const char* id, double scale) { nearly(bu::quantity<bu::si::area>(r.get_x()).value(), x, scale, id); nearly(bu::quantity<bu::si::area>(r.get_y()).value(), y, scale, id); nearly(bu::quantity<bu::si::area>(r.get_z()).value(), z, scale, id); }
template <class A, class B> static void dots() { vf_tol = 1e-9; A p = mkr<A>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); nearly(bu::quantity<bu::si::area>(dot(p, q)).value(), a.x * b.x + a.y * b.y + a.z * b.z, sc(a, b), "dot"); vf_reach("end"); }
template <class B> static void cross_c() { vf_tol = 1e-9; C p = mkr<C>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); three(cross(p, q), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross", sc(a, b)); vf_reach("end"); }
template <class T, class... Z> static V plx(spherical_representation<T, Z...> const& r) { return ofS(base(r.get_lat()), base(r.get_lon()), bu::quantity<bu::si::area>(r.get_dist()).value()); } template <class T, class... Z> static V plx(spherical_equatorial_representation<T, Z...> const& r) { return ofQ(base(r.get_lat()), base(r.get_lon()), bu::quantity<bu::si::area>(r.get_dist()).value()); }
template <class A, class B> static void cross_m() { A p = mkr<A>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); three(cross(p, q), a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x, "cross", sc(a, b)); vf_reach("end"); }
template <class A, class B> static void cross_s() { A p = mkr<A>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); V w = {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; vf_assume(w.x * w.x + w.y * w.y + w.z * w.z > 0.0001); auto r = cross(p, q); vf_assert(std::is_same<typename decltype(r)::quantity1, typename A::quantity1>::value && std::is_same<typename decltype(r)::quantity2, typename A::quantity2>::value, "cross-type"); eq(plx(r), w, "cross", sc(a, b)); vf_reach("end"); }
template <class A, class B> static void sums() { if (vf_isC<A>::v) vf_tol = 1e-9; A p = mkr<A>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); V w = {a.x + b.x, a.y + b.y, a.z + b.z}; vf_assume(w.x * w.x + w.y * w.y + w.z * w.z > 0.0001); auto s1 = sum(p, q); auto s2 = p + q; vf_assert(std::is_same<decltype(s1), A>::value && std::is_same<decltype(s2), A>::value, "sum-type"); eq(pl(s1), w, "sum", sc(a, b)); eq(pl(s2), w, "operator-plus", sc(a, b)); vf_reach("end"); }
template <class A, class B> static void means() { if (vf_isC<A>::v) vf_tol = 1e-9; A p = mkr<A>::a(); B q = mkr<B>::b(); V a = pl(p), b = pl(q); V w = {(a.x + b.x) / 2, (a.y + b.y) / 2, (a.z + b.z) / 2}; vf_assume(w.x * w.x + w.y * w.y + w.z * w.z > 0.0001); auto m = mean(p, q); vf_assert(std::is_same<decltype(m), A>::value, "mean-type"); eq(pl(m), w, "mean", sc(a, b)); vf_reach("end"); }
template <class A> static void mags() { A p = mkr<A>::a(); V a = pl(p); double m = base(Met(magnitude(p))); vf_assert(m >= 0, "magnitude-sign"); vf_close(m * m, a.x * a.x + a.y * a.y + a.z * a.z, 1e-9, "magnitude"); vf_reach("end"); }
template <class A> static void unit() { if (vf_isC<A>::v) vf_tol = 1e-9; A p = mkr<A>::a(); V a = pl(p); double m = base(Met(magnitude(p))); vf_assume(m > 0.01); auto uv = unit_vector(p); vf_assert(std::is_same<decltype(uv), A>::value, "unit-type"); V u = pl(uv); double sm = vf_symbolic() ? 0 : m; double k = fl<A>::k(); nearly(u.x * m, a.x * k, sm, "unit-direction"); nearly(u.y * m, a.y * k, sm, "unit-direction"); nearly(u.z * m, a.z * k, sm, "unit-direction"); vf_reach("end"); }
// @entry h_dot_CC reach=end
VF_HARNESS(h_dot_CC) { dots<C, C>(); }
// @entry h_sum_CC reach=end
VF_HARNESS(h_sum_CC) { sums<C, C>(); }
// @entry h_mean_CC reach=end
VF_HARNESS(h_mean_CC) { means<C, C>(); }
// @entry h_dot_CM reach=end
VF_HARNESS(h_dot_CM) { dots<C, M>(); }
// @entry h_sum_CM reach=end
VF_HARNESS(h_sum_CM) { sums<C, M>(); }
// @entry h_mean_CM reach=end
VF_HARNESS(h_mean_CM) { means<C, M>(); }
// @entry h_dot_CS reach=end
VF_HARNESS(h_dot_CS) { dots<C, S>(); }
// @entry h_sum_CS reach=end
VF_HARNESS(h_sum_CS) { sums<C, S>(); }
// @entry h_mean_CS reach=end
VF_HARNESS(h_mean_CS) { means<C, S>(); }
// @entry h_dot_CQ reach=end
VF_HARNESS(h_dot_CQ) { dots<C, Q>(); }
// @entry h_sum_CQ reach=end
VF_HARNESS(h_sum_CQ) { sums<C, Q>(); }
// @entry h_mean_CQ reach=end
VF_HARNESS(h_mean_CQ) { means<C, Q>(); }
// @entry h_dot_MC reach=end
VF_HARNESS(h_dot_MC) { dots<M, C>(); }
// @entry h_sum_MC reach=end
VF_HARNESS(h_sum_MC) { sums<M, C>(); }
// @entry h_mean_MC reach=end
VF_HARNESS(h_mean_MC) { means<M, C>(); }
// @entry h_dot_MM reach=end
VF_HARNESS(h_dot_MM) { dots<M, M>(); }
// @entry h_sum_MM reach=end
VF_HARNESS(h_sum_MM) { sums<M, M>(); }
// @entry h_mean_MM reach=end
VF_HARNESS(h_mean_MM) { means<M, M>(); }
// @entry h_dot_MS reach=end
VF_HARNESS(h_dot_MS) { dots<M, S>(); }
// @entry h_sum_MS reach=end
VF_HARNESS(h_sum_MS) { sums<M, S>(); }
// @entry h_dot_MQ reach=end
VF_HARNESS(h_dot_MQ) { dots<M, Q>(); }
// @entry h_sum_MQ reach=end
VF_HARNESS(h_sum_MQ) { sums<M, Q>(); }
// @entry h_dot_SC reach=end
VF_HARNESS(h_dot_SC) { dots<S, C>(); }
// @entry h_sum_SC reach=end
VF_HARNESS(h_sum_SC) { sums<S, C>(); }
// @entry h_mean_SC reach=end
VF_HARNESS(h_mean_SC) { means<S, C>(); }
// @entry h_dot_SM reach=end
VF_HARNESS(h_dot_SM) { dots<S, M>(); }
// @entry h_sum_SM reach=end
VF_HARNESS(h_sum_SM) { sums<S, M>(); }
// @entry h_dot_SS reach=end
VF_HARNESS(h_dot_SS) { dots<S, S>(); }
// @entry h_sum_SS reach=end
VF_HARNESS(h_sum_SS) { sums<S, S>(); }
// @entry h_mean_SS reach=end
VF_HARNESS(h_mean_SS) { means<S, S>(); }
// @entry h_dot_SQ reach=end
VF_HARNESS(h_dot_SQ) { dots<S, Q>(); }
// @entry h_sum_SQ reach=end
VF_HARNESS(h_sum_SQ) { sums<S, Q>(); }
// @entry h_dot_QC reach=end
VF_HARNESS(h_dot_QC) { dots<Q, C>(); }
// @entry h_sum_QC reach=end
VF_HARNESS(h_sum_QC) { sums<Q, C>(); }
// @entry h_mean_QC reach=end
VF_HARNESS(h_mean_QC) { means<Q, C>(); }
// @entry h_dot_QM reach=end
VF_HARNESS(h_dot_QM) { dots<Q, M>(); }
// @entry h_sum_QM reach=end
VF_HARNESS(h_sum_QM) { sums<Q, M>(); }
// @entry h_dot_QS reach=end
VF_HARNESS(h_dot_QS) { dots<Q, S>(); }
// @entry h_sum_QS reach=end
VF_HARNESS(h_sum_QS) { sums<Q, S>(); }
// @entry h_dot_QQ reach=end
VF_HARNESS(h_dot_QQ) { dots<Q, Q>(); }
// @entry h_sum_QQ reach=end
VF_HARNESS(h_sum_QQ) { sums<Q, Q>(); }
// @entry h_mean_QQ reach=end
VF_HARNESS(h_mean_QQ) { means<Q, Q>(); }
// @entry h_cross_CC reach=end
VF_HARNESS(h_cross_CC) { cross_c<C>(); }
// @entry h_cross_CM reach=end
VF_HARNESS(h_cross_CM) { cross_c<M>(); }
// @entry h_cross_CS reach=end
VF_HARNESS(h_cross_CS) { cross_c<S>(); }
// @entry h_cross_CQ reach=end
VF_HARNESS(h_cross_CQ) { cross_c<Q>(); }
// @entry h_cross_SC reach=end
VF_HARNESS(h_cross_SC) { cross_s<S, C>(); }
// @entry h_cross_SM reach=end
VF_HARNESS(h_cross_SM) { cross_s<S, M>(); }
// @entry h_cross_SS reach=end
VF_HARNESS(h_cross_SS) { cross_s<S, S>(); }
// @entry h_cross_SQ reach=end
VF_HARNESS(h_cross_SQ) { cross_s<S, Q>(); }
// @entry h_cross_QC reach=end
VF_HARNESS(h_cross_QC) { cross_s<Q, C>(); }
// @entry h_cross_QM reach=end
VF_HARNESS(h_cross_QM) { cross_s<Q, M>(); }
// @entry h_cross_QS reach=end
VF_HARNESS(h_cross_QS) { cross_s<Q, S>(); }
// @entry h_cross_QQ reach=end
VF_HARNESS(h_cross_QQ) { cross_s<Q, Q>(); }
// @entry h_mag_C reach=end
VF_HARNESS(h_mag_C) { mags<C>(); }
// @entry h_unit_C reach=end
VF_HARNESS(h_unit_C) { unit<C>(); }
// @entry h_mag_M reach=end
VF_HARNESS(h_mag_M) { mags<M>(); }
// @entry h_unit_M reach=end
VF_HARNESS(h_unit_M) { unit<M>(); }
// @entry h_mag_S reach=end
VF_HARNESS(h_mag_S) { mags<S>(); }
// @entry h_unit_S reach=end
VF_HARNESS(h_unit_S) { unit<S>(); }
// @entry h_mag_Q reach=end
VF_HARNESS(h_mag_Q) { mags<Q>(); }
// @entry h_unit_Q reach=end
VF_HARNESS(h_unit_Q) { unit<Q>(); }
// @entry h_dot_XC reach=end
VF_HARNESS(h_dot_XC) { dots<X, C>(); }
// @entry h_sum_XC reach=end
VF_HARNESS(h_sum_XC) { sums<X, C>(); }
// @entry h_mean_XC reach=end
VF_HARNESS(h_mean_XC) { means<X, C>(); }
// @entry h_dot_CX reach=end
VF_HARNESS(h_dot_CX) { dots<C, X>(); }
// @entry h_sum_CX reach=end
VF_HARNESS(h_sum_CX) { sums<C, X>(); }
// @entry h_mean_CX reach=end
VF_HARNESS(h_mean_CX) { means<C, X>(); }
// @entry h_dot_XX reach=end
VF_HARNESS(h_dot_XX) { dots<X, X>(); }
// @entry h_sum_XX reach=end
VF_HARNESS(h_sum_XX) { sums<X, X>(); }
// @entry h_mean_XX reach=end
VF_HARNESS(h_mean_XX) { means<X, X>(); }
// @entry h_dot_XY reach=end
VF_HARNESS(h_dot_XY) { dots<X, Y>(); }
// @entry h_sum_XY reach=end
VF_HARNESS(h_sum_XY) { sums<X, Y>(); }
// @entry h_mean_XY reach=end
VF_HARNESS(h_mean_XY) { means<X, Y>(); }
// @entry h_dot_YX reach=end
VF_HARNESS(h_dot_YX) { dots<Y, X>(); }
// @entry h_sum_YX reach=end
VF_HARNESS(h_sum_YX) { sums<Y, X>(); }
// @entry h_mean_YX reach=end
VF_HARNESS(h_mean_YX) { means<Y, X>(); }
// @entry h_dot_YY reach=end
VF_HARNESS(h_dot_YY) { dots<Y, Y>(); }
// @entry h_sum_YY reach=end
VF_HARNESS(h_sum_YY) { sums<Y, Y>(); }
// @entry h_mean_YY reach=end
VF_HARNESS(h_mean_YY) { means<Y, Y>(); }
// @entry h_dot_XM reach=end
VF_HARNESS(h_dot_XM) { dots<X, M>(); }
// @entry h_sum_XM reach=end
VF_HARNESS(h_sum_XM) { sums<X, M>(); }
// @entry h_mean_XM reach=end
VF_HARNESS(h_mean_XM) { means<X, M>(); }
// @entry h_dot_MX reach=end
VF_HARNESS(h_dot_MX) { dots<M, X>(); }
// @entry h_sum_MX reach=end
VF_HARNESS(h_sum_MX) { sums<M, X>(); }
// @entry h_mean_MX reach=end
VF_HARNESS(h_mean_MX) { means<M, X>(); }
// @entry h_dot_MY reach=end
VF_HARNESS(h_dot_MY) { dots<M, Y>(); }
// @entry h_sum_MY reach=end
VF_HARNESS(h_sum_MY) { sums<M, Y>(); }
// @entry h_mean_MY reach=end
VF_HARNESS(h_mean_MY) { means<M, Y>(); }
// @entry h_dot_YM reach=end
VF_HARNESS(h_dot_YM) { dots<Y, M>(); }
// @entry h_sum_YM reach=end
VF_HARNESS(h_sum_YM) { sums<Y, M>(); }
// @entry h_mean_YM reach=end
VF_HARNESS(h_mean_YM) { means<Y, M>(); }
// @entry h_dot_SY reach=end
VF_HARNESS(h_dot_SY) { dots<S, Y>(); }
// @entry h_sum_SY reach=end
VF_HARNESS(h_sum_SY) { sums<S, Y>(); }
// @entry h_mean_SY reach=end
VF_HARNESS(h_mean_SY) { means<S, Y>(); }
// @entry h_dot_YS reach=end
VF_HARNESS(h_dot_YS) { dots<Y, S>(); }
// @entry h_sum_YS reach=end
VF_HARNESS(h_sum_YS) { sums<Y, S>(); }
// @entry h_mean_YS reach=end
VF_HARNESS(h_mean_YS) { means<Y, S>(); }
// @entry h_dot_QX reach=end
VF_HARNESS(h_dot_QX) { dots<Q, X>(); }
// @entry h_sum_QX reach=end
VF_HARNESS(h_sum_QX) { sums<Q, X>(); }
// @entry h_mean_QX reach=end
VF_HARNESS(h_mean_QX) { means<Q, X>(); }
// @entry h_dot_XQ reach=end
VF_HARNESS(h_dot_XQ) { dots<X, Q>(); }
// @entry h_sum_XQ reach=end
VF_HARNESS(h_sum_XQ) { sums<X, Q>(); }
// @entry h_mean_XQ reach=end
VF_HARNESS(h_mean_XQ) { means<X, Q>(); }
// @entry h_dot_WM reach=end
VF_HARNESS(h_dot_WM) { dots<W, M>(); }
// @entry h_sum_WM reach=end
VF_HARNESS(h_sum_WM) { sums<W, M>(); }
// @entry h_mean_WM reach=end
VF_HARNESS(h_mean_WM) { means<W, M>(); }
// @entry h_dot_MW reach=end
VF_HARNESS(h_dot_MW) { dots<M, W>(); }
// @entry h_sum_MW reach=end
VF_HARNESS(h_sum_MW) { sums<M, W>(); }
// @entry h_mean_MW reach=end
VF_HARNESS(h_mean_MW) { means<M, W>(); }
// @entry h_dot_CW reach=end
VF_HARNESS(h_dot_CW) { dots<C, W>(); }
// @entry h_sum_CW reach=end
VF_HARNESS(h_sum_CW) { sums<C, W>(); }
// @entry h_mean_CW reach=end
VF_HARNESS(h_mean_CW) { means<C, W>(); }
// @entry h_dot_WC reach=end
VF_HARNESS(h_dot_WC) { dots<W, C>(); }
// @entry h_sum_WC reach=end
VF_HARNESS(h_sum_WC) { sums<W, C>(); }
// @entry h_mean_WC reach=end
VF_HARNESS(h_mean_WC) { means<W, C>(); }
// @entry h_dot_WW reach=end
VF_HARNESS(h_dot_WW) { dots<W, W>(); }
// @entry h_sum_WW reach=end
VF_HARNESS(h_sum_WW) { sums<W, W>(); }
// @entry h_mean_WW reach=end
VF_HARNESS(h_mean_WW) { means<W, W>(); }
// @entry h_dot_UM reach=end
VF_HARNESS(h_dot_UM) { dots<U, M>(); }
// @entry h_dot_MU reach=end
VF_HARNESS(h_dot_MU) { dots<M, U>(); }
// @entry h_sum_MU reach=end
VF_HARNESS(h_sum_MU) { sums<M, U>(); }
// @entry h_mean_MU reach=end
VF_HARNESS(h_mean_MU) { means<M, U>(); }
// @entry h_dot_UC reach=end
VF_HARNESS(h_dot_UC) { dots<U, C>(); }
// @entry h_sum_UC reach=end
VF_HARNESS(h_sum_UC) { sums<U, C>(); }
// @entry h_mean_UC reach=end
VF_HARNESS(h_mean_UC) { means<U, C>(); }
// @entry h_dot_CU reach=end
VF_HARNESS(h_dot_CU) { dots<C, U>(); }
// @entry h_sum_CU reach=end
VF_HARNESS(h_sum_CU) { sums<C, U>(); }
// @entry h_mean_CU reach=end
VF_HARNESS(h_mean_CU) { means<C, U>(); }
// @entry h_dot_UU reach=end
VF_HARNESS(h_dot_UU) { dots<U, U>(); }
// @entry h_dot_WX reach=end
VF_HARNESS(h_dot_WX) { dots<W, X>(); }
// @entry h_dot_XW reach=end
VF_HARNESS(h_dot_XW) { dots<X, W>(); }
// @entry h_dot_SW reach=end
VF_HARNESS(h_dot_SW) { dots<S, W>(); }
// @entry h_dot_UW reach=end
VF_HARNESS(h_dot_UW) { dots<U, W>(); }
// @entry h_dot_WU reach=end
VF_HARNESS(h_dot_WU) { dots<W, U>(); }
// @entry h_dot_UQ reach=end
VF_HARNESS(h_dot_UQ) { dots<U, Q>(); }
// @entry h_cross_XC reach=end
VF_HARNESS(h_cross_XC) { cross_s<X, C>(); }
// @entry h_cross_CX reach=end
VF_HARNESS(h_cross_CX) { cross_m<C, X>(); }
// @entry h_cross_XX reach=end
VF_HARNESS(h_cross_XX) { cross_s<X, X>(); }
// @entry h_cross_XY reach=end
VF_HARNESS(h_cross_XY) { cross_s<X, Y>(); }
// @entry h_cross_YX reach=end
VF_HARNESS(h_cross_YX) { cross_s<Y, X>(); }
// @entry h_cross_YM reach=end
VF_HARNESS(h_cross_YM) { cross_s<Y, M>(); }
// @entry h_cross_MX reach=end
VF_HARNESS(h_cross_MX) { cross_m<M, X>(); }
// @entry h_cross_MY reach=end
VF_HARNESS(h_cross_MY) { cross_m<M, Y>(); }
// @entry h_cross_MW reach=end
VF_HARNESS(h_cross_MW) { cross_m<M, W>(); }
// @entry h_cross_MM reach=end
VF_HARNESS(h_cross_MM) { cross_m<M, M>(); }
// @entry h_cross_MC reach=end
VF_HARNESS(h_cross_MC) { cross_m<M, C>(); }
// @entry h_cross_MS reach=end
VF_HARNESS(h_cross_MS) { cross_m<M, S>(); }
// @entry h_cross_MQ reach=end
VF_HARNESS(h_cross_MQ) { cross_m<M, Q>(); }
// @entry h_cross_WC reach=end
VF_HARNESS(h_cross_WC) { cross_s<W, C>(); }
// @entry h_cross_CW reach=end
VF_HARNESS(h_cross_CW) { cross_m<C, W>(); }
// @entry h_cross_WW reach=end
VF_HARNESS(h_cross_WW) { cross_s<W, W>(); }
// @entry h_cross_UC reach=end
VF_HARNESS(h_cross_UC) { cross_s<U, C>(); }
// @entry h_cross_CU reach=end
VF_HARNESS(h_cross_CU) { cross_m<C, U>(); }
// @entry h_cross_WX reach=end
VF_HARNESS(h_cross_WX) { cross_s<W, X>(); }
// @entry h_cross_XW reach=end
VF_HARNESS(h_cross_XW) { cross_s<X, W>(); }
// @entry h_cross_SW reach=end
VF_HARNESS(h_cross_SW) { cross_s<S, W>(); }
// @entry h_cross_UW reach=end
VF_HARNESS(h_cross_UW) { cross_s<U, W>(); }
// @entry h_cross_WU reach=end
VF_HARNESS(h_cross_WU) { cross_s<W, U>(); }
// @entry h_mag_X reach=end
VF_HARNESS(h_mag_X) { mags<X>(); }
// @entry h_unit_X reach=end
VF_HARNESS(h_unit_X) { unit<X>(); }
// @entry h_mag_Y reach=end
VF_HARNESS(h_mag_Y) { mags<Y>(); }
// @entry h_unit_Y reach=end
VF_HARNESS(h_unit_Y) { unit<Y>(); }
// @entry h_mag_W reach=end
VF_HARNESS(h_mag_W) { mags<W>(); }
// @entry h_unit_W reach=end
VF_HARNESS(h_unit_W) { unit<W>(); }
// @entry h_mag_U reach=end
VF_HARNESS(h_mag_U) { mags<U>(); }
// @entry h_unit_U reach=end
VF_HARNESS(h_unit_U) { unit<U>(); }
// operands of different precision: results in double keep the precision of double
static void n9(double a, double b, double s, const char* id) { if (vf_symbolic()) vf_close(a, b, 1e-9, id); else vf_assert(std::fabs(a - b) <= 1e-9 * (1 + s + std::fabs(b)), id); } static void e9(V a, V b, const char* id, double s) { n9(a.x, b.x, s, id); n9(a.y, b.y, s, id); n9(a.z, b.z, s, id); }
typedef bu::quantity<bu::si::length, float> FM; typedef cartesian_representation<float, FM, FM, FM> CF;
static CF cf() { return CF(FM::from_value((float)vf_real("fx", -1000, 1000)), FM::from_value((float)vf_real("fy", -1000, 1000)), FM::from_value((float)vf_real("fz", -1000, 1000))); } static V plf(CF const& r) { return {(double)r.get_x().value(), (double)r.get_y().value(), (double)r.get_z().value()}; }
// @entry h_dot_mixed reach=end
VF_HARNESS(h_dot_mixed) { C p = mkr<C>::a(); CF q = cf(); V a = pl(p), b = plf(q); double w = a.x * b.x + a.y * b.y + a.z * b.z; n9(dot(p, q).value(), w, sc(a, b), "dot-double-single"); n9(dot(q, p).value(), w, sc(a, b), "dot-single-double"); vf_reach("end"); }
// @entry h_sum_mixed reach=end
VF_HARNESS(h_sum_mixed) { C p = mkr<C>::a(); CF q = cf(); V a = pl(p), b = plf(q); V w = {a.x + b.x, a.y + b.y, a.z + b.z}; e9(pl(sum(p, q)), w, "sum-double-single", sc(a, b)); e9(pl(p + q), w, "plus-double-single", sc(a, b)); V m = {w.x / 2, w.y / 2, w.z / 2}; e9(pl(mean(p, q)), m, "mean-double-single", sc(a, b)); vf_reach("end"); }
// @entry h_cross_mixed reach=end
VF_HARNESS(h_cross_mixed) { C p = mkr<C>::a(); CF q = cf(); V a = pl(p), b = plf(q); auto r = cross(p, q); n9(r.get_x().value(), a.y * b.z - a.z * b.y, sc(a, b), "cross-double-single"); n9(r.get_y().value(), a.z * b.x - a.x * b.z, sc(a, b), "cross-double-single"); n9(r.get_z().value(), a.x * b.y - a.y * b.x, sc(a, b), "cross-double-single"); vf_reach("end"); }
// @entry h_cross_mixed_sph reach=end
VF_HARNESS(h_cross_mixed_sph) { S p = mkr<S>::a(); CF q = cf(); V a = pl(p), b = plf(q); V w = {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; vf_assume(w.x * w.x + w.y * w.y + w.z * w.z > 0.0001); e9(plx(cross(p, q)), w, "cross-spherical-single", sc(a, b)); vf_reach("end"); }
