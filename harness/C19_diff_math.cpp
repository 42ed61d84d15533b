// C19: converting, adding and multiplying differentials
// @bounds all components exact reals: Cartesian components in [-1000,1000] in equal or mixed units, angles in [-7,7] radian or [-420,420] degree, speeds in [0.01,1000], times in [-1000,1000] seconds; every combination of the four differentials as source and target of a conversion and as first and second summand; conversion from points of the geometry library in Cartesian, spherical and equatorial systems (radian, degree)
// @assume a coslat differential stands for the spherical differential with its second angle divided by cos(first angle), which is not zero; speeds of spherical summands are positive, spherical results are asked of motions that are not zero
// @outside floating point rounding (encoded as exact reals)
// @nostreams
#include "vfd.h"
typedef SD<Rad, Rad, Mps> S; typedef QD<Rad, Rad, Mps> Q; typedef KD<Rad, Rad, Mps> K; typedef CD<Mps, Mps, Mps> C; typedef CD<Mps, Cmps, Kmps> M; typedef SD<Deg, Rad, Kmps> SM; typedef QD<Rad, Deg, Cmps> QM; typedef KD<Deg, Deg, Kmps> KM; typedef CD<Kmps, Mps, Cmps> CM;
template <class T> struct mkr;
template <class X, class Y, class Z> struct mkr<CD<X, Y, Z>> { typedef CD<X, Y, Z> T; static T a() { return T(mk<X>(vf_real("ax", -1000, 1000)), mk<Y>(vf_real("ay", -1000, 1000)), mk<Z>(vf_real("az", -1000, 1000))); } static T b() { return T(mk<X>(vf_real("bx", -1000, 1000)), mk<Y>(vf_real("by", -1000, 1000)), mk<Z>(vf_real("bz", -1000, 1000))); } static void ok(T const&) {} };
template <class T> struct mks { typedef typename T::quantity1 X; typedef typename T::quantity2 Y; typedef typename T::quantity3 Z; static T a() { return T(mk<X>(vf_real("aa", -vf_amp<X>::m(), vf_amp<X>::m())), mk<Y>(vf_real("at", -vf_amp<Y>::m(), vf_amp<Y>::m())), mk<Z>(vf_real("ar", 0.01, 1000))); } static T b() { return T(mk<X>(vf_real("ba", -vf_amp<X>::m(), vf_amp<X>::m())), mk<Y>(vf_real("bt", -vf_amp<Y>::m(), vf_amp<Y>::m())), mk<Z>(vf_real("br", 0.01, 1000))); } static void ok(T const&) {} };
template <class... X> struct mkr<SD<X...>> : mks<SD<X...>> {}; template <class... X> struct mkr<QD<X...>> : mks<QD<X...>> {}; template <class... X> struct mkr<KD<X...>> : mks<KD<X...>> { static void ok(KD<X...> const& d) { double c = std::cos(base(d.get_dlat())); vf_assume(c > 0.001 || c < -0.001); } };
static double n2(V v) { return v.x * v.x + v.y * v.y + v.z * v.z; }
static double sc(V a) { return vf_symbolic() ? 0 : std::sqrt(n2(a)); }
template <class B> struct isK { static bool const v = false; }; template <class... X> struct isK<KD<X...>> { static bool const v = true; };
template <class R> struct vf_isD { static const bool v = false; }; template <class X, class Y, class Z> struct vf_isD<CD<X, Y, Z>> { static const bool v = true; };
template <class B> static void can(V v) { vf_assume(n2(v) > 0.0001); if (isK<B>::v) vf_assume(v.x > 0.001 || v.x < -0.001); }   // a motion with a direction
template <class A, class B, class F> static void conv(F f) { if (vf_isD<B>::v) vf_tol = 1e-9; A p = mkr<A>::a(); mkr<A>::ok(p); V v = mo(p); can<B>(v); eq(mo(f(p)), v, "made", sc(v)); vf_reach("end"); }
template <class A, class B> static void cons() { if (vf_isD<B>::v) vf_tol = 1e-9; A p = mkr<A>::a(); mkr<A>::ok(p); V v = mo(p); can<B>(v); eq(mo(B(p)), v, "constructed", sc(v)); vf_reach("end"); }
template <class A, class B> static void sums() { if (vf_isD<A>::v) vf_tol = 1e-9; A p = mkr<A>::a(); B q = mkr<B>::b(); mkr<A>::ok(p); mkr<B>::ok(q); V a = mo(p), b = mo(q), w = {a.x + b.x, a.y + b.y, a.z + b.z}; can<A>(w); auto s = p + q; vf_assert(std::is_same<decltype(s), A>::value, "sum-type"); eq(mo(s), w, "sum", sc(a) + sc(b)); vf_reach("end"); }
template <class A> static void times() { if (vf_isD<A>::v) vf_tol = 1e-9; A p = mkr<A>::a(); mkr<A>::ok(p); V a = mo(p); double t = vf_real("t", -1000, 1000); V w = {a.x * t, a.y * t, a.z * t}; eq(mo(p * (t * bu::si::seconds)), w, "product", sc(w)); vf_reach("end"); }
template <class A> static void mags() { A p = mkr<A>::a(); V a = mo(p); double m = p.magnitude() * uf<typename A::quantity3>::f(); vf_assert(m >= 0, "magnitude-sign"); vf_close(m * m, n2(a), 1e-9, "magnitude"); vf_reach("end"); }
template <class A, class B> static void unit() { if (vf_isD<B>::v) vf_tol = 1e-9; A p = mkr<A>::a(); V a = mo(p); vf_assume(n2(a) > 0.01); double m = p.magnitude(); V u = mo(p.template unit_vector<B>()); double sm = vf_symbolic() ? 0 : std::sqrt(n2(a)); nearly(u.x * m, a.x, sm, "unit-direction"); nearly(u.y * m, a.y, sm, "unit-direction"); nearly(u.z * m, a.z, sm, "unit-direction"); vf_reach("end"); }
template <class A, class B> static void request() { A p = mkr<A>::a(); V v = mo(p); can<B>(v); eq(mo(p.template to_differential<B>()), v, "requested", sc(v)); vf_reach("end"); }
#define MK(f) [](auto const& d) { return make_##f##_differential(d); }
// @entry h_make_SQ reach=end
VF_HARNESS(h_make_SQ) { conv<S, Q>(MK(spherical_equatorial)); }
// @entry h_cons_SQ reach=end
VF_HARNESS(h_cons_SQ) { cons<S, QM>(); }
// @entry h_make_SK reach=end
VF_HARNESS(h_make_SK) { conv<S, K>(MK(spherical_coslat)); }
// @entry h_cons_SK reach=end
VF_HARNESS(h_cons_SK) { cons<S, KM>(); }
// @entry h_make_SC reach=end
VF_HARNESS(h_make_SC) { conv<S, C>(MK(cartesian)); }
// @entry h_cons_SC reach=end
VF_HARNESS(h_cons_SC) { cons<S, CM>(); }
// @entry h_make_QS reach=end
VF_HARNESS(h_make_QS) { conv<Q, S>(MK(spherical)); }
// @entry h_cons_QS reach=end
VF_HARNESS(h_cons_QS) { cons<Q, SM>(); }
// @entry h_make_QK reach=end
VF_HARNESS(h_make_QK) { conv<Q, K>(MK(spherical_coslat)); }
// @entry h_cons_QK reach=end
VF_HARNESS(h_cons_QK) { cons<Q, KM>(); }
// @entry h_make_QC reach=end
VF_HARNESS(h_make_QC) { conv<Q, C>(MK(cartesian)); }
// @entry h_cons_QC reach=end
VF_HARNESS(h_cons_QC) { cons<Q, CM>(); }
// @entry h_make_KS reach=end
VF_HARNESS(h_make_KS) { conv<K, S>(MK(spherical)); }
// @entry h_cons_KS reach=end
VF_HARNESS(h_cons_KS) { cons<K, SM>(); }
// @entry h_make_KQ reach=end
VF_HARNESS(h_make_KQ) { conv<K, Q>(MK(spherical_equatorial)); }
// @entry h_cons_KQ reach=end
VF_HARNESS(h_cons_KQ) { cons<K, QM>(); }
// @entry h_make_KC reach=end
VF_HARNESS(h_make_KC) { conv<K, C>(MK(cartesian)); }
// @entry h_cons_KC reach=end
VF_HARNESS(h_cons_KC) { cons<K, CM>(); }
// @entry h_make_CS reach=end
VF_HARNESS(h_make_CS) { conv<C, S>(MK(spherical)); }
// @entry h_cons_CS reach=end
VF_HARNESS(h_cons_CS) { cons<C, SM>(); }
// @entry h_make_CQ reach=end
VF_HARNESS(h_make_CQ) { conv<C, Q>(MK(spherical_equatorial)); }
// @entry h_cons_CQ reach=end
VF_HARNESS(h_cons_CQ) { cons<C, QM>(); }
// @entry h_make_CK reach=end
VF_HARNESS(h_make_CK) { conv<C, K>(MK(spherical_coslat)); }
// @entry h_cons_CK reach=end
VF_HARNESS(h_cons_CK) { cons<C, KM>(); }
// @entry h_make_MS reach=end
VF_HARNESS(h_make_MS) { conv<M, S>(MK(spherical)); }
// @entry h_cons_MS reach=end
VF_HARNESS(h_cons_MS) { cons<M, SM>(); }
// @entry h_make_MQ reach=end
VF_HARNESS(h_make_MQ) { conv<M, Q>(MK(spherical_equatorial)); }
// @entry h_cons_MQ reach=end
VF_HARNESS(h_cons_MQ) { cons<M, QM>(); }
// @entry h_make_MK reach=end
VF_HARNESS(h_make_MK) { conv<M, K>(MK(spherical_coslat)); }
// @entry h_cons_MK reach=end
VF_HARNESS(h_cons_MK) { cons<M, KM>(); }
// @entry h_make_SM reach=end
VF_HARNESS(h_make_SM) { conv<SM, C>(MK(cartesian)); }
// @entry h_make_QM reach=end
VF_HARNESS(h_make_QM) { conv<QM, C>(MK(cartesian)); }
// @entry h_make_KM reach=end
VF_HARNESS(h_make_KM) { conv<KM, C>(MK(cartesian)); }
// @entry h_make_SM_K reach=end
VF_HARNESS(h_make_SM_K) { conv<SM, K>(MK(spherical_coslat)); }
// @entry h_make_QM_K reach=end
VF_HARNESS(h_make_QM_K) { conv<QM, K>(MK(spherical_coslat)); }
// @entry h_make_CM_K reach=end
VF_HARNESS(h_make_CM_K) { conv<CM, K>(MK(spherical_coslat)); }
// @entry h_make_SM_Q reach=end
VF_HARNESS(h_make_SM_Q) { conv<SM, Q>(MK(spherical_equatorial)); }
// @entry h_make_QM_S reach=end
VF_HARNESS(h_make_QM_S) { conv<QM, S>(MK(spherical)); }
// @entry h_make_KM_S reach=end
VF_HARNESS(h_make_KM_S) { conv<KM, S>(MK(spherical)); }
// @entry h_make_KM_Q reach=end
VF_HARNESS(h_make_KM_Q) { conv<KM, Q>(MK(spherical_equatorial)); }
// @entry h_make_CM_S reach=end
VF_HARNESS(h_make_CM_S) { conv<CM, S>(MK(spherical)); }
// @entry h_make_CM_Q reach=end
VF_HARNESS(h_make_CM_Q) { conv<CM, Q>(MK(spherical_equatorial)); }
// @entry h_cons_SM_QM reach=end
VF_HARNESS(h_cons_SM_QM) { cons<SM, QM>(); }
// @entry h_cons_QM_KM reach=end
VF_HARNESS(h_cons_QM_KM) { cons<QM, KM>(); }
// @entry h_cons_KM_SM reach=end
VF_HARNESS(h_cons_KM_SM) { cons<KM, SM>(); }
// @entry h_cons_CM_KM reach=end
VF_HARNESS(h_cons_CM_KM) { cons<CM, KM>(); }
// @entry h_sum_SM_KM reach=end
VF_HARNESS(h_sum_SM_KM) { sums<SM, KM>(); }
// @entry h_sum_KM_CM reach=end
VF_HARNESS(h_sum_KM_CM) { sums<KM, CM>(); }
// @entry h_sum_CM_KM reach=end
VF_HARNESS(h_sum_CM_KM) { sums<CM, KM>(); }
// @entry h_sum_SM_CM reach=end
VF_HARNESS(h_sum_SM_CM) { sums<SM, CM>(); }
// @entry h_sum_SS reach=end
VF_HARNESS(h_sum_SS) { sums<S, S>(); }
// @entry h_sum_SQ reach=end
VF_HARNESS(h_sum_SQ) { sums<S, Q>(); }
// @entry h_sum_SK reach=end
VF_HARNESS(h_sum_SK) { sums<S, K>(); }
// @entry h_sum_SC reach=end
VF_HARNESS(h_sum_SC) { sums<S, C>(); }
// @entry h_sum_SM reach=end
VF_HARNESS(h_sum_SM) { sums<S, M>(); }
// @entry h_sum_QS reach=end
VF_HARNESS(h_sum_QS) { sums<Q, S>(); }
// @entry h_sum_QQ reach=end
VF_HARNESS(h_sum_QQ) { sums<Q, Q>(); }
// @entry h_sum_QK reach=end
VF_HARNESS(h_sum_QK) { sums<Q, K>(); }
// @entry h_sum_QC reach=end
VF_HARNESS(h_sum_QC) { sums<Q, C>(); }
// @entry h_sum_QM reach=end
VF_HARNESS(h_sum_QM) { sums<Q, M>(); }
// @entry h_sum_KS reach=end
VF_HARNESS(h_sum_KS) { sums<K, S>(); }
// @entry h_sum_KQ reach=end
VF_HARNESS(h_sum_KQ) { sums<K, Q>(); }
// @entry h_sum_KK reach=end
VF_HARNESS(h_sum_KK) { sums<K, K>(); }
// @entry h_sum_KC reach=end
VF_HARNESS(h_sum_KC) { sums<K, C>(); }
// @entry h_sum_KM reach=end
VF_HARNESS(h_sum_KM) { sums<K, M>(); }
// @entry h_sum_CS reach=end
VF_HARNESS(h_sum_CS) { sums<C, S>(); }
// @entry h_sum_CQ reach=end
VF_HARNESS(h_sum_CQ) { sums<C, Q>(); }
// @entry h_sum_CK reach=end
VF_HARNESS(h_sum_CK) { sums<C, K>(); }
// @entry h_sum_CC reach=end
VF_HARNESS(h_sum_CC) { sums<C, C>(); }
// @entry h_sum_CM reach=end
VF_HARNESS(h_sum_CM) { sums<C, M>(); }
// @entry h_sum_MS reach=end
VF_HARNESS(h_sum_MS) { sums<M, S>(); }
// @entry h_sum_MQ reach=end
VF_HARNESS(h_sum_MQ) { sums<M, Q>(); }
// @entry h_sum_MK reach=end
VF_HARNESS(h_sum_MK) { sums<M, K>(); }
// @entry h_sum_MC reach=end
VF_HARNESS(h_sum_MC) { sums<M, C>(); }
// @entry h_sum_MM reach=end
VF_HARNESS(h_sum_MM) { sums<M, M>(); }
// @entry h_times_S reach=end
VF_HARNESS(h_times_S) { times<S>(); }
// @entry h_times_Q reach=end
VF_HARNESS(h_times_Q) { times<Q>(); }
// @entry h_times_K reach=end
VF_HARNESS(h_times_K) { times<K>(); }
// @entry h_times_C reach=end
VF_HARNESS(h_times_C) { times<C>(); }
// @entry h_times_M reach=end
VF_HARNESS(h_times_M) { times<M>(); }
// @entry h_times_SM reach=end
VF_HARNESS(h_times_SM) { times<SM>(); }
// @entry h_times_KM reach=end
VF_HARNESS(h_times_KM) { times<KM>(); }
// @entry h_mag_S reach=end
VF_HARNESS(h_mag_S) { mags<S>(); }
// @entry h_mag_Q reach=end
VF_HARNESS(h_mag_Q) { mags<Q>(); }
// @entry h_mag_C reach=end
VF_HARNESS(h_mag_C) { mags<C>(); }
// @entry h_unit_SS reach=end
VF_HARNESS(h_unit_SS) { unit<S, S>(); }
// @entry h_unit_SQ reach=end
VF_HARNESS(h_unit_SQ) { unit<S, Q>(); }
// @entry h_unit_SC reach=end
VF_HARNESS(h_unit_SC) { unit<S, C>(); }
// @entry h_unit_QS reach=end
VF_HARNESS(h_unit_QS) { unit<Q, S>(); }
// @entry h_unit_QQ reach=end
VF_HARNESS(h_unit_QQ) { unit<Q, Q>(); }
// @entry h_unit_QC reach=end
VF_HARNESS(h_unit_QC) { unit<Q, C>(); }
// @entry h_unit_CS reach=end
VF_HARNESS(h_unit_CS) { unit<C, S>(); }
// @entry h_unit_CQ reach=end
VF_HARNESS(h_unit_CQ) { unit<C, Q>(); }
// @entry h_unit_CC reach=end
VF_HARNESS(h_unit_CC) { unit<C, C>(); }
// @entry h_request_SQ reach=end
VF_HARNESS(h_request_SQ) { request<S, Q>(); }
// @entry h_request_SC reach=end
VF_HARNESS(h_request_SC) { request<S, C>(); }
// @entry h_request_QS reach=end
VF_HARNESS(h_request_QS) { request<Q, S>(); }
// @entry h_request_QC reach=end
VF_HARNESS(h_request_QC) { request<Q, C>(); }
// @entry h_request_CS reach=end
VF_HARNESS(h_request_CS) { request<C, S>(); }
// @entry h_request_CQ reach=end
VF_HARNESS(h_request_CQ) { request<C, Q>(); }
// points of the geometry library as the source, for the documented defaults (radian, pure numbers) and for asked units
template <class CS> struct gp { typedef bg::model::point<double, 3, CS> P; };
typedef gp<bg::cs::cartesian>::P PC; typedef gp<bg::cs::spherical<bg::radian>>::P PS; typedef gp<bg::cs::spherical<bg::degree>>::P PSD; typedef gp<bg::cs::spherical_equatorial<bg::radian>>::P PQ; typedef gp<bg::cs::spherical_equatorial<bg::degree>>::P PQD;
static const double DG = PI / 180;
static PC gpC() { return PC(vf_real("x", -1000, 1000), vf_real("y", -1000, 1000), vf_real("z", -1000, 1000)); } static V at(PC const& p) { return {bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)}; }
template <class P> static P gpA(double k) { return P(vf_real("a", -7 * k, 7 * k), vf_real("t", -7 * k, 7 * k), vf_real("r", 0.01, 1000)); }
static V at(PS const& p) { return ofS(bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)); } static V at(PQ const& p) { return ofQ(bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)); }
static V at(PSD const& p) { return ofS(bg::get<0>(p) * DG, bg::get<1>(p) * DG, bg::get<2>(p)); } static V at(PQD const& p) { return ofQ(bg::get<0>(p) * DG, bg::get<1>(p) * DG, bg::get<2>(p)); }
template <class T, class... X> static V raw(spherical_coslat_differential<T, X...> const& s) { return ofS(base(s.get_dlat()), base(s.get_dlon_coslat()), base(s.get_ddist())); }   // a point given to a coslat differential holds its three components
template <class T, class... X> static V raw(spherical_differential<T, X...> const& s) { return ofS(base(s.get_dlat()), base(s.get_dlon()), base(s.get_ddist())); } template <class T, class... X> static V raw(spherical_equatorial_differential<T, X...> const& s) { return ofQ(base(s.get_dlat()), base(s.get_dlon()), base(s.get_ddist())); } template <class T, class... X> static V raw(cartesian_differential<T, X...> const& s) { return {base(s.get_dx()), base(s.get_dy()), base(s.get_dz())}; }
template <class T> static void dbl(T const&, const char* id) { vf_assert(sizeof(typename T::type) == sizeof(double), id); }
template <class D0, class D1, class P, class F, class G> static void pt(P const& p, F f, G g) { V v = at(p); vf_assume(n2(v) > 0.0001); auto d = f(p); dbl(d, "default-number"); double s = sc(v); eq(raw(d), v, "made-default", s); eq(raw(g(p)), v, "made-asked", s); eq(raw(D1(p)), v, "constructed", s); eq(raw(D0(p)), v, "constructed-default", s); vf_reach("end"); }
#define PT(f, U1, U2, P) pt<f##_differential<>, f##_differential<double, U1, U2, Mps>>(P, [](auto const& d) { return make_##f##_differential(d); }, [](auto const& d) { return make_##f##_differential<double, U1, U2, Mps>(d); })
// @entry h_point_CC reach=end
VF_HARNESS(h_point_CC) { PT(cartesian, Mps, Mps, gpC()); }
// @entry h_point_SC reach=end
VF_HARNESS(h_point_SC) { PT(cartesian, Mps, Mps, gpA<PS>(1)); }
// @entry h_point_SdC reach=end
VF_HARNESS(h_point_SdC) { PT(cartesian, Mps, Mps, gpA<PSD>(60)); }
// @entry h_point_QC reach=end
VF_HARNESS(h_point_QC) { PT(cartesian, Mps, Mps, gpA<PQ>(1)); }
// @entry h_point_QdC reach=end
VF_HARNESS(h_point_QdC) { PT(cartesian, Mps, Mps, gpA<PQD>(60)); }
// @entry h_point_CS reach=end
VF_HARNESS(h_point_CS) { PT(spherical, Deg, Rad, gpC()); }
// @entry h_point_SS reach=end
VF_HARNESS(h_point_SS) { PT(spherical, Deg, Rad, gpA<PS>(1)); }
// @entry h_point_SdS reach=end
VF_HARNESS(h_point_SdS) { PT(spherical, Deg, Rad, gpA<PSD>(60)); }
// @entry h_point_QS reach=end
VF_HARNESS(h_point_QS) { PT(spherical, Deg, Rad, gpA<PQ>(1)); }
// @entry h_point_QdS reach=end
VF_HARNESS(h_point_QdS) { PT(spherical, Deg, Rad, gpA<PQD>(60)); }
// @entry h_point_CQ reach=end
VF_HARNESS(h_point_CQ) { PT(spherical_equatorial, Rad, Deg, gpC()); }
// @entry h_point_SQ reach=end
VF_HARNESS(h_point_SQ) { PT(spherical_equatorial, Rad, Deg, gpA<PS>(1)); }
// @entry h_point_SdQ reach=end
VF_HARNESS(h_point_SdQ) { PT(spherical_equatorial, Rad, Deg, gpA<PSD>(60)); }
// @entry h_point_QQ reach=end
VF_HARNESS(h_point_QQ) { PT(spherical_equatorial, Rad, Deg, gpA<PQ>(1)); }
// @entry h_point_QdQ reach=end
VF_HARNESS(h_point_QdQ) { PT(spherical_equatorial, Rad, Deg, gpA<PQD>(60)); }
// @entry h_point_CK reach=end
VF_HARNESS(h_point_CK) { PT(spherical_coslat, Deg, Rad, gpC()); }
// @entry h_point_SK reach=end
VF_HARNESS(h_point_SK) { PT(spherical_coslat, Deg, Rad, gpA<PS>(1)); }
// @entry h_point_SdK reach=end
VF_HARNESS(h_point_SdK) { PT(spherical_coslat, Deg, Rad, gpA<PSD>(60)); }
// @entry h_point_QK reach=end
VF_HARNESS(h_point_QK) { PT(spherical_coslat, Deg, Rad, gpA<PQ>(1)); }
// @entry h_point_QdK reach=end
VF_HARNESS(h_point_QdK) { PT(spherical_coslat, Deg, Rad, gpA<PQD>(60)); }
