// C16: converting a position keeps the place
// @bounds all Cartesian components exact reals in [-1000,1000] (mixed units metre/centimetre/kilometre), all angle pairs in [-7,7] radian (also in degree) and distances in [-1000,1000]; every ordered pair of the three representations, by construction, conversion function, explicit request and from raw points of the geometry library in radian and degree
// @assume spherical representations: first angle is the azimuth from the x axis, second the angle from the z axis (spherical) or from the xy plane (equatorial), as documented for boost::geometry
// @outside floating point rounding (encoded as exact reals); distances of exactly 0 give unspecified angles
// @nostreams
#include "vfc.h"
typedef spherical_representation<double, Rad, Rad, Met> S; typedef spherical_equatorial_representation<double, Rad, Rad, Met> Q; typedef cartesian_representation<double, Met, Met, Met> C;
typedef spherical_representation<double, Deg, Deg, Met> SD; typedef spherical_equatorial_representation<double, Deg, Deg, Met> QD;
#define L(n) vf_real(n, -1000, 1000)
#define A(n) vf_real(n, -7, 7)
// @entry h_s2c reach=end
VF_HARNESS(h_s2c) { vf_tol = 1e-9; S s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(L("r"))); V v = pl(s); eq(pl(make_cartesian_representation(s)), v, "made"); eq(pl(C(s)), v, "constructed"); eq(pl(s.to_representation<C>()), v, "requested"); eq(pl(C(s.get_point())), v, "from-point"); vf_reach("end"); }
// @entry h_q2c reach=end
VF_HARNESS(h_q2c) { vf_tol = 1e-9; Q s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(L("r"))); V v = pl(s); eq(pl(make_cartesian_representation(s)), v, "made"); eq(pl(C(s)), v, "constructed"); eq(pl(s.to_representation<C>()), v, "requested"); eq(pl(C(s.get_point())), v, "from-point"); vf_reach("end"); }
// @entry h_c2s reach=end
VF_HARNESS(h_c2s) { C c(mk<Met>(L("x")), mk<Met>(L("y")), mk<Met>(L("z"))); V v = pl(c); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); auto m = make_spherical_representation(c); eq(pl(m), v, "made"); vf_assert(m.get_dist().value() >= 0, "distance-sign"); eq(pl(S(c)), v, "constructed"); eq(pl(c.to_representation<S>()), v, "requested"); eq(pl(S(c.get_point())), v, "from-point"); vf_reach("end"); }
// @entry h_c2q reach=end
VF_HARNESS(h_c2q) { C c(mk<Met>(L("x")), mk<Met>(L("y")), mk<Met>(L("z"))); V v = pl(c); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); auto m = make_spherical_equatorial_representation(c); eq(pl(m), v, "made"); vf_assert(m.get_dist().value() >= 0, "distance-sign"); eq(pl(Q(c)), v, "constructed"); eq(pl(c.to_representation<Q>()), v, "requested"); eq(pl(Q(c.get_point())), v, "from-point"); vf_reach("end"); }
// @entry h_s2q reach=end
VF_HARNESS(h_s2q) { S s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(vf_real("r", 0.01, 1000))); V v = pl(s); eq(pl(make_spherical_equatorial_representation(s)), v, "made"); vf_reach("end"); }
// @entry h_s2q_con reach=end
VF_HARNESS(h_s2q_con) { S s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(vf_real("r", 0.01, 1000))); V v = pl(s); eq(pl(Q(s)), v, "constructed"); eq(pl(s.to_representation<Q>()), v, "requested"); vf_reach("end"); }
// @entry h_q2s reach=end
VF_HARNESS(h_q2s) { Q s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(vf_real("r", 0.01, 1000))); V v = pl(s); eq(pl(make_spherical_representation(s)), v, "made"); vf_reach("end"); }
// @entry h_q2s_con reach=end
VF_HARNESS(h_q2s_con) { Q s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(vf_real("r", 0.01, 1000))); V v = pl(s); eq(pl(S(s)), v, "constructed"); eq(pl(s.to_representation<S>()), v, "requested"); vf_reach("end"); }
// @entry h_deg reach=end
VF_HARNESS(h_deg) {   // degrees instead of radian
  double a = vf_real("a", -360, 360), t = vf_real("t", -360, 360), r = L("r"); SD s(mk<Deg>(a), mk<Deg>(t), mk<Met>(r)); eq(pl(make_cartesian_representation(s)), pl(s), "spherical"); QD q(mk<Deg>(a), mk<Deg>(t), mk<Met>(r)); eq(pl(make_cartesian_representation(q)), pl(q), "equatorial"); cartesian_representation<double, Cm, Km, Met> k(q); eq(pl(k), pl(q), "equatorial-to-mixed-units"); vf_reach("end"); }
typedef cartesian_representation<double, Met, Cm, Km> CM;
// @entry h_mixed_s reach=end
VF_HARNESS(h_mixed_s) {   // Cartesian components in different units
  CM c(mk<Met>(L("x")), mk<Cm>(L("y")), mk<Km>(L("z"))); V v = pl(c); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); eq(pl(make_spherical_representation(c)), v, "made"); spherical_representation<double, Deg, Rad, Cm> o(c); eq(pl(o), v, "constructed"); vf_reach("end"); }
// @entry h_mixed_q reach=end
VF_HARNESS(h_mixed_q) { CM c(mk<Met>(L("x")), mk<Cm>(L("y")), mk<Km>(L("z"))); V v = pl(c); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); eq(pl(make_spherical_equatorial_representation(c)), v, "made"); spherical_equatorial_representation<double, Deg, Rad, Km> o(c); eq(pl(o), v, "constructed"); vf_reach("end"); }
// @entry h_self reach=end
VF_HARNESS(h_self) {   // a point of the same system
  S s(mk<Rad>(A("a")), mk<Rad>(A("t")), mk<Met>(vf_real("r", 0.01, 1000))); eq(pl(S(s.get_point())), pl(s), "spherical-from-own-point"); Q q(mk<Rad>(A("b")), mk<Rad>(A("u")), mk<Met>(vf_real("s", 0.01, 1000))); eq(pl(Q(q.get_point())), pl(q), "equatorial-from-own-point"); vf_reach("end"); }
// points of the geometry library as the source, for the documented defaults (radian, pure numbers) and for asked units
template <class CS> struct gp { typedef bg::model::point<double, 3, CS> P; };
typedef gp<bg::cs::cartesian>::P PC; typedef gp<bg::cs::spherical<bg::radian>>::P PS; typedef gp<bg::cs::spherical<bg::degree>>::P PSD; typedef gp<bg::cs::spherical_equatorial<bg::radian>>::P PQ; typedef gp<bg::cs::spherical_equatorial<bg::degree>>::P PQD;
static const double DG = PI / 180;
static PC gpC() { return PC(L("x"), L("y"), L("z")); } static V at(PC const& p) { return {bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)}; }
template <class P> static P gpA(double k) { return P(vf_real("a", -7 * k, 7 * k), vf_real("t", -7 * k, 7 * k), vf_real("r", 0.01, 1000)); }
static V at(PS const& p) { return ofS(bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)); } static V at(PQ const& p) { return ofQ(bg::get<0>(p), bg::get<1>(p), bg::get<2>(p)); }
static V at(PSD const& p) { return ofS(bg::get<0>(p) * DG, bg::get<1>(p) * DG, bg::get<2>(p)); } static V at(PQD const& p) { return ofQ(bg::get<0>(p) * DG, bg::get<1>(p) * DG, bg::get<2>(p)); }
template <class T> static void dbl(T const&, const char* id) { vf_assert(sizeof(typename T::type) == sizeof(double), id); }
template <class P> static void pc(P const& p) { vf_tol = 1e-9; V v = at(p); auto d = make_cartesian_representation(p); dbl(d, "default-number"); eq(pl(d), v, "made-default"); eq(pl(make_cartesian_representation<double, Met, Met, Met>(p)), v, "made-asked"); eq(pl(C(p)), v, "constructed"); eq(pl(cartesian_representation<>(p)), v, "constructed-default"); vf_reach("end"); }
template <class P> static void ps(P const& p) { V v = at(p); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); auto d = make_spherical_representation(p); dbl(d, "default-number"); eq(pl(d), v, "made-default"); eq(pl(make_spherical_representation<double, Deg, Rad, Met>(p)), v, "made-asked"); eq(pl(SD(p)), v, "constructed"); eq(pl(spherical_representation<>(p)), v, "constructed-default"); vf_reach("end"); }
template <class P> static void pq(P const& p) { V v = at(p); vf_assume(v.x * v.x + v.y * v.y + v.z * v.z > 0.0001); auto d = make_spherical_equatorial_representation(p); dbl(d, "default-number"); eq(pl(d), v, "made-default"); eq(pl(make_spherical_equatorial_representation<double, Rad, Deg, Met>(p)), v, "made-asked"); eq(pl(QD(p)), v, "constructed"); eq(pl(spherical_equatorial_representation<>(p)), v, "constructed-default"); vf_reach("end"); }
// @entry h_point_CC reach=end
VF_HARNESS(h_point_CC) { pc(gpC()); }
// @entry h_point_SC reach=end
VF_HARNESS(h_point_SC) { pc(gpA<PS>(1)); }
// @entry h_point_SdC reach=end
VF_HARNESS(h_point_SdC) { pc(gpA<PSD>(60)); }
// @entry h_point_QC reach=end
VF_HARNESS(h_point_QC) { pc(gpA<PQ>(1)); }
// @entry h_point_QdC reach=end
VF_HARNESS(h_point_QdC) { pc(gpA<PQD>(60)); }
// @entry h_point_CS reach=end
VF_HARNESS(h_point_CS) { ps(gpC()); }
// @entry h_point_SS reach=end
VF_HARNESS(h_point_SS) { ps(gpA<PS>(1)); }
// @entry h_point_SdS reach=end
VF_HARNESS(h_point_SdS) { ps(gpA<PSD>(60)); }
// @entry h_point_QS reach=end
VF_HARNESS(h_point_QS) { ps(gpA<PQ>(1)); }
// @entry h_point_QdS reach=end
VF_HARNESS(h_point_QdS) { ps(gpA<PQD>(60)); }
// @entry h_point_CQ reach=end
VF_HARNESS(h_point_CQ) { pq(gpC()); }
// @entry h_point_SQ reach=end
VF_HARNESS(h_point_SQ) { pq(gpA<PS>(1)); }
// @entry h_point_SdQ reach=end
VF_HARNESS(h_point_SdQ) { pq(gpA<PSD>(60)); }
// @entry h_point_QQ reach=end
VF_HARNESS(h_point_QQ) { pq(gpA<PQ>(1)); }
// @entry h_point_QdQ reach=end
VF_HARNESS(h_point_QdQ) { pq(gpA<PQD>(60)); }
