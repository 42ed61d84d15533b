// C07: binary field conversion
// @bounds every bit pattern of every supported element type (logical, byte, character, 16/32 bit integer, 32/64 bit float, complex, descriptor), arrays of 0..4 elements (thorough 0..6) and of 8, 9, 17 and 33
#include "vfh.h"
#include <complex>
#include <cstring>
#include <boost/astronomy/io/binary_data_converter.hpp>
using namespace boost::astronomy::io; typedef binary_data_converter B;
template <class T> static bool bits(T const& a, T const& b) { unsigned char x[sizeof(T)], y[sizeof(T)]; std::memcpy(x, &a, sizeof(T)); std::memcpy(y, &b, sizeof(T)); bool ok = true; for (size_t i = 0; i < sizeof(T); i++) ok &= x[i] == y[i]; return ok; }
// value whose memory image is the reverse of the big-endian text
template <class T> static T big(const char* p) { unsigned char x[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) x[i] = (unsigned char)p[sizeof(T) - 1 - i]; T v; std::memcpy(&v, x, sizeof(T)); return v; }
static std::string raw(size_t n) { std::string s(n, '?'); if (n) vf_bytes(&s[0], n, "d"); return s; }
static const int M = VF_TIER(4, 6); static const int LONG[] = {8, 9, 17, 33};
static int count() { int n = vf_pick("n", 0, M + 4); return n <= M ? n : LONG[n - M - 1]; }
template <class T> static void scalar() {
  std::string d = raw(sizeof(T)); T v = B::deserialize_to<T>(d, 1); vf_assert(bits(v, big<T>(d.data())), "scalar-read-is-big-endian"); std::string o = B::serialize(v); vf_assert(vf_same(o, d), "scalar-round-trip"); vf_reach("end"); }
template <class T> static void array() {
  int n = count(); std::string d = raw(n * sizeof(T)); std::vector<T> v = B::deserialize_to<std::vector<T>>(d, n); vf_assert(v.size() == (size_t)n, "array-length"); for (int i = 0; i < n; i++) vf_assert(bits(v[i], big<T>(d.data() + i * sizeof(T))), "array-element"); std::string o = B::serialize(v); vf_assert(vf_same(o, d), "array-round-trip"); vf_reach("end"); }
template <class T> static void cplx() {
  std::string d = raw(2 * sizeof(T)); std::complex<T> v = B::deserialize_to<std::complex<T>>(d, 1); vf_assert(bits(v.real(), big<T>(d.data())), "complex-real"); vf_assert(bits(v.imag(), big<T>(d.data() + sizeof(T))), "complex-imaginary"); vf_assert(vf_same(B::serialize(v), d), "complex-round-trip"); vf_reach("end"); }
template <class T> static void cplxs() {
  int n = count(); std::string d = raw(2 * n * sizeof(T)); std::vector<std::complex<T>> v = B::deserialize_to<std::vector<std::complex<T>>>(d, n); vf_assert(v.size() == (size_t)n, "complex-array-length"); for (int i = 0; i < n; i++) { vf_assert(bits(v[i].real(), big<T>(d.data() + 2 * i * sizeof(T))), "complex-array-real"); vf_assert(bits(v[i].imag(), big<T>(d.data() + (2 * i + 1) * sizeof(T))), "complex-array-imaginary"); } vf_assert(vf_same(B::serialize(v), d), "complex-array-round-trip"); vf_reach("end"); }
// @entry h_i16 reach=end
VF_HARNESS(h_i16) { scalar<boost::int16_t>(); }
// @entry h_i32 reach=end
VF_HARNESS(h_i32) { scalar<boost::int32_t>(); }
// @entry h_f32 reach=end
VF_HARNESS(h_f32) { scalar<boost::float32_t>(); }
// @entry h_f64 reach=end
VF_HARNESS(h_f64) { scalar<boost::float64_t>(); }
// @entry h_u8 reach=end
VF_HARNESS(h_u8) { scalar<std::uint8_t>(); }
// @entry h_char reach=end
VF_HARNESS(h_char) { scalar<char>(); }
// @entry h_i16s reach=end
VF_HARNESS(h_i16s) { array<boost::int16_t>(); }
// @entry h_i32s reach=end
VF_HARNESS(h_i32s) { array<boost::int32_t>(); }
// @entry h_f32s reach=end
VF_HARNESS(h_f32s) { array<boost::float32_t>(); }
// @entry h_f64s reach=end
VF_HARNESS(h_f64s) { array<boost::float64_t>(); }
// @entry h_u8s reach=end
VF_HARNESS(h_u8s) { array<std::uint8_t>(); }
// @entry h_chars reach=end
VF_HARNESS(h_chars) { array<char>(); }
// @entry h_c32 reach=end
VF_HARNESS(h_c32) { cplx<boost::float32_t>(); }
// @entry h_c64 reach=end
VF_HARNESS(h_c64) { cplx<boost::float64_t>(); }
// @entry h_c32s reach=end
VF_HARNESS(h_c32s) { cplxs<boost::float32_t>(); }
// @entry h_c64s reach=end
VF_HARNESS(h_c64s) { cplxs<boost::float64_t>(); }
// @entry h_pair reach=end
VF_HARNESS(h_pair) { std::string d = raw(8); auto v = B::deserialize_to<std::pair<boost::int32_t, boost::int32_t>>(d, 1); vf_assert(v.first == big<boost::int32_t>(d.data()) && v.second == big<boost::int32_t>(d.data() + 4), "descriptor"); vf_assert(vf_same(B::serialize(v), d), "descriptor-round-trip"); vf_reach("end"); }
// @entry h_pairs reach=end
VF_HARNESS(h_pairs) { int n = count(); std::string d = raw(8 * n); auto v = B::deserialize_to<std::vector<std::pair<boost::int32_t, boost::int32_t>>>(d, n); vf_assert(v.size() == (size_t)n, "descriptor-count"); for (int i = 0; i < n; i++) vf_assert(v[i].first == big<boost::int32_t>(d.data() + 8 * i) && v[i].second == big<boost::int32_t>(d.data() + 8 * i + 4), "descriptor-element"); vf_assert(vf_same(B::serialize(v), d), "descriptors-round-trip"); vf_reach("end"); }
// @entry h_bool reach=end
VF_HARNESS(h_bool) { std::string d = raw(1); bool b = B::deserialize_to<bool>(d, 1); vf_assert(b == (d[0] == 'T'), "logical"); vf_assert(B::serialize(b) == (b ? "T" : "F"), "logical-text"); vf_reach("end"); }
// @entry h_bools reach=end
VF_HARNESS(h_bools) { int n = vf_pick("n", 0, M); std::string d = raw(n); std::vector<bool> v = B::deserialize_to<std::vector<bool>>(d, n); vf_assert(v.size() == (size_t)n, "logical-count"); std::string w; for (int i = 0; i < n; i++) { vf_assert(v[i] == (d[i] == 'T'), "logical-element"); } std::string o = B::serialize(v); vf_assert(o.size() == (size_t)n, "logical-array-size"); for (int i = 0; i < n; i++) vf_assert(o[i] == (d[i] == 'T' ? 'T' : 'F'), "logical-array-text"); vf_reach("end"); }
template <class T, class A> static void generic() { std::string d = raw(sizeof(T)); vf_assert(bits(B::element_to_numeric<T, A>(d), big<T>(d.data())), "element-to-numeric"); std::string e = raw(3 * sizeof(T)); std::vector<T> v = B::elements_to_numeric_collection<T, A>(e, 3); vf_assert(v.size() == 3, "collection-size"); for (int i = 0; i < 3; i++) vf_assert(bits(v[i], big<T>(e.data() + i * sizeof(T))), "collection-element"); std::string f = raw(4 * sizeof(T)); auto c = B::elements_to_complex_collection<T, A>(f, 2); vf_assert(c.size() == 2, "complex-collection-size"); for (int i = 0; i < 2; i++) vf_assert(bits(c[i].real(), big<T>(f.data() + 2 * i * sizeof(T))) && bits(c[i].imag(), big<T>(f.data() + (2 * i + 1) * sizeof(T))), "complex-collection-element"); vf_reach("end"); }
// @entry h_g8 reach=end
VF_HARNESS(h_g8) { generic<boost::int8_t, boost::int8_t>(); }
// @entry h_g16 reach=end
VF_HARNESS(h_g16) { generic<boost::int16_t, boost::int16_t>(); }
// @entry h_g32 reach=end
VF_HARNESS(h_g32) { generic<boost::int32_t, boost::int32_t>(); }
// @entry h_g64 reach=end
VF_HARNESS(h_g64) { generic<boost::int64_t, boost::int64_t>(); }
// @entry h_gf reach=end
VF_HARNESS(h_gf) { generic<boost::float32_t, boost::int32_t>(); }
// @entry h_gd reach=end
VF_HARNESS(h_gd) { generic<boost::float64_t, boost::int64_t>(); }
// @entry h_bools_long reach=end
VF_HARNESS(h_bools_long) { int n = LONG[vf_pick("n", 0, 3)]; std::string d(n, 'T'), s = raw(3); for (int i = 0; i < n; i++) if (i % 3 == 1) d[i] = 'F'; else if (i % 5 == 2) d[i] = 0; d[0] = s[0]; d[7] = s[1]; d[n - 1] = s[2]; std::vector<bool> v = B::deserialize_to<std::vector<bool>>(d, n); vf_assert(v.size() == (size_t)n, "long-logical-count"); for (int i = 0; i < n; i++) vf_assert(v[i] == (d[i] == 'T'), "long-logical-element"); std::string o = B::serialize(v); vf_assert(o.size() == (size_t)n, "long-logical-size"); for (int i = 0; i < n; i++) vf_assert(o[i] == (d[i] == 'T' ? 'T' : 'F'), "long-logical-text"); vf_reach("end"); }
